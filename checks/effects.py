"""Ownership and effect analysis: who may write, who may see, the objects a model or a caller owns."""
import ast

from . import caching

from sa.interp import Client, Budget
from sa.values import *
from sa.world import entries, run_entry, World
from sa.loader import AnalysisBroken

MUTABLE = ('list', 'dict', 'set', 'ndarray', 'graph', 'multigraph', 'ungraph', 'df', 'series', 'any')


class Rec(Client):
    def __init__(self):
        self.muts = {}       # (origin, loc, func, how) -> stack
        self.maybe = {}
        self.sets = []
        self.globals = []
        self.nmut = 0
        self.writes = []
        self.store_value = BOT

    def where(self, node):
        I = self.world.I
        f = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        return I.loc(node), (f.ident if f else '?'), [x.fi.ident for x in I.frames if x.fi is not None]

    def mutate(self, st, node, oid, how, certain):
        I = self.world.I
        self.nmut += 1
        o0 = I.obj(st, oid)
        if o0 is not None and o0.origin and certain:
            val, idx, dep = self.mutinfo
            self.writes.append((o0.origin, o0.t, how, I.alldeps(st, val) | st.ctrl, I.alldeps(st, idx) if idx is not None else EMPTY, idx) + self.where(node))
        for o, cert in I.closure_objs(st, oid, certain).items():
            ob = I.obj(st, o)
            if ob is None:
                continue
            for org in ob.origin:
                loc, fn, stack = self.where(node)
                (self.muts if cert else self.maybe).setdefault((org, loc, fn, how), (stack, ob.t, node))

    def setattr(self, st, node, oid, name, value):
        I = self.world.I
        o = I.obj(st, oid)
        loc, fn, stack = self.where(node)
        self.sets.append((o, oid, name, value, I.alldeps(st, value) | st.ctrl, loc, fn, stack, node))

    def store_global(self, st, node, what):
        loc, fn, stack = self.where(node)
        self.globals.append((what, loc, fn, stack, self.world.I.alldeps(st, self.store_value) | st.ctrl, node))


def sweep(ctx, prepare=None, only=None, client=Rec, arg=None):
    """runs every public entry; yields (entry, client, world, outcomes, raised)"""
    n = 0
    for e in entries(ctx.repo):
        if only is not None and not only(e):
            continue
        c = client()
        try:
            w, outs, raised = run_entry(ctx.repo, c, e, arg=arg, max_steps=2_000_000, prepare=prepare)
        except (Budget, RecursionError) as ex:
            ctx.ob(e.name, 'unknown', f'{type(ex).__name__}: {ex}')
            continue
        n += 1
        ctx.count('statements visited', len(w.I.visited))
        ctx.count('abstract steps', w.I.steps)
        ctx.count('call edges', len(w.I.calls_seen))
        for k, v in w.I.unmodelled.items():
            ctx.count('unmodelled external calls', v)
        yield e, c, w, outs, raised
    if only is None:
        ctx.floor('public entries analysed', n, 140)


def is_memo(w, org):
    """a state attribute that construction leaves empty (None or an empty dictionary) holds memoised values only"""
    return org.startswith('state:') and org[6:] in w.memo or org.startswith('arg:') and '.' in org and org.split('.', 1)[1] in w.memo


def memo_attrs(w, e):
    """attributes that the constructor leaves None or an empty dict"""
    out = set()
    I = w.I
    for x in w.vals.values():
        for oid in x.oids():
            o = I.obj(w.st0, oid)
            if o is not None and o.t == 'inst' and o.origin:
                for name, v in o.attrs.items():
                    if not isinstance(name, str):
                        continue
                    if v.atoms == {NONE}:
                        out.add(name)
                    a = v.single()
                    if a is not None and a[0] == 'o':
                        d = I.obj(w.st0, a[1])
                        if d is not None and d.t == 'dict' and not d.attrs and not d.elem.atoms:
                            out.add(name)
    return out


def snap(w, vals):
    w.st0 = w.st.fork()
    w.vals = vals


def depset(d):
    return {x for x in d if x.startswith(('arg:', 'len:arg:')) or x in ('globalrng',)}


def state_immutable(ctx):
    ctx.rule = ('Every public operation of the two model classes and of the assessment and plotting functions is interpreted abstractly over the current source, with '
                'every object reachable from the model tagged as owned by it; views are followed to their base. A write (item, slice, in-place operator, out=, '
                'mutating method, attribute store) that definitely reaches an owned object is a violation, except a store into a memo (an attribute the constructor leaves '
                'None or an empty dictionary).')
    for e, c, w, outs, raised in sweep(ctx, prepare=snap):
        w.memo = memo_attrs(w, e)
        bad = 0
        for (org, loc, fn, how), (stack, t, node) in c.muts.items():
            if e.fi.name == '__init__' and org.startswith('state:'):
                continue
            if org.startswith('state:'):
                if org[6:] in w.memo and how in ('setitem', 'setdefault', 'update'):
                    continue
                bad += 1
                ctx.violation(f'{fn}:{org}:{how}', f'{e.name} modifies the {t} owned by the model ({org[6:]}) through {how}', loc, stack)
            elif org.startswith('arg:') and '.' in org:
                if org.split('.', 1)[1] in w.memo and how in ('setitem', 'setdefault', 'update'):
                    continue
                bad += 1
                ctx.violation(f'{fn}:{org}:{how}', f'{e.name} modifies the {t} owned by a model passed as argument ({org[4:]}) through {how}', loc, stack)
        for o, oid, name, v, deps, loc, fn, stack, node in c.sets:
            if o is None or o.t != 'inst' or e.fi.name == '__init__':
                continue
            if name not in w.memo and ('state:self' in o.origin or any(x.startswith('arg:') for x in o.origin)):
                bad += 1
                ctx.violation(f'{fn}:setattr:{name}', f'{e.name} rebinds attribute {name} of an existing model', loc, stack)
        ctx.count('write sites resolved', c.nmut)
        ctx.ob(f'{e.name} leaves every model unchanged', 'violated' if bad else 'ok')
    # cached values handed out by reference would let callers modify the model
    ctx.assumptions += ['external calls without an entry in the effect table are assumed not to write their arguments (they are counted)',
                        'a write whose target is owned by a model only on some aliasing hypotheses is not reported']


def arguments_untouched(ctx):
    ctx.rule = ('Every public operation is interpreted abstractly with each argument bound to all kinds of value a caller may pass, each object of the caller tagged with the '
                'argument it came from; a write that definitely reaches a tagged object, directly, through a view or inside a callee, is a violation.')
    for e, c, w, outs, raised in sweep(ctx, prepare=snap):
        bad = 0
        for (org, loc, fn, how), (stack, t, node) in c.muts.items():
            if org.startswith('arg:') and '.' not in org:
                if t in ('file', 'rng', 'iter'):
                    continue
                bad += 1
                ctx.violation(f'{fn}:{org}:{how}', f'{e.name} modifies the {t} passed as argument {org[4:]} through {how}', loc, stack)
        for p in list(e.fi.params) + e.fi.kwonly:
            ctx.ob(f'{e.name}({p}) is not modified', 'violated' if bad else 'ok')
        ctx.count('write sites resolved', c.nmut)
    ctx.assumptions += ['a write whose target is the argument only on some aliasing hypotheses (numpy may or may not copy) is not reported',
                        'callables supplied by the user are not analysed']


def owners(I, st, v):
    """{(origin, type, oid)} definitely reachable from v"""
    out = {}
    for oid in I.reachable(st, v):
        for o, cert in I.closure_objs(st, oid, True).items():
            ob = I.obj(st, o)
            if cert and ob is not None and ob.t in MUTABLE:
                for org in ob.origin:
                    out[(org, ob.t)] = o
    return out


def owned(I, st, w):
    """objects held by existing models when the call returns: {oid: attribute}"""
    out = {}
    for v in w.vals.values():
        for x in v.oids():
            o = I.obj(st, x)
            if o is None or o.t != 'inst' or not o.origin:
                continue
            for name, a in o.attrs.items():
                if isinstance(name, str):
                    for oid in I.reachable(st, a):
                        for b, cert in I.closure_objs(st, oid, True).items():
                            if cert:
                                out[b] = name
    return out


def no_aliasing(ctx):
    ctx.rule = ('Every public operation is interpreted abstractly; from each returned value all reachable mutable objects, and the bases of views, are enumerated. Reaching an '
                'object owned by the model, by a module, by a default value or (for a new model) by an argument is a violation.')
    shared = {}
    for e, c, w, outs, raised in sweep(ctx, prepare=snap):
        I = w.I
        if e.fi.kind == 'cached':
            for kind in {k for st, v in outs for k in caching.signature(I, st, v)} - {'value'}:
                if kind not in shared:
                    shared[kind] = caching.handing_out(ctx.repo, kind)
                if shared[kind]:
                    ctx.violation(f'{e.fi.ident}:cached', f'{e.name} hands out the {kind[0]} it caches, or a part of it', e.fi.loc(), [])
        bad = 0
        nobj = 0
        news = {}
        for st, v in outs:
            for (org, t), oid in owners(I, st, v).items():
                if t == 'any':
                    continue
                if org.startswith('state:') or org.startswith(('module:', 'default:')) or (org.startswith('arg:') and '.' in org):
                    bad += 1
                    ctx.violation(f'{e.fi.ident}:returns:{org}', f'{e.name} returns the {t} owned by {org} instead of a copy', e.fi.loc(), [])
                elif org.startswith('arg:') and e.ci is not None:
                    bad += 1
                    ctx.violation(f'{e.fi.ident}:returns:{org}', f'{e.name} returns the {t} it received as {org[4:]}', e.fi.loc(), [])
            kept = owned(I, st, w)
            for oid in I.reachable(st, v):
                for o, cert in I.closure_objs(st, oid, True).items():
                    ob = I.obj(st, o)
                    if cert and o in kept and ob is not None and ob.t in MUTABLE and ob.t != 'any' and not ob.origin:
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:returns:{kept[o]}', f'{e.name} returns the {ob.t} it stores in the model ({kept[o]}) instead of a copy', e.fi.loc(), [])
            nobj += len(I.reachable(st, v))
            for oid in I.reachable(st, v):
                o = I.obj(st, oid)
                if o is not None and o.t == 'inst' and o.cls is not None and not any(x.startswith(('state:', 'arg:')) for x in o.origin):
                    news[oid] = st
            if e.fi.name == '__init__':
                for x in w.vals['self'].oids():
                    news[x] = st
            for oid, s in news.items():
                o = I.obj(st, oid)
                if o is None:
                    continue
                for name, av_ in o.attrs.items():
                    for (org, t), x in owners(I, st, av_).items():
                        if org.startswith('arg:') and '.' not in org and t != 'any':
                            bad += 1
                            ctx.violation(f'{e.fi.ident}:keeps:{name}:{org}', f'{e.name}: the model created keeps the {t} the caller passed as {org[4:]} (attribute {name})', e.fi.loc(), [])
        ctx.count('result objects traced', nobj)
        ctx.ob(f'{e.name}: results share no storage', 'violated' if bad else 'ok', '' if outs else 'no normal return')


LOSSY = {'builtins.' + x for x in ('sum', 'min', 'max', 'hash', 'any', 'all')} | {'numpy.' + x for x in ('sum', 'min', 'max', 'mean', 'prod', 'any', 'all', 'count_nonzero', 'median')}


class Memos(Rec):
    """results that do not determine their operands are tracked as such: a key made of them identifies nothing"""
    lossy = True

    def ext_call(self, st, node, d, args, kwargs):
        if d in LOSSY and self.world.I.flat(args):
            I = self.world.I
            deps = I.alldeps(st, *I.flat(args), *kwargs.values())
            if any(x.startswith('arg:') for x in deps):
                return AV({S('bool') if d.endswith(('any', 'all')) else U}, frozenset('len:' + x if x.startswith('arg:') else x for x in deps))
        return None


def volatile(deps, key=EMPTY):
    return sorted(d for d in deps if (d.startswith(('arg:', 'len:arg:')) or d == 'globalrng') and d not in key)


def history_independence(ctx):
    ctx.rule = ('Every public operation is interpreted abstractly with data and control dependences attached to values. A store that outlives the call - into a module, a class, a '
                'default value, or a memo of the model - must hold a value that depends on nothing but the model (and, for keyed memos, on what the key depends on); module-level '
                'and default objects are never modified; one memo key is filled by one function only.')
    keys = {}
    nstores = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Memos):
        w.memo = memo_attrs(w, e)
        bad = 0
        for what, loc, fn, stack, deps, node in c.globals:
            nstores += 1
            v = volatile(deps) + sorted(d for d in deps if d.startswith('state:'))
            if v:
                bad += 1
                ctx.violation(f'{fn}:global:{what}', f'{e.name} stores a value that depends on {", ".join(v)} into {what}, which outlives the call', loc, stack)
        for (org, loc, fn, how), (stack, t, node) in c.muts.items():
            if org.startswith(('module:', 'default:')):
                nstores += 1
                bad += 1
                ctx.violation(f'{fn}:{org}:{how}', f'{e.name} modifies the {t} {org} shared by all calls through {how}', loc, stack)
        for orgs, t, how, vdep, kdep, idx, loc, fn, stack in c.writes:
            for org in orgs:
                if not is_memo(w, org) or e.fi.name == '__init__':
                    continue
                nstores += 1
                v = volatile(vdep, kdep)
                if v:
                    bad += 1
                    ctx.violation(f'{fn}:memo:{org}', f'{e.name} memoises under a key that ignores {", ".join(v)} a value that depends on it', loc, stack)
                a = idx.single() if idx is not None else None
                if a is not None and a[0] == 'c' and stack:
                    keys.setdefault((e.short, org, a[2]), {}).setdefault(fn, (loc, stack))
        for o, oid, name, v, deps, loc, fn, stack, node in c.sets:
            if o is None or o.t != 'inst' or 'state:self' not in o.origin or e.fi.name == '__init__':
                continue
            nstores += 1
            if volatile(deps):
                bad += 1
                ctx.violation(f'{fn}:memo:{name}', f'{e.name} memoises in {name} a value that depends on {", ".join(volatile(deps))}', loc, stack)
        if e.fi.kind == 'cached':
            nstores += 1
            for st, v in outs:
                d = volatile(w.I.alldeps(st, v))
                if d:
                    bad += 1
                    ctx.violation(f'{e.fi.ident}:cached', f'{e.name} caches a value that depends on {", ".join(d)}', e.fi.loc(), [])
        ctx.ob(f'{e.name}: no outcome depends on earlier calls', 'violated' if bad else 'ok')
    kept, n = caching.keeping(ctx.repo)
    nstores += n
    for why, loc in kept:
        ctx.violation(f'decorators.cached_property:{why[:20]}', why, loc, [])
    ctx.ob('cached properties keep values per model and property', 'violated' if kept else 'ok' if n else 'unknown')
    for (short, org, key), fns in keys.items():
        if len(fns) > 1:
            loc, stack = sorted(fns.values())[-1]
            ctx.violation(f'{short}:{org}:{key}:shared', f'the memo key {key!r} is filled by different functions: {", ".join(sorted(fns))}', loc, stack)
        ctx.ob(f'memo key {key!r} of {short} has one producer', 'violated' if len(fns) > 1 else 'ok')
    ctx.count('stores outliving a call', nstores)
    ctx.floor('memoised values', sum(1 for e in entries(ctx.repo) if e.fi.kind == 'cached') + len(keys), 20)
