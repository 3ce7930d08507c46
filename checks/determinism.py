"""Randomness and iteration order: where nondeterminism can enter a result."""
import ast

from sa.interp import Client
from sa.values import *
from sa.values import AV
from sa.world import entries
from .effects import sweep, snap

# external calls whose result differs between runs or processes
NONDET = ('time.', 'datetime.', 'uuid.', 'secrets.', 'random.', 'os.urandom', 'os.getpid', 'builtins.id', 'builtins.hash', 'numpy.random.', 'os.environ', 'os.getenv', 'tempfile.')
SEEDED_CTORS = {'numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.PCG64', 'numpy.random.MT19937', 'numpy.random.SeedSequence', 'random.Random',
                'numpy.random.mtrand.RandomState'}
LAYOUTS = {'networkx.spring_layout', 'networkx.random_layout', 'networkx.fruchterman_reingold_layout', 'networkx.drawing.layout.spring_layout'}
RNG_PASSIVE = {'get_state', 'bit_generator', 'spawn'}


class Draws(Client):
    def __init__(self):
        self.draws = {}
        self.nrng = 0

    def where(self, node):
        I = self.world.I
        f = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        return I.loc(node), (f.ident if f else '?'), tuple(x.fi.ident for x in I.frames if x.fi is not None)

    def note(self, node, what, kind, deps=EMPTY):
        self.draws.setdefault((what, kind) + self.where(node), frozenset(deps))

    def ext_call(self, st, node, d, args, kwargs):
        I = self.world.I
        fl = I.flat(args)
        if d in SEEDED_CTORS:
            self.nrng += 1
            deps = I.alldeps(st, *fl, *kwargs.values())
            vals = fl + list(kwargs.values())
            if not vals or all(v.atoms == {NONE} for v in vals):
                self.note(node, d, 'unseeded')
            elif 'arg:seed' not in deps and not all(a[0] == 'c' for v in vals for a in v.atoms) and 'globalrng' in deps:
                self.note(node, d, 'unseeded', deps)
            return None
        if d in LAYOUTS:
            v = kwargs.get('seed')
            if v is None or NONE in v.atoms:
                self.note(node, d, 'unseeded')
            return None
        if d.startswith('numpy.random.mtrand._rand') or d.startswith('numpy.random.') or d.endswith('.rvs'):
            if d.endswith('.rvs') and ('random_state' in kwargs and NONE not in kwargs['random_state'].atoms):
                return None
            self.note(node, d, 'global')
            if d.rsplit('.', 1)[-1] in ('seed', 'set_state'):
                self.note(node, d, 'reseeds')
            return None
        if d.startswith(NONDET):
            if d == 'builtins.hash' and any(f.fi is not None and f.fi.name == '__hash__' for f in I.frames):
                return None
            self.note(node, d, 'ambient')
        return None

    def method(self, st, node, oid, name, args, kwargs):
        o = self.world.I.obj(st, oid)
        if o is not None and o.t == 'rng' and name not in RNG_PASSIVE:
            self.nrng += 1
            if any(x.startswith(('module:', 'default:', 'state:')) for x in o.origin):
                self.note(node, f'{name} on {sorted(o.origin)}', 'shared')
        return None


    def call_object(self, st, node, oid):
        o = self.world.I.obj(st, oid)
        for x in sorted(o.origin) if o is not None else []:
            if x.startswith('arg:') and '.' not in x:
                self.note(node, x[4:], 'caller')


def seed_arg(w, fi, p):
    if p == 'seed':
        return AV({C(0), S('int')}, frozenset({'arg:seed'}))
    return w.rich(p)


def reproducible(ctx):
    ctx.rule = ('Every public operation is interpreted abstractly; operations with a seed run with the seed bound to 0 and to an unknown integer. Reaching a draw from the process-wide '
                'generator, an unseeded generator or layout, a generator that outlives the call, a function the caller passed, a reseeding of the global generator, or an ambient source (clock, id, string hash, '
                'environment) is a violation; the generator seeded from the argument is the only source allowed.')
    nseed = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Draws, arg=seed_arg):
        has = 'seed' in e.fi.params + e.fi.kwonly
        nseed += has
        bad = 0
        for (what, kind, loc, fn, stack), deps in c.draws.items():
            if kind == 'caller' and not has:
                continue # what a function of the caller returns is the caller's business, unless a seed promises to control it
            bad += 1
            how = {'global': 'draws from the process-wide random state', 'unseeded': 'creates a randomly initialised generator', 'ambient': 'reads an ambient source',
                   'shared': 'draws from a generator that outlives the call', 'reseeds': 'reseeds the process-wide random state',
                   'caller': 'draws from a function that its caller passes, which the seed does not control'}[kind]
            tail = 'although an integer seed was given' if has else 'although it takes no seed'
            ctx.violation(f'{fn}:{kind}:{what}', f'{e.name} {how} ({what}) {tail}', loc, stack)
        ctx.count('seeded generator uses', c.nrng)
        ctx.ob(f'{e.name}: {"all draws come from the seeded generator" if has else "no random draw"}', 'violated' if bad else 'ok')
    ctx.floor('operations with a seed', nseed, 10)
    ctx.floor('uses of seeded generators seen', ctx.stats.get('seeded generator uses', 0), 20)
    # the rule must see the global draws it forbids: with seed=None they are reached
    seen = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Draws, only=lambda e: e.name in ('mc.random', 'mc.simulate', 'mc.next'), arg=lambda w, fi, p: av(NONE) if p == 'seed' else w.rich(p)):
        seen += any(k[1] == 'global' for k in c.draws)
    ctx.floor('positive controls: global draws seen without a seed', seen, 2)


class Order(Client):
    def __init__(self):
        self.ev = {}
        self.loops = {}

    def where(self, node):
        I = self.world.I
        f = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        return I.loc(node), (f.ident if f else '?'), tuple(x.fi.ident for x in I.frames if x.fi is not None)


def hashed(I, st, oid):
    """do the elements have a hash that changes between processes (strings), definitely for some input?"""
    e = I.elem_of(st, oid)
    return any(kindof(a) == 'str' for a in e.atoms)


def kindof(a):
    return a[1] if a[0] in ('c', 's') else None


class OrderClient(Order):
    def ext_call(self, st, node, d, args, kwargs):
        # starts from any of the nodes that were not reached so far, which it keeps in a set; for graphs that are not strongly connected its answer depends on the one it starts from
        if d == 'networkx.is_aperiodic':
            self.searches = getattr(self, 'searches', []) + [self.where(node)]
        return None

    def unordered_iter(self, st, node, oid, ctx):
        I = self.world.I
        self.n = getattr(self, 'n', 0) + 1
        if not hashed(I, st, oid):
            return
        if isinstance(ctx, ast.For):
            body = {id(x) for b in ctx.body for x in ast.walk(b)}
            self.loops[id(ctx)] = body
            for b in ctx.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Return) and x.value is not None and enclosing_loop(x, ctx):
                        tg = {t.id for t in ast.walk(ctx.target) if isinstance(t, ast.Name)}
                        val = x.value.elts if isinstance(x.value, ast.Tuple) else [x.value]
                        if any(isinstance(v, ast.Name) and v.id in tg for v in val):
                            self.ev.setdefault(('returns the first match in the order of a set of strings',) + self.where(x), 0)

    def mutate(self, st, node, oid, how, certain):
        I = self.world.I
        if how in ('append', 'extend', 'insert', 'appendleft', 'setitem') and self.loops:
            o = I.obj(st, oid)
            if o is None:
                return
            k = I._idnames[oid]
            for body in self.loops.values():
                if id(node) in body and (len(k) < 2 or k[1] not in body):
                    if o.t in ('list', 'dict') and certain:
                        if how == 'setitem' and o.t != 'dict':
                            continue
                        if how == 'setitem' and o.t == 'dict':
                            continue
                        st.heap[oid] = o.replace(facts=o.facts | {'ordertaint'})


def enclosing_loop(x, loop):
    p = getattr(x, '_parent', None)
    while p is not None and p is not loop:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            return False
        if isinstance(p, (ast.For, ast.While)) and isinstance(x, ast.Break):
            return False
        p = getattr(p, '_parent', None)
    return p is loop


def order_free(ctx):
    ctx.rule = ('Sets (and what is listed, joined or appended from them without sorting) are tracked through an abstract interpretation of every public operation. A result, or a '
                'value written to a file or figure, that carries the iteration order of a set of strings is a violation: that order changes with the hash seed of the process.')
    niter = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=OrderClient):
        I = w.I
        bad = 0
        for loc, fn, stack in getattr(c, 'searches', [])[:1]:
            ctx.violation('networkx.is_aperiodic', f'{e.name} uses networkx.is_aperiodic, whose answer depends on the order of a set of labels if the graph is not strongly connected', loc, stack)
        for (what, loc, fn, stack) in c.ev:
            bad += 1
            ctx.violation(f'{fn}:{what[:30]}', f'{e.name} {what}', loc, stack)
        for st, v in outs:
            for a in v.atoms:
                if a[0] == 's' and a[1] == 'str' and a[2] == 'ordertaint':
                    bad += 1
                    ctx.violation(f'{e.fi.ident}:result', f'{e.name} returns a string joined in the order of a set of strings', e.fi.loc())
            roots = [v]
            for x in I.reachable(st, v):
                o = I.obj(st, x)
                if o is not None and o.t == 'inst' and not o.origin:
                    roots += [a for k, a in o.attrs.items()]
            if e.fi.name == '__init__':
                for x in w.vals['self'].oids():
                    roots += list(I.obj(st, x).attrs.values())
            for r in roots:
                for x in I.reachable(st, r):
                    o = I.obj(st, x)
                    if o is not None and o.t in ('list', 'tuple', 'ndarray', 'dict') and any(a[:2] == ('s', 'str') and a[2] == 'ordertaint' for i in (o.items or ()) + (o.elem,) for a in i.atoms):
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:element', f'{e.name} returns a label picked by its position in a set of strings (in the {o.t} built at {o.loc})', o.loc)
                    if o is not None and o.t in ('list', 'tuple', 'ndarray', 'iter') and 'ordertaint' in o.facts and 'sorted' not in o.facts:
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:result:{o.loc.split(":")[0]}', f'{e.name} returns a {o.t} in the order of a set of strings (built at {o.loc})', o.loc)
        niter += getattr(c, 'n', 0)
        ctx.ob(f'{e.name}: result independent of set order', 'violated' if bad else 'ok')
    ctx.count('iterations over sets seen', niter)
    ctx.floor('iterations over sets seen', niter, 3)
