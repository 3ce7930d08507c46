"""Arguments: every option selects its own behaviour, every argument has an influence."""
import ast
import itertools
import re

from sa.interp import Client, Budget, Unreachable
from sa.loader import AnalysisBroken
from sa.values import *
from sa.values import AV
from sa.world import World, entries, run_entry
from .effects import snap

OUTSIDE = ('validation', 'utilities')


def doc_options(fi):
    """documented options of each argument: lists of names that mean the same"""
    d = ast.get_docstring(fi.node) or ''
    out, cur = {}, None
    for line in d.splitlines():
        m = re.match(r'\s*:param\s+(\w+):', line)
        if m:
            cur = m.group(1)
            continue
        if re.match(r'\s*:\w+', line):
            cur = None
        if cur:
            m = re.match(r'\s*-\s+((?:\*\*[\w-]+\*\*(?:\s+or\s+)?)+)', line)
            if m:
                out.setdefault(cur, []).append(re.findall(r'\*\*([\w-]+)\*\*', m.group(1)))
    return {k: v for k, v in out.items() if sum(map(len, v)) > 1}


def params(e):
    fi = e.fi
    ps = list(fi.params)
    if e.ci is not None and fi.kind in ('method', 'property', 'cached'):
        ps = ps[1:]
    return ps + fi.kwonly


def is_flag(fi, p):
    a = next((x.annotation for x in fi.node.args.args + fi.node.args.kwonlyargs if x.arg == p), None)
    d = fi.defaults.get(p)
    return isinstance(a, ast.Name) and a.id == 'bool' or isinstance(d, ast.Constant) and isinstance(d.value, bool)


def is_optional(fi, p):
    d = fi.defaults.get(p)
    return isinstance(d, ast.Constant) and d.value is None


class Trace(Client):
    """what a run does: the calls it makes (with constants), what its effects depend on, variables read before assignment"""
    loopdep = True

    def __init__(self):
        self.deps = set()
        self.events = set()
        self.missing = {}
        self.open = set()       # arguments that alone make up an undecided condition

    def undetermined(self, st, deps):
        if deps and len({x.split('arg:')[-1] for x in deps}) == 1:
            self.open |= deps

    def consts(self, v):
        return frozenset(a[1:] for a in v.atoms if a[0] == 'c')

    def binop(self, st, node, op, left, right):
        self.event(node, (self.where(node), type(op).__name__, self.consts(left), self.consts(right)))

    def numbers(self, v):
        return frozenset(a[1:] for a in v.atoms if a[0] == 'c' and a[1] in ('int', 'float'))

    def compare(self, st, node, op, left, right):
        self.event(node, (self.where(node), type(op).__name__, self.numbers(left), self.numbers(right)))
        return None

    def call_repo(self, st, node, fi, args, kwargs, selfatom):
        I = self.world.I
        self.event(node, (self.where(node), fi.ident, tuple(map(self.numbers, I.flat(args))), tuple((k, self.numbers(v)) for k, v in sorted(kwargs.items()))))
        return None

    def index(self, st, node, oid, idx):
        self.event(node, (self.where(node), 'index', frozenset(x for x in self.consts(idx) if x[0] != 'str')))

    def mutate(self, st, node, oid, how, certain):
        self.event(node, (self.where(node), how, self.consts(self.mutinfo[0])))

    def where(self, node):
        f = next((x.fi for x in reversed(self.world.I.frames) if x.fi is not None), None)
        return f.ident if f else '?', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)

    refusals = frozenset()

    def event(self, node, ev):
        if self.world.I.fr.module.name not in OUTSIDE and id(node) not in self.refusals:
            self.events.add(ev)

    def effect(self, st, args, kwargs):
        I = self.world.I
        self.deps |= I.alldeps(st, *I.flat(args), *kwargs.values()) | st.ctrl

    def note(self, node, what, args, kwargs):
        I = self.world.I
        cs = tuple(frozenset(a[1:] for a in x.atoms if a[0] == 'c') for x in I.flat(args)) + tuple((k, frozenset(a[1:] for a in v.atoms if a[0] == 'c')) for k, v in sorted(kwargs.items()))
        self.event(node, (self.where(node), what, repr(cs)))

    def ext_call(self, st, node, d, args, kwargs):
        if self.world.I.fr.module.name not in OUTSIDE:
            self.note(node, d, args, kwargs)
            if d.startswith(('matplotlib', 'json', 'csv', 'xml', '<unknown>', 'networkx.draw', 'PIL', 'io')):
                self.effect(st, args, kwargs)
        return None

    def method(self, st, node, oid, name, args, kwargs):
        I = self.world.I
        o = I.obj(st, oid)
        if I.fr.module.name not in OUTSIDE:
            if not (o is not None and o.t == 'dict'):
                self.note(node, name, args, kwargs)
            if o is not None and o.t in ('any', 'file'):
                self.effect(st, args, kwargs)
        return None

    def unbound(self, st, node, name, definite):
        if definite:
            self.missing[(name,) + self.where(node)[:2]] = node


def result_deps(w, c, outs):
    I = w.I
    d = set(c.deps)
    for st, v in outs:
        d |= I.alldeps(st, v) | st.ctrl
        for oid in I.reachable(st, v):
            o = I.obj(st, oid)
            if o is not None:
                d |= o.dep | o.elem.dep
                for x in list(o.items or ()) + list(o.attrs.values()):
                    d |= x.dep
    return d


def influences(d, p):
    return any(x in ('arg:' + p, 'len:arg:' + p) or x.startswith(('arg:' + p + '.', 'len:arg:' + p + '.')) for x in d)


KINDS = ('a Markov chain', 'a hidden Markov model')


def fixed(choice):
    def arg(w, fi, q):
        v = w.rich(q)
        if q not in choice:
            return v
        what = choice[q]
        if what in KINDS:
            want = 'MarkovChain' if what == KINDS[0] else 'HiddenMarkovModel'
            def kind(a):
                o = w.I.obj(w.st, a[1]) if a[0] == 'o' else None
                return o is not None and o.t == 'inst' and o.cls is not None and o.cls.name == want
            return AV(frozenset(a for a in v.atoms if kind(a)), v.dep)
        return AV(avc(what).atoms, v.dep)
    return arg


def takes_model(e, p):
    return e.ci is None and p == 'model'


def choices(e, ps):
    opts = doc_options(e.fi)
    out = []
    for p in ps:
        if p in opts:
            out.append((p, [o for g in opts[p] for o in g]))
        elif is_flag(e.fi, p):
            out.append((p, [True, False]))
        elif is_optional(e.fi, p):
            out.append((p, [None]))
        elif takes_model(e, p):
            out.append((p, list(KINDS)))
    return out


def describe(choice):
    return ', '.join(f'{p} is {v}' if v in KINDS else f'{p}={v!r}' for p, v in choice.items())


def refusals(ctx):
    """the parts of conditions that only decide whether to raise an exception"""
    if not hasattr(ctx, '_refusals'):
        ctx._refusals = frozenset(id(n) for m in ctx.repo.modules.values() for s in ast.walk(m.tree) if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Raise)
                                  for n in ast.walk(s.test))
    return ctx._refusals


def run(ctx, e, arg=None):
    c = Trace()
    c.refusals = refusals(ctx)
    try:
        w, outs, raised = run_entry(ctx.repo, c, e, arg=arg, max_steps=2_000_000)
    except (Budget, RecursionError) as ex:
        ctx.ob(e.name, 'unknown', f'{type(ex).__name__}: {ex}')
        return None
    ctx.count('statements visited', len(w.I.visited))
    ctx.count('abstract steps', w.I.steps)
    ctx.count('runs')
    c.sig = frozenset((s.lineno, s.col_offset, type(s).__name__, id(s)) for s in w.I.visited if not isinstance(s, ast.Raise)), frozenset(c.events)
    c.res = frozenset(sig_value(w, st, v) for st, v in outs)
    return c, w, outs, raised


def sig_value(w, st, v, depth=3):
    out = []
    for a in v.atoms:
        o = w.I.obj(st, a[1]) if a[0] == 'o' else None
        if o is None:
            out.append(repr(a))
        else:
            out.append((o.t, repr(o.shape), frozenset(sig_value(w, st, x, depth - 1) for x in (o.items or (o.elem,))) if depth else None))
    return frozenset(out)


# what a method of approximation does not need
UNUSED = {('approximation', 'approximation_type', 'adda-cooper'): {'k'}, ('approximation', 'approximation_type', 'rouwenhorst'): {'alpha', 'sigma', 'k'},
          ('approximation', 'approximation_type', 'tauchen'): {'alpha'}}


def operations(ctx):
    for e in entries(ctx.repo):
        ps = params(e)
        if ps and e.fi.kind != 'cached' and not e.fi.name.startswith('__'):
            yield e, ps


def options(ctx):
    ctx.rule = ('For each argument with documented options, and each boolean argument, the operation is interpreted abstractly once per option with that argument constant and the others arbitrary. '
                'A documented option must reach a normal return and read no variable that it leaves unassigned; any other value must reach none; and two options that are not documented as '
                'synonyms must differ in the statements executed, the constants that reach an operation or the values returned.')
    n = 0
    for e, ps in operations(ctx):
        opts = doc_options(e.fi)
        for p in ps:
            groups = opts.get(p)
            if groups is None and not is_flag(e.fi, p):
                continue
            n += 1
            vals = [(o, i) for i, g in enumerate(groups) for o in g] if groups else [(True, 0), (False, 1)]
            seen = []
            for v, g in vals:
                nm = f'{e.name}({p}={v!r})'
                r = run(ctx, e, fixed({p: v}))
                if r is None:
                    continue
                c, w, outs, raised = r
                bad = []
                if not outs:
                    bad.append(('refused', f'{nm} never returns: the option is documented but always refused'))
                for (name, fn, line), node in sorted(c.missing.items(), key=str):
                    bad.append((f'unassigned:{name}', f'{nm} reads the variable {name} in {fn}, line {line}, which was never assigned'))
                for v2, g2, c2 in seen:
                    if g2 != g and outs and 'arg:' + p not in c.open | c2.open and (c2.sig, c2.res) == (c.sig, c.res):
                        bad.append((f'same:{v2}', f'{nm} does the same as {p}={v2!r}'))
                for k, m in bad:
                    ctx.violation(f'{e.fi.ident}:{p}:{v}:{k}', m, e.fi.loc())
                ctx.ob(nm, 'violated' if bad else 'ok' if outs else 'unknown')
                if outs:
                    seen.append((v, g, c))
            if groups:
                r = run(ctx, e, fixed({p: 'no such option'}))
                if r is not None:
                    c, w, outs, raised = r
                    st = 'ok' if not outs else 'unknown' if 'arg:' + p in c.open else 'violated'
                    if st == 'violated':
                        ctx.violation(f'{e.fi.ident}:{p}:any', f'{e.name} accepts a {p} that is none of the documented options', e.fi.loc())
                    ctx.ob(f'{e.name} refuses an undocumented {p}', st)
    ctx.floor('arguments with options', n, 25)


def influence(ctx):
    ctx.rule = ('Dependence analysis (data and control, through calls, containers and loops): what an operation returns, draws or writes must depend on each of its arguments, in general and with '
                'every other enumerated argument fixed to each documented option, every boolean one to each value and every optional one to None. The parameters that a method of approximation does '
                'not need are excepted.')
    n = 0
    for e, ps in operations(ctx):
        ch = choices(e, ps)
        cases = [{}] + [{p: v} for p, vs in ch for v in vs]
        for (p, vs), (q, ws) in itertools.combinations(ch, 2):
            if ctx.tier == 'thorough' or takes_model(e, p):
                cases += [{p: v, q: x} for v in vs for x in ws]
        done = []
        for choice in cases:
            r = run(ctx, e, fixed(choice))
            if r is None:
                continue
            c, w, outs, raised = r
            d = result_deps(w, c, outs)
            for q in ps:
                if q in choice or any(q in UNUSED.get((e.fi.name, p, v), ()) for p, v in choice.items()):
                    continue
                n += 1
                ok = influences(d, q)
                if not ok and outs and not any(q == q2 and ch2.items() <= choice.items() for q2, ch2 in done):
                    done.append((q, choice))
                    what = describe(choice)
                    ctx.violation(f'{e.fi.ident}:{q}:{what}', f'{e.name} ignores its argument {q}' + (f' if {what}' if what else ''), e.fi.loc())
                ctx.ob(f'{e.name}: {q}' + (f' with {describe(choice)}' if choice else ''), 'ok' if ok else 'unknown' if not outs else 'violated')
    ctx.floor('influences of arguments', n, 300)
