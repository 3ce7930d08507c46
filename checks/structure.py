"""Structural answers: exact functions of the zero pattern of the transition matrix."""
import ast

from sa.interp import Client
from sa.loader import AnalysisBroken
from sa.values import *
from sa.values import AV
from sa.world import World, entries, run_entry
from .effects import sweep, snap

PATTERN = {'accessibility_matrix', 'adjacency_matrix', 'communicating_classes', 'communication_matrix', 'cyclic_classes', 'cyclic_states', 'density', 'incidence_matrix', 'is_aperiodic',
           'is_canonical', 'is_ergodic', 'is_irreducible', 'is_regular', 'period', 'periods', 'recurrent_classes', 'recurrent_states', 'topological_entropy', 'transient_classes', 'transient_states',
           'are_communicating', 'is_accessible', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state'}
SHAPE = ('shape', 'size', 'ndim', 'dtype')
SHAPES = {'numpy.' + x for x in ('zeros_like', 'ones_like', 'empty_like', 'shape', 'size', 'ndim')} | {'builtins.len'}
# what these make zero of is more than zero
COARSE = {'numpy.' + x for x in ('round', 'around', 'floor', 'rint', 'trunc', 'fix', 'float32', 'float16')} | {'builtins.round', 'builtins.int'}
NONZERO = {'numpy.' + x for x in ('ceil', 'count_nonzero', 'nonzero', 'flatnonzero', 'argwhere', 'any', 'all', 'sign', 'logical_not')} | {'builtins.bool'}


def is_zero(v):
    return bool(v.atoms) and all(a[0] == 'c' and a[1] in ('int', 'float') and a[2] == 0 for a in v.atoms)


class Pattern(Client):
    """comparisons with exactly zero, and questions about the shape, forget the probabilities"""
    raw = EMPTY
    free = SHAPE

    def __init__(self):
        self.powers = {}
        self.tests = {}

    def strip(self, st, r):
        I = self.world.I
        for o in r.oids():
            ob = I.obj(st, o)
            if ob is not None and not ob.origin:
                it = None if ob.items is None else tuple(AV(x.atoms, x.dep - self.raw) for x in ob.items)
                st.heap[o] = ob.replace(dep=ob.dep - self.raw, elem=AV(ob.elem.atoms, ob.elem.dep - self.raw), items=it)
        return AV(r.atoms, r.dep - self.raw)

    def blur(self, st, r):
        """the numbers are no longer zero for the same entries only"""
        for oid in r.oids():
            ob = self.world.I.obj(st, oid)
            if ob is not None and not ob.origin:
                st.heap[oid] = ob.replace(dep=ob.dep | {'blur'}, elem=ob.elem.withdep({'blur'}))
        return r.withdep(frozenset({'blur'}))

    def binop(self, st, node, op, left, right):
        I = self.world.I
        if isinstance(op, (ast.Sub, ast.FloorDiv)):
            for a, b in ((left, right), (right, left)):
                c = b.single()
                if c is not None and c[0] == 'c' and type(c[2]) in (int, float) and c[2] != 0 and I.alldeps(st, a) & self.raw:
                    return frozenset({'blur'})
        return None

    def here(self, node):
        I = self.world.I
        f = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        return I.loc(node), f.ident if f else '?'

    def compare(self, st, node, op, left, right):
        I = self.world.I
        for a, b in ((left, right), (right, left)):
            if is_zero(b):
                for oid in a.oids():
                    o = I.obj(st, oid)
                    for f in o.facts if o is not None else ():
                        if isinstance(f, tuple) and f[0] == 'power':
                            self.tests.setdefault(self.here(node) + (f[1],), node)
                return self.strip(st, I.models.compare(I, st, node, op, left, right))
        return None

    def after_ext(self, st, node, d, args, kwargs, r):
        I = self.world.I
        fl = I.flat(args)
        if d in COARSE and fl and I.alldeps(st, fl[0]) & self.raw:
            return self.blur(st, r)
        if d == 'numpy.linalg.matrix_power' and fl:
            kinds = set()
            for oid in fl[0].oids():
                o = I.obj(st, oid)
                if o is not None and o.t == 'ndarray':
                    kinds |= {a[1] if a[0] in ('s', 'c', 'iv') else '?' for a in o.elem.atoms}
            k = kinds.pop() if len(kinds) == 1 else '?'
            self.powers.setdefault(self.here(node) + (k,), set()).add(fl[1] if len(fl) > 1 else kwargs.get('n', AVU))
            if k in ('int', 'float'):
                for oid in r.oids():
                    o = I.obj(st, oid)
                    st.heap[oid] = o.replace(facts=o.facts | {('power', k)})

    def numeric(self, st, v):
        I = self.world.I
        os = [I.obj(st, o) for o in v.oids()]
        return bool(os) and all(o is not None and o.t == 'ndarray' and o.elem.atoms and all(a[0] in ('s', 'c', 'iv') and a[1] == 'float' for a in o.elem.atoms) for o in os)

    def ext_call(self, st, node, d, args, kwargs):
        I = self.world.I
        if d in SHAPES or d in NONZERO:
            fl = I.flat(args)
            if fl and (d in SHAPES or len(fl) == 1 and self.numeric(st, fl[0])):
                r = I.models.builtin(I, st, node, d[9:], args, kwargs) if d.startswith('builtins.') else I.models.ext_call(I, st, node, d, args, kwargs)
                return self.strip(st, r) if isinstance(r, AV) else r
        return None

    def method(self, st, node, oid, name, args, kwargs):
        I = self.world.I
        fl = I.flat(args)
        if name in ('any', 'all', 'nonzero') and self.numeric(st, AV({('o', oid)})) or name == 'astype' and fl and ('b', 'bool') in fl[0].atoms:
            r = I.models.method(I, st, node, oid, name, args, kwargs)
            return self.strip(st, r) if isinstance(r, AV) else r
        t = fl[0].single() if name == 'astype' and fl else None
        if name == 'round' or t is not None and (t in (('b', 'int'), ('ext', 'numpy.float32'), ('ext', 'numpy.float16')) or t[0] == 'c' and t[2] in ('int', 'float32', 'float16', 'f4', 'f2')):
            if I.alldeps(st, AV({('o', oid)})) & self.raw:
                r = I.models.method(I, st, node, oid, name, args, kwargs)
                return self.blur(st, r) if isinstance(r, AV) else r
        return None

    def getattr(self, st, node, atom, name):
        I = self.world.I
        if name in SHAPE and atom[0] == 'o':
            o = I.obj(st, atom[1])
            if o is not None and o.t == 'ndarray':
                self.getattr = lambda *a: None
                try:
                    r = I.getattr_atom(node, atom, name, st)
                finally:
                    del self.getattr
                return [(s, self.strip(s, v)) for s, v in r]
        return None


class Sized(Pattern):
    """the model has a given number of states, and a given number of them have a loop"""
    loops = 0

    def ext_call(self, st, node, d, args, kwargs):
        fl = self.world.I.flat(args)
        if d == 'numpy.count_nonzero' and len(fl) == 1 and self.numeric(st, fl[0]):
            return avc(self.loops)
        return Pattern.ext_call(self, st, node, d, args, kwargs)


def raw_deps(repo):
    out = set()
    for mod, cname in (('markov_chain', 'MarkovChain'), ('hidden_markov_model', 'HiddenMarkovModel')):
        w = World(repo, Client())
        inst = w.model(repo.cls(mod, cname), 'self', 'state:')
        o = w.I.obj(w.st, inst.oids()[0])
        for name, v in o.attrs.items():
            for oid in v.oids():
                x = w.I.obj(w.st, oid)
                if x is not None and x.t == 'ndarray':
                    out.add(f'state:{name}')
    return frozenset(out)


class Edges(Client):
    def __init__(self):
        self.added = 0

    def method(self, st, node, oid, name, args, kwargs):
        o = self.world.I.obj(st, oid)
        if o is not None and o.t == 'graph' and name == 'add_edge':
            self.added += 1
        elif o is not None and o.t == 'graph' and name in ('add_edges_from', 'add_weighted_edges_from'):
            os = [self.world.I.obj(st, x) for a in self.world.I.flat(args)[:1] for x in a.oids()]
            if any(x is None or x.elem.atoms or x.items for x in os):
                self.added += 1
        return None

    def compare(self, st, node, op, left, right):
        I = self.world.I
        r = I.models.compare(I, st, node, op, left, right)
        ls, rs = left.oids(), right.consts()
        if len(ls) == 1 and rs is not None and len(r.oids()) == 1:
            o = I.obj(st, ls[0])
            if o is not None and o.t == 'ndarray' and AV(o.elem.atoms).consts() is not None:
                f = I.models.compare(I, st, node, op, AV(o.elem.atoms), right)
                ro = r.oids()[0]
                st.heap[ro] = I.obj(st, ro).replace(elem=AV(f.atoms, I.obj(st, ro).elem.dep))
        return r

    def ext_call(self, st, node, d, args, kwargs):
        I = self.world.I
        fl = I.flat(args)
        if d in ('numpy.argwhere', 'numpy.flatnonzero', 'numpy.nonzero', 'numpy.where') and len(fl) == 1 and not kwargs:
            os = [I.obj(st, o) for o in fl[0].oids()]
            if os and all(o is not None and o.elem.atoms and all(a[0] == 'c' and not a[2] for a in o.elem.atoms) for o in os):
                e = I.new(st, node, 'none', 'list', items=(), shape=(0,))
                return I.new(st, node, 'nones', 'tuple', items=(e, e), shape=(2,)) if d in ('numpy.nonzero', 'numpy.where') else e
        return None


def structure(ctx):
    ctx.rule = ('Dataflow: in every structural answer the probabilities may only be compared with exactly zero (anything else they flow through stays visible in the dependences of the result), '
                'a matrix power that is compared with zero must be taken on truth values, and its exponent must reach the known bound for every number of states tried. '
                'The graph behind the classes must get an edge for each positive probability, however small, and for no other.')
    raw = raw_deps(ctx.repo)
    if not raw:
        raise AnalysisBroken('no model attribute holds the probabilities')
    Pattern.raw = raw
    n = npow = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Pattern, only=lambda e: e.short == 'mc' and e.fi.name in PATTERN):
        n += 1
        bad = unk = 0
        d = EMPTY
        for st, v in outs:
            d |= w.I.alldeps(st, v)
        if 'blur' in d:
            bad += 1
            ctx.violation(f'{e.fi.ident}:coarse', f'{e.name} takes small transition probabilities for zero: they are rounded, shortened or shifted before they are compared with zero', e.fi.loc())
        elif d & raw:
            bad += 1
            ctx.violation(f'{e.fi.ident}:raw', f'{e.name} depends on the size of the transition probabilities, not only on which of them are zero', e.fi.loc())
        for (loc, fn, k), ns in c.powers.items():
            npow += 1
            unk += k == '?'
        for loc, fn, k in c.tests:
            bad += 1
            ctx.violation(f'{fn}:power:{k}', f'{e.name} compares a power of a matrix of {k}s with zero: {"overflow" if k == "int" else "underflow and rounding"} changes the answer for larger chains', loc, [e.fi.ident, fn])
        ctx.ob(f'{e.name} depends on the zero pattern only', 'violated' if bad else 'unknown' if unk else 'ok')
    ctx.floor('structural answers analysed', n, 20)
    # exponents
    sizes = range(2, 7 if ctx.tier == 'quick' else 11)
    ci = ctx.repo.cls('markov_chain', 'MarkovChain')
    for e in entries(ctx.repo):
        if e.ci is not ci or e.fi.name not in ('is_regular', 'accessibility_matrix'):
            continue
        for size in list(sizes) + [40, 200, 1500]:
            for loops in (0,) if e.fi.name != 'is_regular' else range(size + 1) if size in sizes else (0, 1, size // 2, size):
                Sized.loops = loops
                c = Sized()
                sv = World.model
                World.model = lambda self, cl, tag, origin, sp=None: sv(self, cl, tag, origin, (size, size))
                try:
                    w, outs, raised = run_entry(ctx.repo, c, e, prepare=None)
                finally:
                    World.model = sv
                need = size - 1 if e.fi.name == 'accessibility_matrix' else 2 * size - loops - 1 if loops else (size - 1) ** 2 + 1
                st = 'unknown'
                for (loc, fn, k), ns in c.powers.items():
                    for v in ns:
                        cs = v.consts()
                        if cs is None:
                            continue
                        st = 'ok'
                        if any(x < need for x in cs):
                            st = 'violated'
                            ctx.violation(f'{fn}:exponent', f'{e.name} raises the matrix to the power {min(cs)} for {size} states' + (f' of which {loops} have a loop' if e.fi.name == 'is_regular' else '')
                                          + f': some chain needs {need}', loc, [e.fi.ident, fn])
                ctx.ob(f'exponent of {e.name} for {size} states, {loops} loops', st)
    # edges of the graph
    for mod, cname, what in (('markov_chain', 'MarkovChain', 'p'), ('hidden_markov_model', 'HiddenMarkovModel', 'p'), ('hidden_markov_model', 'HiddenMarkovModel', 'e')):
        seen = False
        for val in (0.5, 0.0, 1e-300):
            c = Edges()
            w = World(ctx.repo, c)
            c.world = w
            w.keep_client = True
            w.elem = {k: avc(val if k == what else 0.0) for k in 'pe'}
            w.model(ctx.repo.cls(mod, cname), 'self', 'state:')
            seen |= bool(c.added)
            bad = seen and bool(c.added) != (val > 0)
            if bad:
                ctx.violation(f'{mod}:graph:{what}', f'the graph of a {cname} gets {"an" if c.added else "no"} edge for an entry {val} of {what}', ctx.repo.cls(mod, cname).members['__init__'].loc())
            ctx.ob(f'edges of {cname} for {what} = {val}', 'violated' if bad else 'ok' if seen else 'unknown')
    ctx.count('matrix powers', npow)
