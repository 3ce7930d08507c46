"""Equality and hashing of models."""
import ast
import math

from sa.interp import Client
from sa.loader import AnalysisBroken
from sa.values import *
from sa.values import AV
from sa.world import World, entries, run_entry, MODEL_CLASSES
from .effects import snap

FUZZY = {'numpy.allclose', 'numpy.isclose', 'math.isclose', 'builtins.round', 'numpy.round', 'numpy.around', 'numpy.testing.assert_allclose', 'numpy.rint', 'numpy.floor', 'numpy.trunc'}
BYTES_M = {'tobytes', 'tostring', 'dumps', 'tofile', '__repr__', '__str__'}
BYTES_F = {'builtins.bytes', 'builtins.bytearray', 'builtins.memoryview', 'builtins.repr', 'builtins.str', 'pickle.dumps', 'numpy.array2string', 'numpy.array_repr', 'numpy.array_str',
           'builtins.ascii', 'json.dumps'}
IDENTITY = {'builtins.id', 'object.__hash__'}
UNHASHABLE = ('list', 'dict', 'set', 'ndarray')


def ndeps(d, prefix):
    return {x[len(prefix):] for x in d if x.startswith(prefix)}


class Eq(Client):
    def __init__(self):
        self.fuzzy, self.crossed, self.unsized, self.compared, self.raw, self.ident, self.unhash = [], [], [], 0, [], [], []
        self.how = {}

    def here(self, node):
        I = self.world.I
        f = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        return I.loc(node), f.ident if f else '?'

    def pair(self, st, node, a, b):
        I = self.world.I
        da, db = I.alldeps(st, a) - st.ctrl, I.alldeps(st, b) - st.ctrl
        for x, y in ((da, db), (db, da)):
            s, o = ndeps(x, 'state:'), ndeps(y, 'arg:other.')
            if s and o and not ndeps(x, 'arg:other.') and not ndeps(y, 'state:'):
                self.compared += 1
                lossy = all(self.lossy(st, v) for v in (a, b))
                for k in s & o:
                    self.how[k] = self.how.get(k, True) and lossy
                if not s & o:
                    self.crossed.append(self.here(node) + (sorted(s)[0], sorted(o)[0]))

    def lossy(self, st, v):
        """a count, or a collection that has lost its order"""
        for a in v.atoms:
            o = self.world.I.obj(st, a[1]) if a[0] == 'o' else None
            if not (a[0] in ('s', 'c', 'iv') and a[1] == 'int' or a[0] == 's' and str(a[2]).startswith('len') or o is not None and (o.t in ('set', 'frozenset') or 'sorted' in o.facts)):
                return False
        return bool(v.atoms)

    def negzero(self, st, v):
        I = self.world.I
        for oid in v.oids():
            o = I.obj(st, oid)
            if o is not None and o.t == 'ndarray':
                cs = AV(I.elem_of(st, oid).atoms).consts()
                if cs and all(isinstance(c, float) and c == 0.0 and math.copysign(1.0, c) < 0 for c in cs):
                    return True
        return False

    def compare(self, st, node, op, left, right):
        I = self.world.I
        self.pair(st, node, left, right)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            for x, y in ((left, right), (right, left)):
                cs = y.consts()
                d = I.alldeps(st, x)
                if cs and all(isinstance(v, float) and v != 0.0 for v in cs) and ndeps(d, 'state:') and ndeps(d, 'arg:other.'):
                    self.fuzzy.append(self.here(node) + ('tolerance',))
        nd = [[I.obj(st, o) for o in v.oids()] for v in (left, right)]
        if all(x and all(o is not None and o.t == 'ndarray' for o in x) for x in nd):
            # element by element: the sizes must have been compared before
            c = st.ctrl
            if not (ndeps(c, 'state:') - {'self'} and ndeps(c, 'arg:other.') - {'self'}):
                self.unsized.append(self.here(node))
        return None

    def ext_call(self, st, node, d, args, kwargs):
        I = self.world.I
        fl = I.flat(args)
        if d in FUZZY:
            self.fuzzy.append(self.here(node) + (d,))
        if d.startswith('numpy.array_equ') and len(fl) > 1:
            self.pair(st, node, fl[0], fl[1])
        if d in BYTES_F and fl and self.negzero(st, fl[0]):
            self.raw.append(self.here(node) + (d.split('.')[-1],))
        if d in IDENTITY:
            self.ident.append(self.here(node) + (d.split('.')[-1],))
        if d == 'builtins.hash' and fl:
            self.hashable(st, node, fl[0], 6)
        return None

    def hashable(self, st, node, v, depth):
        I = self.world.I
        for oid in v.oids():
            o = I.obj(st, oid)
            if o is None or len(v.atoms) != 1:
                continue
            if o.t in UNHASHABLE:
                self.unhash.append(self.here(node) + (o.t,))
            elif o.t in ('graph', 'multigraph'):
                self.ident.append(self.here(node) + (o.t,))
            elif o.t == 'tuple' and depth:
                for x in (o.items if o.items is not None else (o.elem,)):
                    self.hashable(st, node, x, depth - 1)

    def method(self, st, node, oid, name, args, kwargs):
        if name in BYTES_M and self.negzero(st, AV({('o', oid)})):
            self.raw.append(self.here(node) + (name,))
        if name == 'round':
            self.fuzzy.append(self.here(node) + ('round',))
        return None


def others(w, ci):
    """a model of the same class, and values that are not"""
    same = w.model(ci, 'other', 'arg:other.', sp=('n@other', 'k@other'))
    odd = {'None': avc(None), 'an integer': av(S('int')), 'a string': av(S('str', 'nonblank')), 'a list': w.new('l', 'list', elem=av(S('float'))),
           'an array': w.new('a', 'ndarray', elem=av(S('float')))}
    for mod, cname, short in MODEL_CLASSES:
        c2 = w.repo.cls(mod, cname)
        if c2 is not ci:
            odd[f'a {cname}'] = w.model(c2, 'odd', 'arg:other.', sp=('n@other', 'k@other'))
    return same, odd


def given(w, inst):
    """the attributes that hold what the constructor was given: arrays and lists of labels"""
    o = w.I.obj(w.st, inst.oids()[0])
    out = {}
    for name, v in o.attrs.items():
        for oid in v.oids():
            x = w.I.obj(w.st, oid)
            if x is not None and (x.t == 'ndarray' or x.t == 'list' and 'alllabels' in x.facts):
                out[name] = v
    return out


def one(ctx, ci, fi, kind):
    c = Eq()
    w = World(ctx.repo, c)
    c.world = w
    w.elem = {'p': avc(-0.0), 'e': avc(-0.0)}
    slf = w.model(ci, 'self', 'state:')
    vals = {fi.params[0]: slf}
    if len(fi.params) > 1:
        same, odd = others(w, ci)
        vals[fi.params[1]] = same if kind == 'same' else odd[kind]
    snap(w, vals)
    c.given = given(w, slf)
    try:
        outs = w.run(fi, vals)
    except Exception as ex:
        if type(ex).__name__ != 'Unreachable':
            raise
        outs = []
    ctx.count('statements visited', len(w.I.visited))
    ctx.count('abstract steps', w.I.steps)
    return c, w, outs, w.I.collectors[0]


def equality(ctx):
    ctx.rule = ('The equality and hash operators are interpreted abstractly. Dependences: equality must depend on every array and label list of both models, compare each with its counterpart, exactly '
                '(no tolerance, no elementwise comparison before the sizes are), and be false for anything else; the hash must depend only on what equality compares, never on the identity or on '
                'the sign of a zero (probabilities are taken as -0.0), and be taken over hashable values.')
    n = 0
    for mod, cname, short in MODEL_CLASSES:
        ci = ctx.repo.cls(mod, cname)
        eq, hs = ci.members.get('__eq__'), ci.members.get('__hash__')
        if eq is None or hs is None:
            ctx.violation(f'{mod}:missing', f'{cname} defines {"no equality" if eq is None else "equality but no hash"}', f'{mod}.py')
            ctx.ob(f'{cname} defines equality and hash', 'violated')
            continue
        loc = eq.loc()
        c, w, outs, raised = one(ctx, ci, eq, 'same')
        d = EMPTY
        for st, v in outs:
            d |= w.I.alldeps(st, v) | v.dep | st.ctrl
        d |= w.I.frames[0].retdep
        eself, eother = ndeps(d, 'state:'), ndeps(d, 'arg:other.')
        bad = []
        for a in sorted(c.given):
            n += 1
            if outs and a not in eself | {'?'} or outs and a not in eother:
                bad.append((f'omits:{a}', f'the equality of two models of class {cname} does not look at {a.split("__")[-1]}'))
            elif c.how.get(a):
                bad.append((f'lossy:{a}', f'equality compares {a.split("__")[-1]} only by size, by hash or without its order'))
        for l, fn, x, y in c.crossed:
            bad.append((f'crossed:{x}', f'{l}: equality compares {x.split("__")[-1]} of one model with {y.split("__")[-1]} of the other'))
        for l, fn, f in c.fuzzy:
            bad.append((f'fuzzy:{f}', f'{l}: equality compares approximately ({f}), which no hash can agree with'))
        for l, fn in c.unsized:
            bad.append((f'unsized:{fn}', f'{l}: equality compares element by element before the sizes are known to agree'))
        tr = set()
        for st, v in outs:
            tr |= w.I.truth(st, v) or {True, False}
        if outs and len(tr) == 1:
            bad.append(('constant', f'equality of two models of class {cname} is always {tr.pop()}'))
        for k, m in bad:
            ctx.violation(f'{eq.ident}:{k}', m, loc)
        ctx.ob(f'{cname}: equality compares all that was given', 'violated' if bad else 'ok' if c.compared else 'unknown')
        w0 = World(ctx.repo, Client())
        for kind in others(w0, ci)[1]:
            c, w, outs, raised = one(ctx, ci, eq, kind)
            n += 1
            vs = set()
            for st, v in outs:
                for a in v.atoms:
                    vs.add(False if a == FALSE or a[0] == 'c' and not a[2] or 'NotImplemented' in str(a) else True if a == TRUE else None)
            st = 'ok' if outs and vs == {False} else 'violated' if True in vs or not outs and raised or c.compared and None in vs else 'unknown'
            if st == 'violated':
                ctx.violation(f'{eq.ident}:other:{kind}', f'a {cname} compared with {kind} ' + ('can be equal to it' if outs else 'raises an exception'), loc)
            ctx.ob(f'{cname} compared with {kind}', st)
        # hash
        c, w, outs, raised = one(ctx, ci, hs, 'same')
        d = EMPTY
        for st, v in outs:
            d |= w.I.alldeps(st, v) | v.dep | st.ctrl
        hself = ndeps(d, 'state:')
        derived = set(c.given)
        bad = []
        extra = {a for a in hself - eself if a not in ('self',)}
        # an attribute that construction computes from others adds nothing, but a cache or the like may differ between equal models
        extra = {a for a in extra if a in derived}
        for a in sorted(extra):
            bad.append((f'extra:{a}', f'the hash of a {cname} depends on {a.split("__")[-1]}, which equality ignores'))
        for l, fn, f in c.ident:
            bad.append((f'identity:{f}', f'{l}: the hash depends on the identity of an object ({f})'))
        for l, fn, f in c.raw:
            bad.append((f'raw:{fn}', f'{l}: the hash tells -0.0 from 0.0 ({f}), equality does not'))
        for l, fn, t in c.unhash:
            bad.append((f'unhashable:{t}', f'{l}: the hash of a {t} raises TypeError'))
        for k, m in bad:
            ctx.violation(f'{hs.ident}:{k}', m, hs.loc())
        ctx.ob(f'{cname}: hash depends on {", ".join(sorted(a.split("__")[-1] for a in hself))}', 'violated' if bad else 'ok' if hself else 'unknown')
        n += 1
        if '__ne__' in ci.members:
            ctx.ob(f'{cname}: inequality is defined separately', 'unknown')
    ctx.floor('obligations on equality and hash', n, 10)
