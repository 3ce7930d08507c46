"""Models of Python builtins, numpy, networkx, scipy and the standard library used by the abstract interpreter.

Every entry states what the callee reads, returns, aliases and mutates. A call that has no entry returns an unknown value that
depends on all of its arguments, and is counted in Interp.unmodelled."""
import ast
import itertools
import math
import operator
import pathlib
import re
import string

from .values import *
from .values import AV, UNBOUND, AVU, BOT
from . import cells, dims
from .dims import length as listlen
from .tokens import LOST

NUMK = {'int', 'float', 'bool', 'complex', 'npint', 'npfloat'}
PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
         ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
         ast.LShift: operator.lshift, ast.RShift: operator.rshift}
CMPOPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
SEQ = ('list', 'tuple', 'iter', 'range', 'set', 'dict', 'ndarray')


def kind(a):
    if a[0] in ('c', 's', 'iv'):
        return a[1]
    if a[0] == 'nan':
        return 'float'
    return None


def role(a):
    if a[0] == 's' and len(a) > 2:
        return a[2]
    return None


def bools(vals, dep=EMPTY):
    """AV from a collection of True/False/None(unknown)/'u'"""
    atoms = set()
    for v in vals:
        if v is None:
            atoms.add(S('bool'))
        elif v == 'u':
            atoms.add(U)
        else:
            atoms.add(C(bool(v)))
    return AV(frozenset(atoms), dep)


def arr(I, st, node, tag, elem, shape=None, dep=EMPTY, base=EMPTY, facts=EMPTY):
    oid = I.alloc(st, node, tag, Obj('ndarray', elem=elem, shape=shape, dep=dep | st.ctrl, base=base, facts=facts))
    return AV(frozenset((('o', oid),)), dep | st.ctrl)


def dim_of(a):
    """the dimension denoted by an int atom"""
    if a[0] == 'c' and a[1] == 'int':
        return a[2]
    r = role(a)
    if r and r.startswith('dim:'):
        return r[4:]
    return None


def dimav(d):
    if isinstance(d, int):
        return avc(d)
    if isinstance(d, str):
        return av(S('int', 'dim:' + d))
    return av(S('int'))


def shape_from(I, st, v):
    """shape tuple denoted by a shape argument"""
    a = v.single()
    if a is None:
        return None
    if a[0] == 'o':
        o = I.obj(st, a[1])
        if o is not None and o.items is not None:
            return tuple(dim_of(i.single()) if i.single() else None for i in o.items)
        return None
    if kind(a) == 'int':
        return (dim_of(a),)
    return None


def oshape(I, st, v):
    a = v.single()
    if a is not None and a[0] == 'o':
        o = I.obj(st, a[1])
        if o is not None:
            return o.shape
    return None


# ---------------------------------------------------------------- arithmetic
def num_op(op, x, y):
    f = PYOPS.get(type(op))
    kx, ky = kind(x), kind(y)
    if x[0] == 'c' and y[0] == 'c' and f is not None and kx in NUMK | {'str'} and (ky in NUMK | {'str'}):
        try:
            r = f(x[2], y[2])
            if isinstance(r, (int, float, str, bool)) and (not isinstance(r, int) or abs(r) < 1 << 64):
                return C(r)
        except Exception:
            return S('float')
    if kx == 'str' or ky == 'str':
        return S('str')
    if x == NAN or y == NAN:
        return NAN
    if kx in NUMK and ky in NUMK:
        if isinstance(op, ast.Div):
            return S('float')
        if isinstance(op, ast.Mod) and x[0] == 'iv' and y[0] == 'c' and y[2] == 1.0:
            lo, hi = x[2], x[3]
            if math.isfinite(lo) and math.isfinite(hi) and math.floor(lo) == math.floor(hi - 1e-12):
                return ('iv', 'float', 0.0, 1.0)
        if 'float' in (kx, ky) or 'npfloat' in (kx, ky):
            return S('float')
        r = None
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and kx == ky == 'bool':
            return S('bool')
        rx, ry = role(x), role(y)
        one = lambda z: z[0] == 'c'
        if isinstance(op, (ast.Add, ast.Sub)):
            # an offset index keeps its space
            if rx and rx.startswith('idx:') and one(y):
                r = rx
            elif ry and ry.startswith('idx:') and one(x):
                r = ry
        return S('int', r)
    return None


def binop(I, st, node, l, op, r):
    dep = l.dep | r.dep
    dep |= I.alldeps(st, l, r)
    out = set()
    for x in l.atoms:
        for y in r.atoms:
            res = binop_atom(I, st, node, x, op, y, l.dep | r.dep)
            out |= res
    return AV(norm_atoms(frozenset(out)), dep)


def binop_atom(I, st, node, x, op, y, dep):
    if x == UNBOUND or y == UNBOUND:
        return {U}
    if isinstance(op, ast.Mod) and I.tokens is not None and x[0] == 'c' and isinstance(x[2], str):
        o = I.obj(st, y[1]) if y[0] == 'o' else None
        args = exact_items(I, st, AV({y})) if o is not None and o.t == 'tuple' else [AV({y})] if o is None else None
        fields = percent_fields(x[2])
        text = spelled_all(I, st, fields, args) if fields is not None and args is not None else None
        return {C(text) if text is not None else S('str')}
    if I.cells and (x[0] in ('s', 'iv') or y[0] in ('s', 'iv')):
        r = cells.unit(I, x, op, y)
        if r is not None:
            return {r}
    if x[0] == 'o' or y[0] == 'o':
        ox = I.obj(st, x[1]) if x[0] == 'o' else None
        oy = I.obj(st, y[1]) if y[0] == 'o' else None
        tx = ox.t if ox else None
        ty = oy.t if oy else None
        d = I.alldeps(st, AV({x}), AV({y})) | dep
        if 'ndarray' in (tx, ty):
            r = cells.binop(I, st, node, x, op, y) if I.cells else None
            if r is not None:
                return set(r.atoms)
            ex = ox.elem if tx == 'ndarray' else (I.elem_of(st, x[1]) if ox else AV({x}))
            ey = oy.elem if ty == 'ndarray' else (I.elem_of(st, y[1]) if oy else AV({y}))
            if tx == 'ndarray' and ox.base:
                ex = I.elem_of(st, x[1])
            if ty == 'ndarray' and oy.base:
                ey = I.elem_of(st, y[1])
            sh = None
            sx, sy = (ox.shape if ox else ()), (oy.shape if oy else ())
            if sx is not None and sy is not None:
                sh = dims.joint(sx, sy) if not isinstance(op, ast.MatMult) else dims.matmul(sx, sy)
            return {a for a in arr(I, st, node, ('binop', x, y), binop_elem(I, st, ex, ey, op, d), sh, d).atoms}
        if tx in ('list', 'tuple') and ty in ('list', 'tuple') and isinstance(op, ast.Add):
            if ox.items is not None and oy.items is not None and not I.loopdepth:
                return set(I.new(st, node, ('add', x, y), tx, dep=d, items=ox.items + oy.items).atoms)
            f = frozenset({'nonempty'} if 'nonempty' in ox.facts | oy.facts or ox.items or oy.items else ()) | ((ox.facts | oy.facts) & {'ordertaint'})
            return set(I.new(st, node, ('add', x, y), tx, dep=d, elem=join(I.elem_of(st, x[1]), I.elem_of(st, y[1])), facts=f).atoms)
        if isinstance(op, ast.Mult) and (tx in ('list', 'tuple') or ty in ('list', 'tuple')):
            o, oid, other = (ox, x[1], y) if tx in ('list', 'tuple') else (oy, y[1], x)
            sh = None
            if I.exact and o.items is not None and not I.loopdepth and other[0] == 'c' and type(other[2]) is int and len(o.items) * other[2] <= 64:
                its = o.items * other[2]
                return set(I.new(st, node, ('mul', x, y), o.t, dep=d, items=its, shape=(len(its),), facts=frozenset({'nonempty'} if its else ())).atoms)
            if o.items is not None and len(o.items) == 1:
                sh = (dim_of(other),)
            return set(I.new(st, node, ('mul', x, y), o.t, dep=d, elem=I.elem_of(st, oid), shape=sh).atoms)
        if I.exact and tx == 'set' and ty == 'set' and ox.items is not None and oy.items is not None and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            vx, vy = [i.single()[2] for i in ox.items], [i.single()[2] for i in oy.items]
            f = {ast.BitOr: set.union, ast.BitAnd: set.intersection, ast.Sub: set.difference, ast.BitXor: set.symmetric_difference}[type(op)]
            r = f(set(vx), set(vy))
            return set(exact_set(I, st, node, ('setop', x, y), tuple(avc(v) for v in vx + vy if v in r), d).atoms)
        if tx == 'set' or ty == 'set':
            e = join(I.elem_of(st, x[1]) if ox else BOT, I.elem_of(st, y[1]) if oy else BOT)
            if isinstance(op, (ast.Sub, ast.BitAnd)) and ox is not None:
                e = I.elem_of(st, x[1])
            return set(I.new(st, node, ('setop', x, y), 'set', dep=d, elem=e, facts=frozenset({'unordered'})).atoms)
        if tx == 'str' or kind(x) == 'str':
            return {S('str')}
        return {U}
    if isinstance(op, ast.Mod) and kind(x) == 'str':
        return {S('str')}
    r = num_op(op, x, y)
    return {r if r is not None else U}


def binop_elem(I, st, a, b, op, dep):
    out = set()
    for x in a.atoms or {U}:
        for y in b.atoms or {U}:
            r = num_op(op, x, y) if x[0] != 'o' and y[0] != 'o' else U
            out.add(r if r is not None else U)
    return AV(norm_atoms(frozenset(out)), a.dep | b.dep)


def neg(a):
    if a[0] == 'c' and isinstance(a[2], (int, float)):
        return C(-a[2])
    if a[0] == 'iv':
        return ('iv', a[1], -a[3], -a[2])
    if a[0] == 's':
        return S(a[1])
    return a


def unaryop(I, st, node, op, v):
    out = set()
    for a in v.atoms:
        if a[0] == 'o':
            o = I.obj(st, a[1])
            if o is not None and o.t == 'ndarray':
                r = cells.unary(I, st, node, a[1], op) if I.cells else None
                if r is not None:
                    out |= r.atoms
                    continue
                e = I.elem_of(st, a[1])
                if isinstance(op, ast.USub):
                    e = AV(frozenset(neg(x) for x in e.atoms), e.dep)
                elif isinstance(op, ast.Invert):
                    e = AV(frozenset(C(not x[2]) if x[0] == 'c' and isinstance(x[2], bool) else x for x in e.atoms), e.dep)
                out |= arr(I, st, node, ('unary', a), e, o.shape, I.alldeps(st, AV({a}))).atoms
                continue
            out.add(U)
        elif isinstance(op, ast.USub):
            out.add(neg(a))
        elif isinstance(op, ast.Invert) and a[0] == 'c' and isinstance(a[2], int) and not isinstance(a[2], bool):
            out.add(C(~a[2]))
        else:
            out.add(a if not isinstance(op, ast.Invert) else S('int'))
    return AV(frozenset(out), v.dep)


# ---------------------------------------------------------------- comparison
# elements of other sizes than usual
SIZES = {'~': (0.0, 1e-30), '!': (1e-300, 1e-30), ',': (2e-5, 1e-4), '^': (0.9999, 0.99995)}


def cellrange(a):
    """the values of the elements of a model: ordinary probabilities, or tiny ones"""
    if a[0] == 's' and (role(a) or '')[:5] == 'cell:':
        return IV('float', *SIZES.get(a[2][-1], (0.01, 0.99)))
    if a[0] == 's' and (role(a) or '')[:4] == 'sum:':
        rs = [cellrange(S('float', x)) for x in a[2][4:].split('|')]
        return IV('float', sum(r[2] for r in rs), sum(r[3] for r in rs))
    if a[0] == 's' and (role(a) or '')[:5] == 'made:' and a[2][-1] == '+':
        return IV('float', 5e-324, math.inf)
    return a


def cmp_num(op, x, y):
    """True/False/None/'u' for scalar atoms"""
    f = CMPOPS.get(type(op))
    if f is None:
        return None
    if y[0] != 's':
        x = cellrange(x)
    elif x[0] != 's':
        y = cellrange(y)
    kx, ky = kind(x), kind(y)
    if x[0] == 'c' and y[0] == 'c':
        try:
            return bool(f(x[2], y[2]))
        except TypeError:
            return 'u'
    if x == NAN or y == NAN:
        return isinstance(op, ast.NotEq) if (kx in NUMK and ky in NUMK) else None
    if (kx in NUMK and ky == 'str') or (kx == 'str' and ky in NUMK):
        if isinstance(op, ast.Eq):
            return False
        if isinstance(op, ast.NotEq):
            return True
        return 'u'
    if x == NONE or y == NONE:
        if x[0] in ('c', 's', 'iv') and y[0] in ('c', 's', 'iv'):
            if isinstance(op, ast.Eq):
                return False
            if isinstance(op, ast.NotEq):
                return True
        return 'u'

    def rng(a):
        if a[0] == 'c' and isinstance(a[2], (int, float)):
            return a[2], a[2], True
        if a[0] == 'iv' and a[1] in ('int', 'npint'):
            return a[2] + 1, a[3] - 1, True
        if a[0] == 'iv':
            return a[2], a[3], False
        return None
    rx, ry = rng(x), rng(y)
    if rx is not None and ry is not None:
        xl, xh, xc = rx
        yl, yh, yc = ry
        # open intervals: x in (xl, xh) unless closed point
        lt = xh <= yl and not (xc and yc and xh == yl)
        gt = xl >= yh and not (xc and yc and xl == yh)
        le, ge = xh <= yl, xl >= yh
        if isinstance(op, ast.Lt):
            return True if lt else False if ge else None
        if isinstance(op, ast.LtE):
            return True if le else False if gt else None
        if isinstance(op, ast.Gt):
            return True if gt else False if le else None
        if isinstance(op, ast.GtE):
            return True if ge else False if lt else None
        if isinstance(op, ast.Eq):
            return False if lt or gt else None
        if isinstance(op, ast.NotEq):
            return True if lt or gt else None
    if x[0] == 'u' or y[0] == 'u':
        return 'u'
    # a dimension is a size of at least 2 (labels, states) and an index is at least 0
    return None


def contains(I, st, x, o, oid):
    """is atom x in object o: True/False/None/'u'"""
    if I.exact and x[0] == 'o':
        if o.items is not None:
            try:
                w = whole(I, st, x)
                return any(whole(I, st, i.single()) == w for i in o.items)
            except KeyError:
                pass
        try:
            x = C(known(I, st, x))
        except KeyError:
            pass
    if o.t in ('dict', 'instdict'):
        if x[0] == 'c':
            if x[2] in o.attrs:
                return None if ('maykey', x[2]) in o.facts else True
            if o.t == 'dict' and not o.elem.atoms and not any(isinstance(f, tuple) and f[0] in ('keyelem',) for f in o.facts) and not o.origin:
                return False
        return None
    if o.items is not None or 'each' in o.facts:
        atoms = set()
        for i in (o.items if o.items is not None else (o.elem,)):
            atoms |= i.atoms
        if all(a[0] == 'c' for a in atoms):
            if x[0] == 'c':
                return any(type(x[2]) is type(a[2]) and x[2] == a[2] or (x[2] == a[2]) for a in atoms)
            if x[0] == 'iv':
                return False if all(cmp_num(ast.Eq(), x, a) is False for a in atoms) else None
            if x[0] == 's' and all(kind(a) != x[1] and {kind(a), x[1]} & {'str'} for a in atoms):
                return False
            if x == NAN:
                return False
            if x[0] == 's' and x[2] and str(x[2]).startswith('other'):
                return False
        return None
    if o.t == 'set' or o.t == 'list':
        c = I.elem_of(st, oid)
        if x[0] == 'c' and c.atoms and all(a[0] == 'c' for a in c.atoms) and not o.origin and x not in c.atoms and all(a[2] != x[2] for a in c.atoms):
            return False
        if not c.atoms and not o.origin and not o.items:
            return False
        rx = role(x)
        if rx and c.atoms and all(role(a) == rx for a in c.atoms) and 'alllabels' in o.facts and str(rx).startswith('label:'):
            return True
        if rx and str(rx).startswith('other') and c.atoms and all(str(role(a)).startswith('label:') for a in c.atoms):
            return False
    return None


def compare(I, st, node, op, l, r):
    dep = I.alldeps(st, l, r)
    if isinstance(op, (ast.Is, ast.IsNot)):
        out = []
        for x in l.atoms:
            for y in r.atoms:
                if x[0] == 'u' or y[0] == 'u' or x == UNBOUND or y == UNBOUND:
                    v = 'u'
                elif x == NONE or y == NONE:
                    if x == NONE and y == NONE:
                        v = True
                    else:
                        o = x if y == NONE else y
                        v = False
                        if o[0] == 'o':
                            ob = I.obj(st, o[1])
                            if ob is None or ob.t == 'any':
                                v = False if ob is not None and 'notnone' in ob.facts else 'u' if ob is None else None
                elif x[0] == 'c' and y[0] == 'c':
                    v = x == y if isinstance(x[2], bool) or isinstance(y[2], bool) else None if x == y else False
                elif x[0] == 'o' and y[0] == 'o':
                    v = False if x != y else None
                else:
                    v = None
                if isinstance(op, ast.IsNot) and isinstance(v, bool):
                    v = not v
                out.append(v)
        return bools(out, dep)
    if isinstance(op, (ast.In, ast.NotIn)):
        out = []
        for y in r.atoms:
            o = I.obj(st, y[1]) if y[0] == 'o' else None
            for x in l.atoms:
                if y[0] == 'c' and isinstance(y[2], str):
                    v = x[2] in y[2] if x[0] == 'c' and isinstance(x[2], str) else None
                elif o is None:
                    v = 'u' if y[0] == 'u' else None
                else:
                    v = contains(I, st, x, o, y[1])
                    if x[0] == 'u' and v is None:
                        v = 'u'
                if isinstance(op, ast.NotIn) and isinstance(v, bool):
                    v = not v
                out.append(v)
        return bools(out, dep)
    out = []
    arrs = set()
    for x in l.atoms:
        for y in r.atoms:
            ox = I.obj(st, x[1]) if x[0] == 'o' else None
            oy = I.obj(st, y[1]) if y[0] == 'o' else None
            if (ox is not None and ox.t == 'ndarray') or (oy is not None and oy.t == 'ndarray'):
                known = cells.pairwise(I, st, node, x, y, 'cmp', lambda p, q: cmp_num(op, p, q)) if I.cells else None
                if known is not None:
                    arrs |= known.atoms
                    continue
                ex = I.elem_of(st, x[1]) if ox is not None else AV({x})
                ey = I.elem_of(st, y[1]) if oy is not None else AV({y})
                vals = [cmp_num(op, p, q) if p[0] != 'o' and q[0] != 'o' else None for p in ex.atoms for q in ey.atoms] or [None]
                sx = ox.shape if ox is not None else ()
                sy = oy.shape if oy is not None else ()
                sh = (sx if sx is not None and sy is not None and len(sx) >= len(sy) else sy if sx is not None and sy is not None else None)
                f = frozenset()
                src = ox if ox is not None and ox.t == 'ndarray' else oy
                f = src.facts & {'each', 'nonempty'}
                arrs |= arr(I, st, node, ('cmp', x, y), bools(vals), sh, dep, facts=f).atoms
                continue
            if ox is not None or oy is not None:
                out.append(cmp_objs(I, st, op, x, ox, y, oy))
                continue
            if x[0] in ('fn', 'ext', 'cls', 'b') or y[0] in ('fn', 'ext', 'cls', 'b'):
                same = x == y
                if x[0] == 'u' or y[0] == 'u':
                    out.append('u')
                else:
                    out.append(same if isinstance(op, ast.Eq) else not same)
                continue
            out.append(cmp_num(op, x, y))
    res = bools(out, dep)
    if arrs:
        return AV(res.atoms | arrs, dep)
    return res


def cmp_objs(I, st, op, x, ox, y, oy):
    if I.exact and ox is not None and oy is not None and ox.t == oy.t == 'set' and ox.items is not None and oy.items is not None:
        try:
            p, q = [{known(I, st, i.single()) for i in o.items} for o in (ox, oy)]
            f = {ast.Eq: p == q, ast.NotEq: p != q, ast.LtE: p <= q, ast.Lt: p < q, ast.GtE: p >= q, ast.Gt: p > q}
            return f.get(type(op))
        except (KeyError, TypeError):
            pass
    if I.exact and ox is not None and oy is not None and isinstance(op, (ast.Eq, ast.NotEq)) and {ox.t, oy.t} <= {'list', 'tuple'}:
        try:
            return (whole(I, st, x) == whole(I, st, y)) == isinstance(op, ast.Eq)
        except KeyError:
            pass
    if ox is not None and oy is not None and ox.t in ('tuple', 'list') and oy.t == ox.t and ox.items is not None and oy.items is not None and isinstance(op, (ast.Eq, ast.NotEq)):
        if len(ox.items) != len(oy.items):
            return isinstance(op, ast.NotEq)
        unk = False
        for a, b in zip(ox.items, oy.items):
            p, q = a.single(), b.single()
            v = cmp_num(ast.Eq(), p, q) if p is not None and q is not None and p[0] != 'o' and q[0] != 'o' else None
            if v is False:
                return isinstance(op, ast.NotEq)
            if v is not True:
                unk = True
        if not unk:
            return isinstance(op, ast.Eq)
        return None
    for o, z in ((ox, y), (oy, x)):
        if o is not None and o.t in ('list', 'tuple', 'dict', 'set', 'inst') and z[0] in ('c', 's', 'iv') and isinstance(op, (ast.Eq, ast.NotEq)) and o.t != 'inst':
            return isinstance(op, ast.NotEq)
    if (ox is not None and ox.t == 'any') or (oy is not None and oy.t == 'any'):
        return None
    return None


# ---------------------------------------------------------------- subscripts
def row_of(I, st, node, oid, o):
    if o.shape is not None and len(o.shape) == 1:
        e = I.elem_of(st, oid)
        return AV(e.atoms, e.dep | o.dep)
    if o.shape is not None and len(o.shape) > 1:
        return view(I, st, node, ('row', ('o', oid)), oid, o, o.shape[1:], 'def')
    e = I.elem_of(st, oid)
    v = view(I, st, node, ('row', ('o', oid)), oid, o, None, 'maybe')
    return AV(v.atoms | e.atoms, v.dep | e.dep | o.dep)


def view(I, st, node, tag, oid, o, shape, certain, facts=EMPTY):
    noid = I.alloc(st, node, tag, Obj('ndarray', elem=o.elem, shape=shape, dep=o.dep | st.ctrl, base=frozenset({(oid, certain)}), facts=facts))
    return AV(frozenset((('o', noid),)), o.dep | st.ctrl)


def contiguous(I, st, oid, depth=5):
    """is the array laid out row by row without gaps, so that flattening or reshaping it returns a view?"""
    o = I.obj(st, oid)
    if o is None or depth == 0:
        return False
    if not o.base:
        return True
    tag = I._idnames[oid][2] if len(I._idnames[oid]) > 2 else None
    tag = tag[0] if isinstance(tag, tuple) else tag
    if 'contig' not in o.facts and tag not in ('row', 'new', 'ravel', 'reshape', 'real', 'asarray', 'asanyarray', 'squeeze', 'atleast_1d', 'atleast_2d', 'astype', 'array'):
        return False
    return all(contiguous(I, st, b, depth - 1) for b, c in o.base)


def keeps_kind(I, st, oid, ty):
    """can the array already have the type asked for?"""
    k = ty.single()
    want = {('b', 'float'): 'float', ('b', 'int'): 'int', ('b', 'bool'): 'bool', ('ext', 'numpy.float64'): 'float', ('c', 'str', 'float'): 'float', ('c', 'str', 'float64'): 'float', NONE: None}.get(k, '?')
    if want is None:
        return True
    return any(kind(a) in (want, 'np' + str(want)) for a in I.elem_of(st, oid).atoms)


def copy_arr(I, st, node, tag, oid, o, shape=None):
    return arr(I, st, node, tag, I.elem_of(st, oid), shape if shape is not None else o.shape, I.alldeps(st, av(('o', oid))), facts=o.facts & {'each', 'nonempty'} | frozenset(f for f in o.facts if isinstance(f, tuple) and f[0] in ('rowsum', 'total', 'first', 'last')))


def idx_kind(I, st, a):
    if a[0] in ('c', 's', 'iv'):
        if a == NONE:
            return 'new'
        k = kind(a)
        if k in ('int', 'npint'):
            return 'int'
        if a[1] == 'ellipsis':
            return 'ell'
        if k == 'bool':
            return 'fancy'
        if k == 'str':
            return 'str'
        return '?'
    if a[0] == 'slice':
        return 'slice'
    if a[0] == 'ext' and a[1] == 'numpy.newaxis':
        return 'new'
    if a[0] == 'o':
        o = I.obj(st, a[1])
        if o is not None and o.t in ('ndarray', 'list'):
            return 'fancy'
        if o is not None and o.t in ('tuple', 'ix'):
            return 'fancy' if o.t == 'ix' else 'tuple'
        return '?'
    return '?'


def getitem(I, st, e, oid, o, i):
    out = []
    for a in i.atoms or {U}:
        out.append(getitem1(I, st, e, oid, o, a))
    r = joinall(out)
    return AV(r.atoms, r.dep | i.dep)


def picked(el):
    """an element chosen by its position in the order of a set"""
    return AV(frozenset(S('str', 'ordertaint') if kind(a) == 'str' else a for a in el.atoms), el.dep)


def getitem1(I, st, e, oid, o, a):
    if I.cells and o.t == 'ndarray':
        r = cells.getitem(I, st, e, oid, a)
        if r is not None:
            return r
    I.hint = dims.index(I, st, tuple(o.shape), a) if o.t == 'ndarray' and dims.known(o.shape) else None
    try:
        return getitem2(I, st, e, oid, o, a)
    finally:
        I.hint = None


def getitem2(I, st, e, oid, o, a):
    k = idx_kind(I, st, a)
    if o.t == 'ndarray':
        if k == 'tuple':
            to = I.obj(st, a[1])
            items = to.items
            if items is None:
                el = I.elem_of(st, oid)
                return el.withdep(o.dep)
            kinds = []
            for it in items:
                ks = {idx_kind(I, st, x) for x in it.atoms}
                kinds.append(ks.pop() if len(ks) == 1 else '?')
            if 'fancy' in kinds:
                sh = []
                full = True
                dims = list(o.shape) if o.shape is not None else None
                for n, (it, kk) in enumerate(zip(items, kinds)):
                    d = dims[n] if dims is not None and n < len(dims) else None
                    if kk == 'int':
                        continue
                    if kk == 'slice':
                        s = it.single()
                        sh.append(d if s is not None and s[1:] == (None, None, None) else None)
                    else:
                        sh.append(None)
                return arr(I, st, e, ('fancy', ('o', oid)), I.elem_of(st, oid), tuple(sh) if dims is not None and len(kinds) >= len(dims) and kinds.count('fancy') == 1 else None, o.dep)
            if all(x == 'int' for x in kinds):
                el = I.elem_of(st, oid)
                if o.shape is not None and len(o.shape) > len(kinds):
                    return view(I, st, e, ('sub', ('o', oid)), oid, o, o.shape[len(kinds):], 'def')
                return el.withdep(o.dep)
            if '?' in kinds:
                el = I.elem_of(st, oid)
                return AV(el.atoms | {U}, el.dep | o.dep)
            sh = []
            dims = list(o.shape) if o.shape is not None else None
            n = 0
            for it, kk in zip(items, kinds):
                if kk == 'new':
                    sh.append(1)
                    continue
                if kk == 'ell':
                    dims = None
                    continue
                d = dims[n] if dims is not None and n < len(dims) else None
                n += 1
                if kk == 'slice':
                    s = it.single()
                    sh.append(d if s is not None and s[1:] == (None, None, None) else None)
            if dims is not None:
                sh += dims[n:]
            lead = next((n for n, x in enumerate(kinds) if x != 'int'), len(kinds))
            whole = all(x == 'slice' and it.single() is not None and it.single()[1:] == (None, None, None) for it, x in zip(items[lead:], kinds[lead:]))
            return view(I, st, e, ('sub', ('o', oid)), oid, o, tuple(sh) if dims is not None else None, 'def', frozenset({'contig'}) if whole else EMPTY)
        if k == 'int':
            if o.shape is not None and len(o.shape) == 1:
                c = a
                if c[0] == 'c':
                    for f in o.facts:
                        if isinstance(f, tuple) and (f[0] == 'first' and c[2] == 0 or f[0] == 'last' and c[2] == -1):
                            return f[1].withdep(o.dep)
                return I.elem_of(st, oid).withdep(o.dep)
            if o.shape is not None and len(o.shape) > 1:
                return view(I, st, e, ('row', ('o', oid)), oid, o, o.shape[1:], 'def')
            r = row_of(I, st, e, oid, o)
            return r
        if k == 'slice':
            s = a
            sh = None
            if o.shape is not None:
                sh = ((o.shape[0] if s[1:] == (None, None, None) else None),) + tuple(o.shape[1:])
            return view(I, st, e, ('slice', ('o', oid)), oid, o, sh, 'def')
        if k == 'new':
            return view(I, st, e, ('new', ('o', oid)), oid, o, (1,) + tuple(o.shape) if o.shape is not None else None, 'def')
        if k == 'fancy':
            # one row of indices or flags: as many dimensions as before
            io = I.obj(st, a[1]) if a[0] == 'o' else None
            line = io is not None and o.shape is not None and io.t == 'ndarray' and io.shape is not None and len(io.shape) == 1
            sh = (None,) + tuple(o.shape[1:]) if line else None
            if io is not None and io.t == 'ix' and io.items is not None and o.shape is not None and len(io.items) == len(o.shape):
                # each list selects along its own dimension
                one = [x.single() for x in io.items]
                sh = tuple(listlen(I, st, x) if x is not None and x[0] == 'o' else None for x in one)
            return arr(I, st, e, ('fancy', ('o', oid)), I.elem_of(st, oid), sh, o.dep)
        el = I.elem_of(st, oid)
        return AV(el.atoms | {U}, el.dep | o.dep)
    if o.t in ('list', 'tuple', 'iter', 'range'):
        if k == 'slice':
            if o.items is not None and '?' not in a[1:]:
                return I.new(st, e, ('lslice', ('o', oid)), 'list' if o.t == 'list' else o.t, dep=o.dep, items=tuple(o.items[slice(*a[1:])]))
            return I.new(st, e, ('lslice', ('o', oid)), 'list' if o.t == 'list' else o.t, dep=o.dep, elem=I.elem_of(st, oid), facts=o.facts & {'ordertaint'})
        if a[0] == 'c' and isinstance(a[2], int) and o.items is not None and -len(o.items) <= a[2] < len(o.items):
            return o.items[a[2]].withdep(o.dep)
        el = I.elem_of(st, oid)
        if 'ordertaint' in o.facts and a[0] == 'c' and 'sorted' not in o.facts:
            el = picked(el)
        return AV(el.atoms or frozenset({U}), el.dep | o.dep)
    if o.t in ('dict', 'instdict'):
        a = as_const(I, st, a)
        if a[0] == 'c' and a[2] in o.attrs:
            v = o.attrs[a[2]]
            return join(v, o.elem).withdep(o.dep) if o.elem.atoms and ('maykey', a[2]) in o.facts else v.withdep(o.dep)
        vs = [o.elem] + (list(o.attrs.values()) if a[0] != 'c' else [])
        r = joinall(vs)
        return AV(r.atoms or frozenset({U}), r.dep | o.dep)
    if o.t == 'any':
        return AV({U, ('o', I.sub_any(st, e, oid, o))} if o.origin else {U}, o.dep)
    if o.t == 'graph':
        r = getattr(I.client, 'graph_item', None)
        r = r(st, e, oid, o, a) if r is not None else None
        return r if r is not None else AV({('o', I.sub_any(st, e, oid, o))}, o.dep)
    return AV({U}, o.dep)


# ---------------------------------------------------------------- attributes
NPCONST = {'numpy.inf': C(math.inf), 'numpy.nan': NAN, 'numpy.pi': C(math.pi), 'numpy.newaxis': NONE, 'math.inf': C(math.inf), 'math.nan': NAN, 'math.pi': C(math.pi), 'numpy.e': C(math.e)}


def ext_attr(I, st, dotted, name):
    d = f'{dotted}.{name}'
    if d in NPCONST:
        return av(NPCONST[d])
    return av(('ext', d))


def obj_attr(I, st, e, oid, o, name):
    if o.t in ('ndarray', 'df', 'any') and name == 'shape':
        if o.shape is not None:
            return I.new(st, e, ('shape', ('o', oid)), 'tuple', dep=o.dep, items=tuple(dimav(d) for d in o.shape), shape=(len(o.shape),))
        return I.new(st, e, ('shape', ('o', oid)), 'tuple', dep=o.dep, elem=av(S('int')))
    if o.t == 'ndarray':
        if name == 'ndim':
            return avc(len(o.shape), o.dep) if o.shape is not None else AV({S('int')}, o.dep)
        if name == 'size':
            if o.shape is not None and len(o.shape) == 1:
                return dimav(o.shape[0]).withdep(o.dep)
            if o.shape is not None and all(isinstance(d, int) for d in o.shape):
                k = 1
                for d in o.shape:
                    k *= d
                return avc(k, o.dep)
            return AV({S('int')}, o.dep)
        r = cells.method(I, st, e, oid, 'transpose', [], {}, o.dep) if name == 'T' and I.cells else None
        if r is not None:
            return r
        if name == 'T':
            return view(I, st, e, ('T', ('o', oid)), oid, o, tuple(reversed(o.shape)) if o.shape is not None else None, 'def')
        if name in ('real', 'flat', 'imag'):
            return view(I, st, e, (name, ('o', oid)), oid, o, o.shape, 'maybe' if name == 'imag' else 'def')
        if name == 'dtype':
            return AV({('dtype', I.elem_of(st, oid))}, o.dep)
    if o.t == 'graph':
        if name in ('nodes', 'edges', 'adj', 'succ', 'pred'):
            return AV({('m', oid, name)}, o.dep)
        if name == 'graph':
            return AV({('o', I.sub_any(st, e, oid, o))}, o.dep)
    if o.t == 'any':
        if name in o.attrs:
            return o.attrs[name]
        return AV({('m', oid, name)}, o.dep)
    if o.t == 'exc':
        return AV({U}, o.dep)
    if name in o.attrs and o.t not in ('dict',):
        return o.attrs[name].withdep(o.dep)
    if name == '__class__':
        return AV({('b', o.t)} if o.t != 'any' else {U}, EMPTY)
    return AV({('m', oid, name)}, o.dep)


def scalar_attr(I, st, a, name):
    if name in ('size',):
        return avc(1)
    if name in ('real',):
        return av(a)
    if name == '__class__':
        return AV({('b', kind(a))})
    if name in ('__module__', 'dtype', 'shape', '__bases__', '__qualname__'):
        return AVU
    return av(('mx', a, name))


# ---------------------------------------------------------------- types
KIND_CLASSES = {
    'int': {'int', 'numbers.Integral', 'numbers.Number', 'numbers.Real'}, 'bool': {'bool', 'int'}, 'float': {'float', 'numbers.Number', 'numbers.Real'}, 'str': {'str'}, 'complex': {'complex'},
    'npint': {'numpy.integer', 'numpy.number', 'numpy.generic', 'numpy.signedinteger', 'numpy.int64'}, 'npfloat': {'numpy.floating', 'numpy.number', 'float', 'numpy.float64', 'numpy.generic', 'numpy.inexact'},
    'NoneType': {'NoneType'}, 'bytes': {'bytes'}, 'npbool': {'numpy.bool_'}, 'npf32': {'numpy.floating', 'numpy.number', 'numpy.generic', 'numpy.float32'},
}
OBJ_CLASSES = {
    'ndarray': {'numpy.ndarray'}, 'list': {'list'}, 'tuple': {'tuple'}, 'dict': {'dict'}, 'set': {'set'}, 'frozenset': {'frozenset'}, 'range': {'range'},
    'graph': {'networkx.DiGraph', 'networkx.Graph'}, 'multigraph': {'networkx.MultiDiGraph', 'networkx.DiGraph', 'networkx.Graph', 'networkx.MultiGraph'},
    'df': {'pandas.DataFrame', 'pandas.core.frame.DataFrame'}, 'series': {'pandas.Series'}, 'path': {'pathlib.Path'}, 'sparse': {'scipy.sparse.spmatrix'}, 'iter': set(), 'file': set(), 'rng': {'numpy.random.RandomState'}, 'inst': set(), 'exc': set(), 'other': set(),
    'ungraph': {'networkx.Graph'}, 'sparsearr': set(), 'callable': set(),
}


def cls_names(I, st, v):
    """list of class names denoted by the second argument of isinstance, or None"""
    out = []
    for a in v.atoms:
        if a[0] == 'b':
            out.append(a[1])
        elif a[0] == 'ext':
            out.append(a[1])
        elif a[0] == 'cls':
            out.append(a[1])
        elif a == NONE:
            continue
        elif a[0] == 'o':
            o = I.obj(st, a[1])
            if o is None or o.items is None:
                return None
            for i in o.items:
                x = cls_names(I, st, i)
                if x is None:
                    return None
                out += x
        else:
            return None
    return out


def is_instance(I, st, a, names):
    if names is None:
        return 'u'
    if a[0] in ('c', 's', 'iv', 'nan'):
        ks = KIND_CLASSES.get(kind(a), set())
        return any(isinstance(n, str) and n in ks for n in names)
    if a[0] == 'o':
        o = I.obj(st, a[1])
        if o is None:
            return 'u'
        if o.t == 'any':
            return None
        if o.t == 'inst':
            for n in names:
                if not isinstance(n, str):
                    c = o.cls
                    if c is n:
                        return True
                    for b in c.bases:
                        r = I.repo.resolve_expr(c.module, b)
                        if r and r[0] == 'class' and r[1] is n:
                            return True
            return False
        ks = OBJ_CLASSES.get(o.t)
        if ks is None:
            return 'u'
        return any(isinstance(n, str) and n in ks for n in names)
    if a[0] in ('fn', 'ext', 'bm', 'clo', 'b', 'cls'):
        return None
    return 'u'


# ---------------------------------------------------------------- builtins
def first(args):
    for x in args:
        return x[1] if isinstance(x, tuple) else x
    return BOT


def lenav(I, st, v):
    out = []
    for a in v.atoms:
        if I.tokens is not None and a[0] == 'c' and I.tokens.has(a[2]):
            out.append(AV({I.tokens.length(a[2])}))
        elif a[0] == 'c' and isinstance(a[2], str):
            out.append(avc(len(a[2])))
        elif a[0] == 'o':
            o = I.obj(st, a[1])
            if o is None:
                out.append(av(S('int')))
                continue
            lf = next((f[1] for f in o.facts if isinstance(f, tuple) and f[0] == 'len'), None)
            if lf is not None:
                out.append(lf)
            elif o.items is not None:
                out.append(avc(len(o.items)))
            elif o.shape:
                out.append(dimav(o.shape[0]))
            elif o.t == 'dict' and not o.elem.atoms and not any(isinstance(f, tuple) and f[0] in ('maykey', 'keyelem') for f in o.facts) and not (foreign(o) if I.exact else o.origin):
                out.append(avc(len(o.attrs)))
            elif 'nonempty' in o.facts:
                out.append(av(('iv', 'int', 0, math.inf)))
            else:
                out.append(av(S('int')))
        elif a[0] == 's' and a[1] == 'str':
            rl = role(a)
            if rl == 'blank':
                out.append(avc(0))
            elif rl == 'nonblank' or (rl and str(rl).startswith(('label:', 'other', 'nb'))):
                out.append(av(('iv', 'int', 0, math.inf)))
            else:
                out.append(av(S('int')))
        elif a[0] == 'u':
            out.append(AV({S('int'), U}))
        else:
            out.append(av(S('int')))
    r = joinall(out)
    return AV(r.atoms, r.dep | I.alldeps(st, v))


def allany(I, st, v, isall):
    dep = I.alldeps(st, v)
    out = []
    for a in v.atoms:
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        if o is None:
            out.append(None if a[0] != 'u' else 'u')
            continue
        if o.items is not None:
            ts = [truths(I, st, i) for i in o.items]
            each = True
        else:
            e = I.elem_of(st, a[1])
            if o.t == 'ndarray' and not e.atoms:
                ts = [{None}]
            else:
                ts = [truths(I, st, e)] if e.atoms else []
            each = 'each' in o.facts
        tset = set().union(*ts) if ts else set()
        good, bad = (True, False) if isall else (False, True)
        empty_ok = isall
        if o.items is not None:
            if any(t == {bad} for t in ts):
                out.append(not isall)
            elif all(t == {good} for t in ts):
                out.append(isall)
            else:
                out.append('u' if 'u' in tset else None)
            continue
        if tset <= {good}:
            out.append(isall)
        elif each and bad in tset:
            out.append(not isall)
        elif tset == {bad} and ('nonempty' in o.facts or each):
            out.append(not isall)
        elif 'u' in tset:
            out.append('u')
        else:
            out.append(None)
    return bools(out, dep)


def truths(I, st, v):
    out = set()
    for a in v.atoms:
        if a[0] == 'u':
            out.add('u')
        elif a[0] == 'sym':
            out.add(None)
        else:
            out.add(I.truth_atom(st, a))
    return out


def seq_info(I, st, v):
    """(elem, dep, facts, shape, items) of an iterable value"""
    elem = I.iter_elem(v, st, None) if False else None
    return elem


def unstable(I, st, oid, o):
    """is the iteration order of the object that of a set whose element hashes change between processes?"""
    return 'ordertaint' in o.facts or 'unordered' in o.facts and any(kind(a) == 'str' for a in I.elem_of(st, oid).atoms)


def order_facts(I, st, v):
    f = set()
    for a in v.atoms:
        if a[0] == 'o':
            o = I.obj(st, a[1])
            if o is not None:
                if unstable(I, st, a[1], o):
                    f.add('ordertaint')
    return frozenset(f)


def common_facts(I, st, v, which=('nonempty', 'each')):
    r = None
    for a in v.atoms:
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        f = {x for x in (o.facts if o is not None else ()) if x in which}
        if o is not None and 'nonempty' in which and I.definitely_nonempty(st, AV({a})):
            f.add('nonempty')
        r = f if r is None else r & f
    return frozenset(r or ())


def shape_dim0(I, st, v):
    r = []
    for a in v.atoms:
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        r.append(o.shape[0] if o is not None and o.shape else (len(o.items) if o is not None and o.items is not None else None))
    return r[0] if r and all(x == r[0] for x in r) else None


def exact_items(I, st, v):
    a = v.single()
    if a is not None and a[0] == 'o':
        o = I.obj(st, a[1])
        if o is not None and o.items is not None:
            return o.items
        if o is not None and I.cells and o.t == 'ndarray':
            return cells.items(I, st, I.node0, a[1])
        if o is not None and I.exact and o.t == 'dict' and o.attrs and not o.elem.atoms and not foreign(o) and not any(isinstance(f, tuple) and f[0] in ('maykey', 'keyelem') for f in o.facts):
            return tuple(key_av(I, st, I.node0, k) for k in o.attrs)
        if o is not None and o.t in ('file', 'xmlel'):
            return I.client.file_items(st, I.node0, v)
    return None


def ordered(I, st, e, items, key, reverse):
    """the items in the order of their known values or keys"""
    rev = reverse.single() if reverse is not None else C(False)
    if rev is None or rev[0] != 'c':
        return None
    path = I.iterpath
    ks = []
    try:
        for n, i in enumerate(items):
            I.iterpath = path + (n,)
            v = call1(I, st, key, [i], e) if key is not None and NONE not in key.atoms else i
            ks.append(whole(I, st, v.single()))
        order = sorted(range(len(items)), key=lambda n: ks[n], reverse=bool(rev[2]))
    except (KeyError, TypeError):
        return None
    finally:
        I.iterpath = path
    return tuple(items[n] for n in order)


def exact_set(I, st, e, tag, items, dep):
    """the set of the items: known if they are all constants"""
    cs = []
    for i in items:
        a = i.single()
        if a is None or a[0] != 'c':
            return I.new(st, e, tag, 'set', dep=dep, elem=joinall(items), facts=frozenset({'unordered', 'nonempty'} if items else {'unordered'}))
        if a not in cs and not any(a[2] == c[2] for c in cs):
            cs.append(a)
    return I.new(st, e, tag, 'set', dep=dep, items=tuple(AV({c}, dep) for c in cs), facts=frozenset({'unordered'} | ({'nonempty', 'each'} if cs else set())))


def key_av(I, st, e, k):
    """the value of a known key of a dictionary"""
    if not isinstance(k, tuple):
        return avc(k)
    if not I.exact:
        return AVU
    return I.new(st, e, ('key', k), 'tuple', items=tuple(avc(x) for x in k), shape=(len(k),), facts=frozenset({'nonempty'} if k else ()))


def known(I, st, a):
    """the constant an atom denotes, or raises KeyError; tuples of constants are constants"""
    if a is not None and a[0] == 'c':
        return a[2]
    o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
    if o is not None and o.t == 'tuple' and o.items is not None:
        return tuple(known(I, st, i.single()) for i in o.items)
    raise KeyError


def whole(I, st, a):
    """like known, lists of constants too"""
    if a is not None and a[0] == 'c':
        return a[2]
    o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
    if o is not None and o.t in ('tuple', 'list') and o.items is not None:
        return (tuple if o.t == 'tuple' else list)(whole(I, st, i.single()) for i in o.items)
    raise KeyError


def foreign(o):
    """an object of the caller's or of the state of a model: it may have more items than seen; those of the modules are as they are written"""
    return any(x.startswith(('arg:', 'state:')) for x in o.origin)


def as_const(I, st, a):
    """tuples of constants as constants"""
    if I.exact and a is not None and a[0] == 'o':
        try:
            return C(known(I, st, a))
        except KeyError:
            pass
    return a


def call1(I, st, f, args, node):
    """call a callable value, joining outcomes into st"""
    outs = I.call_value(f, args, {}, st, node)
    return I.merge_outcomes(outs, st)


PLAIN = {'int': int, 'float': float, 'str': str, 'bool': bool, 'complex': complex, 'NoneType': type(None), 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'bytes': bytes}


def has_attr(I, st, a, name):
    if a[0] in ('c', 's', 'iv'):
        t = PLAIN.get(a[1])
        return hasattr(t, name) if t is not None else None
    if a[0] == 'nan':
        return hasattr(float, name)
    o = I.obj(st, a[1]) if a[0] == 'o' else None
    if o is not None and o.t == 'inst' and o.cls is not None:
        return name in o.attrs or I.class_member(o.cls, name) is not None or hasattr(object, name)
    if o is not None and o.t in PLAIN:
        return hasattr(PLAIN[o.t], name)
    return None


def builtin(I, st, e, name, args, kwargs):
    fl = I.flat(args)
    a0 = fl[0] if fl else BOT
    dep = I.alldeps(st, *fl, *kwargs.values())
    if name == 'len':
        return lenav(I, st, a0)
    if name == 'isinstance':
        names = cls_names(I, st, fl[1]) if len(fl) > 1 else None
        return bools([is_instance(I, st, a, names) for a in a0.atoms], a0.dep)
    if name in ('all', 'any'):
        return allany(I, st, a0, name == 'all')
    if name == 'range':
        bound = fl[1] if len(fl) > 1 else a0
        atoms = set()
        for a in bound.atoms:
            d = dim_of(a)
            if isinstance(d, str):
                atoms.add(S('int', 'idx:' + d))
            elif role(a) and role(a).startswith('idx:'):
                atoms.add(S('int', role(a)))
            elif isinstance(d, int) and len(fl) == 1 and d <= 6:
                pass
            else:
                atoms.add(S('int'))
        c = None
        try:
            c = [x.const() for x in fl]
        except KeyError:
            c = None
        if c is not None and all(isinstance(x, int) for x in c):
            try:
                rg = list(range(*c))
            except (TypeError, ValueError):
                rg = None
            if rg is not None and len(rg) <= 8:
                return I.new(st, e, 'range', 'range', dep=dep, items=tuple(avc(x) for x in rg), shape=(len(rg),), facts=frozenset({'nonempty'} if rg else ()))
            return I.new(st, e, 'range', 'range', dep=dep, elem=av(S('int')), facts=frozenset({'nonempty'}))
        sh = None
        facts = set()
        if len(fl) == 1:
            d = dim_of(a0.single()) if a0.single() else None
            sh = (d,)
            if isinstance(d, str):
                facts.add('nonempty')
        return I.new(st, e, 'range', 'range', dep=dep, elem=AV(frozenset(atoms) or {S('int')}, dep), shape=sh, facts=frozenset(facts))
    if name in ('list', 'tuple', 'sorted', 'reversed', 'iter'):
        if not fl:
            return I.new(st, e, name, name, items=())
        if name in ('list', 'tuple', 'reversed', 'iter'):
            I.note_iter(st, e, a0, e)
        t = {'list': 'list', 'tuple': 'tuple', 'sorted': 'list', 'reversed': 'iter', 'iter': 'iter'}[name]
        items = exact_items(I, st, a0)
        d0 = shape_dim0(I, st, a0)
        facts = common_facts(I, st, a0)
        a = a0.single()
        extra = frozenset()
        if a is not None and a[0] == 'o':
            extra = frozenset(f for f in I.obj(st, a[1]).facts if isinstance(f, tuple) and f[0] == 'len') if I.obj(st, a[1]) is not None else frozenset()
        if name == 'sorted':
            key = kwargs.get('key')
            elem = I.iter_elem(a0, st, e)
            if key is not None and NONE not in key.atoms:
                k = call1(I, st, key, [elem], e)
                I.client.sort(st, e, k, key)
            else:
                I.client.sort(st, e, elem, None)
            if items is not None and len(items) > 1:
                cs = [i.single() for i in items]
                if all(c is not None and c[0] == 'c' for c in cs) and key is None and 'reverse' not in kwargs:
                    try:
                        items = tuple(av(c) for c in sorted(cs, key=lambda c: c[2]))
                    except TypeError:
                        items = None
                else:
                    items = ordered(I, st, e, items, key, kwargs.get('reverse')) if I.exact else None
            if items is not None:
                return I.new(st, e, name, t, dep=dep, items=items, facts=facts | extra)
            return I.new(st, e, name, t, dep=dep, elem=elem, shape=(d0,) if d0 is not None else None, facts=facts | extra | {'sorted'})
        facts |= order_facts(I, st, a0) | extra
        if items is not None:
            it = tuple(reversed(items)) if name == 'reversed' else items
            return I.new(st, e, name, t, dep=dep, items=it, shape=(len(it),), facts=facts)
        return I.new(st, e, name, t, dep=dep, elem=I.iter_elem(a0, st, e), shape=(d0,) if d0 is not None else None, facts=facts)
    if name in ('set', 'frozenset'):
        if not fl:
            return I.new(st, e, name, 'set', items=() if I.exact else None, facts=frozenset({'unordered'}))
        f = common_facts(I, st, a0, ('nonempty',))
        if I.exact and exact_items(I, st, a0) is not None:
            return exact_set(I, st, e, name, exact_items(I, st, a0), dep)
        a = a0.single()
        if a is not None and a[0] == 'o':
            o = I.obj(st, a[1])
            for x in (o.facts if o is not None else ()):
                if isinstance(x, tuple) and x[0] == 'distinctlen':
                    f |= {('len', x[1])}
        return I.new(st, e, name, 'set', dep=dep, elem=I.iter_elem(a0, st, e), facts=f | {'unordered'})
    if name == 'dict':
        o = None
        a = a0.single()
        if a is not None and a[0] == 'o':
            o = I.obj(st, a[1])
        if o is not None and o.t == 'dict':
            at = dict(o.attrs)
            at.update({k: v for k, v in kwargs.items() if k != '**'})
            return I.new(st, e, name, 'dict', dep=dep, elem=o.elem, attrs=at, facts=o.facts)
        if not fl:
            return I.new(st, e, name, 'dict', dep=dep, attrs={k: v for k, v in kwargs.items() if k != '**'})
        el = I.iter_elem(a0, st, e)
        k, v = pair_of(I, st, el)
        return I.new(st, e, name, 'dict', dep=dep, elem=v, facts=frozenset({('keyelem', k)}) | order_facts(I, st, a0))
    if name in ('enumerate', 'zip', 'map', 'filter'):
        facts = frozenset()
        if name == 'map' or name == 'filter':
            srcs = fl[1:]
        else:
            srcs = fl
        for s in srcs:
            I.note_iter(st, e, s, e)
            facts |= order_facts(I, st, s)
        if I.exact and not I.loopdepth and name in ('enumerate', 'zip', 'map') and not kwargs and (name != 'enumerate' or len(fl) == 1):
            its = [exact_items(I, st, s) for s in srcs]
            if srcs and all(x is not None and len(x) <= 12 for x in its):
                path = I.iterpath
                out = []
                for n, row in enumerate(zip(*its)):
                    I.iterpath = path + (n,)
                    try:
                        if name == 'map':
                            out.append(call1(I, st, a0, list(row), e))
                        else:
                            out.append(I.new(st, e, 'zipel', 'tuple', items=((avc(n),) if name == 'enumerate' else ()) + tuple(row), dep=dep))
                    finally:
                        I.iterpath = path
                return I.new(st, e, name, 'iter', dep=dep, items=tuple(out), shape=(len(out),), facts=facts | (frozenset({'nonempty'}) if out else frozenset()))
        d0 = shape_dim0(I, st, srcs[0]) if srcs else None
        sh = (d0,) if d0 is not None else None
        elems = [I.iter_elem(s, st, e) for s in srcs]
        if srcs and all(I.definitely_nonempty(st, s) for s in srcs) and name != 'filter':
            facts |= {'nonempty'}
        if any(I.definitely_empty(st, s) for s in srcs):
            facts |= {'emptyiter'}
        if name == 'map':
            r = call1(I, st, a0, elems, e)
            if len(srcs) == 1:
                facts |= common_facts(I, st, srcs[0])
            return I.new(st, e, name, 'iter', dep=dep, elem=r, shape=sh, facts=facts)
        if name == 'filter':
            if NONE not in a0.atoms:
                call1(I, st, a0, elems, e)
            return I.new(st, e, name, 'iter', dep=dep, elem=elems[0] if elems else AVU, facts=facts - {'nonempty'})
        if name == 'enumerate':
            ix = av(S('int', 'idx:' + d0)) if isinstance(d0, str) else av(S('int'))
            if len(fl) > 1 or 'start' in kwargs:
                ix = av(S('int'))
            t = I.new(st, e, 'enumel', 'tuple', items=(ix.withdep(dep), elems[0]), shape=(2,))
            return I.new(st, e, name, 'iter', dep=dep, elem=t, shape=sh, facts=facts | common_facts(I, st, srcs[0], ('each',)))
        t = I.new(st, e, 'zipel', 'tuple', items=tuple(elems), shape=(len(elems),))
        return I.new(st, e, name, 'iter', dep=dep, elem=t, shape=sh, facts=facts)
    if name in ('min', 'max', 'sum', 'next'):
        if name == 'next':
            I.note_iter(st, e, a0, e)
        if len(fl) == 1 or name in ('sum', 'next'):
            el = I.iter_elem(a0, st, e)
            if name == 'next' and any(a[0] == 'o' and I.obj(st, a[1]) is not None and unstable(I, st, a[1], I.obj(st, a[1])) for a in a0.atoms):
                el = picked(el)
            if 'key' in kwargs:
                call1(I, st, kwargs['key'], [el], e)
                I.note_iter(st, e, a0, e)
            its = exact_items(I, st, a0) if I.exact and len(fl) == 1 and name != 'next' and not I.loopdepth else None
            if its and name == 'sum':
                r = its[0]
                for x in its[1:]:
                    r = binop(I, st, e, r, ast.Add(), x)
                return r
            if its and set(kwargs) <= {'key'}:
                r = ordered(I, st, e, its, kwargs.get('key'), avc(False))
                if r is not None and name == 'min':
                    return r[0]
                r = ordered(I, st, e, tuple(reversed(its)), kwargs.get('key'), avc(False)) if r is not None else None
                if r is not None:
                    return r[-1]
            if name == 'sum':
                return AV({S('float')} if any(kind(a) == 'float' for a in el.atoms) else {S('int')} if el.atoms and all(kind(a) in ('int', 'bool') for a in el.atoms) else {S('float')}, dep)
            r = AV(frozenset(x if x[0] != 'c' or len(el.atoms) == 1 else x for x in el.atoms) or {U}, dep)
            return join(r, fl[1]) if name == 'next' and len(fl) > 1 else r
        atoms = set()
        for x in fl:
            atoms |= x.atoms
        cs = [x.single() for x in fl]
        if all(c is not None and c[0] == 'c' for c in cs):
            try:
                return avc((min if name == 'min' else max)(c[2] for c in cs), dep)
            except TypeError:
                pass
        return AV(frozenset(a if a[0] != 'c' else S(a[1]) for a in atoms), dep)
    if name in ('hash', 'str', 'repr') and len(a0.atoms) == 1 and len(fl) == 1:
        a = a0.single()
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        m = I.class_member(o.cls, f'__{name}__') if o is not None and o.t == 'inst' and o.cls is not None else None
        if m is not None and getattr(m, 'kind', '') == 'method':
            return I.merge_outcomes(I.call_repo(m, [a0], {}, st, e), st)
    if name in ('int', 'float', 'bool', 'str', 'abs', 'round', 'complex', 'repr', 'hash', 'id', 'ord', 'chr', 'divmod', 'pow'):
        out = set()
        a = a0.single()
        if I.cells and name in ('int', 'float') and a is not None and (a[0] == 'c' and isinstance(a[2], str) and not (I.tokens is not None and I.tokens.has(a[2])) or a == NONE) and len(fl) == 1 and not kwargs:
            try:
                (int if name == 'int' else float)(a[2])
            except (ValueError, TypeError) as ex:
                from .interp import Unreachable
                I.collect(st, (type(ex).__name__,), AVU, e)
                raise Unreachable
        if name == 'str' and a is not None and a[0] == 'o' and len(fl) == 1:
            o = I.obj(st, a[1])
            m = o.items[0].single() if o is not None and o.t == 'exc' and o.items and len(o.items) == 1 else None
            if m is not None and m[0] == 'c' and m[1] == 'str':
                return AV({m}, dep)
        if name == 'round' and len(fl) > 1 and fl[1].atoms != {NONE} and I.tokens is None:
            # to digits: a number of the same kind
            k = dims.integer(fl[1])
            for a in a0.atoms or {NONE}:
                out.add(C(round(a[2], k)) if a[0] == 'c' and k is not None and type(a[2]) in (int, float) else S(kind(a)) if kind(a) in NUMK else U)
            return AV(frozenset(out), dep)
        for a in a0.atoms or {NONE}:
            out.add(convert(I, st, name, a))
        return AV(frozenset(out), dep)
    if name == 'format' and I.tokens is not None and fl:
        spec = fl[1].single() if len(fl) > 1 else C('')
        text = spelled_all(I, st, [('', (0, spec[2], None))], fl) if spec is not None and spec[0] == 'c' and isinstance(spec[2], str) else None
        return avc(text, dep) if text is not None else AV({S('str')}, dep)
    if name == 'hasattr':
        at = fl[1].single() if len(fl) > 1 else None
        if at is not None and at[0] == 'c' and a0.atoms and all(a[0] == 'fn' for a in a0.atoms) and at[2] in ('_instance_generator', '_random_output', '_aliases'):
            return bools([bool(a[1].marks.get(at[2][1:])) for a in a0.atoms], dep)
        if at is not None and at[0] == 'c' and isinstance(at[2], str):
            return bools([has_attr(I, st, a, at[2]) for a in a0.atoms], dep)
        return AV({S('bool')}, dep)
    if name == 'getattr':
        try:
            attr = fl[1].const()
        except (KeyError, IndexError):
            attr = None
        if isinstance(attr, str):
            return I.merge_outcomes(I.getattr_multi(e, a0, attr, st), st)
        out = set()
        for a in a0.atoms:
            if a[0] == 'o':
                out.add(('m', a[1], '?'))
            elif a[0] == 'ext':
                out.add(('ext', a[1] + '.?'))
            else:
                out.add(U)
        return AV(frozenset(out), dep)
    if name == 'setattr':
        for a in a0.atoms:
            if a[0] == 'o':
                I.client.setattr(st, e, a[1], fl[1].single()[2] if len(fl) > 1 and fl[1].single() and fl[1].single()[0] == 'c' else '?', fl[2] if len(fl) > 2 else AVU)
            elif a[0] in ('cls', 'fn', 'ext'):
                I.client.store_global(st, e, f'setattr({a[1]})')
        return avc(None)
    if name == 'callable':
        out = []
        for a in a0.atoms:
            if a[0] in ('fn', 'bm', 'clo', 'cls', 'b', 'm', 'ms', 'mx', 'partial'):
                out.append(True)
            elif a[0] in ('c', 's', 'iv', 'nan'):
                out.append(False)
            elif a[0] == 'o':
                o = I.obj(st, a[1])
                out.append(None if o is None or o.t in ('any', 'inst') else o.t == 'callable')
            else:
                out.append(None)
        return bools(out, dep)
    if name == 'type':
        out = set()
        for a in a0.atoms:
            if a[0] == 'o':
                o = I.obj(st, a[1])
                out.add(('cls', o.cls) if o is not None and o.t == 'inst' and o.cls else ('b', o.t) if o is not None and o.t in ('list', 'dict', 'tuple', 'set') else ('ext', 'numpy.ndarray') if o is not None and o.t == 'ndarray' else U)
            elif kind(a):
                out.add(('b', kind(a)))
            else:
                out.add(U)
        return AV(frozenset(out), EMPTY)
    if name == 'open':
        return I.new(st, e, 'open', 'file', dep=dep)
    if name == 'dir':
        return I.new(st, e, 'dir', 'list', dep=dep, elem=AV({S('str')}, dep))
    if name in ('print', 'slice', 'super', 'vars'):
        return AV({U} if name != 'print' else {NONE}, dep)
    if name == 'numpy.ndarray':
        return arr(I, st, e, 'nd', av(S('float')), None, dep)
    I.unmodelled['builtins.' + name] = I.unmodelled.get('builtins.' + name, 0) + 1
    return AV({U}, dep)


def pair_of(I, st, v):
    k, w = [], []
    for a in v.atoms:
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        if o is not None and o.items is not None and len(o.items) == 2:
            k.append(o.items[0])
            w.append(o.items[1])
        else:
            k.append(AVU)
            w.append(AVU)
    return joinall(k), joinall(w)


def convert(I, st, name, a):
    if I.tokens is not None:
        t = I.tokens
        if name in ('str', 'repr') and ((role(a) or '').startswith('cell:') or a[0] == 'iv'):
            return C(t.text_of(a))
        if name == 'str' and role(a) == 'lost':
            return C(LOST)
        if a[0] == 'c' and t.has(a[2]):
            if name == 'str':
                return a
            if name == 'float':
                return t.number(a[2]) or U
            return U
        if name in ('round', 'int') and (role(a) or '').startswith('cell:'):
            t.lose(name)
            return S('int' if name == 'int' else 'float', 'lost')
    if name in ('int', 'float', 'bool', 'str', 'abs', 'round') and a[0] == 'c' and a[2] is not None:
        try:
            return C({'int': int, 'float': float, 'bool': bool, 'str': str, 'abs': abs, 'round': round}[name](a[2]))
        except Exception:
            return U
    if name == 'float':
        if a[0] == 'iv':
            return ('iv', 'float', a[2], a[3])
        if a == NAN:
            return NAN
        if a[0] == 's' and a[1] in NUMK:
            return S('float', a[2] if len(a) > 2 else None)
        return S('float')
    if name == 'int':
        if a[0] == 'iv' and a[1] in ('int', 'npint'):
            return ('iv', 'int', a[2], a[3])
        if a[0] == 's' and a[1] in ('int', 'npint', 'bool'):
            return S('int', role(a))
        return S('int')
    if name == 'bool':
        t = I.truth_atom(st, a)
        return C(t) if t is not None else S('bool')
    if name in ('str', 'repr', 'chr'):
        if name == 'str' and a[0] == 's' and a[1] == 'str':
            return a
        return S('str')
    if name in ('hash', 'id', 'ord'):
        return S('int')
    if name == 'abs':
        if a[0] == 'iv':
            if a[2] >= 0:
                return a
            if a[3] <= 0:
                return neg(a)
        if a == NAN:
            return NAN
        return S(kind(a)) if kind(a) in NUMK else U
    if name == 'round':
        return S('int') if kind(a) else U
    return U


def token_text(I, st, a, part):
    """the text an f-string has for a token or the cell of a matrix; None: as for any other value"""
    spec = part.format_spec
    text = ''.join(x.value for x in spec.values if isinstance(x, ast.Constant)) if spec is not None else ''
    return spelled(I, st, a, text, chr(part.conversion) if part.conversion > 0 else None)


PRECISE = re.compile(r'[.](1[7-9]|[2-9][0-9])[gG]|[.](1[6-9]|[2-9][0-9])[eE]')     # as many digits as tell all numbers apart


def spelled(I, st, a, spec, conversion=None):
    """the text of a value formatted with a specification; None: not a token"""
    t = I.tokens
    number = (role(a) or '').startswith('cell:') or role(a) == 'lost'
    if not number and not (a[0] == 'c' and t.has(a[2])):
        return None
    if conversion == 'r' and not number:
        return t.lose('repr')
    if spec in ('', 's') or number and PRECISE.fullmatch(spec):
        return convert(I, st, 'str', a)[2]
    return t.lose(f'format {spec}') # a precision or a width


def spelled_all(I, st, parts, args):
    """the text of literal parts and fields: [literal, (index, spec, conversion) or None]; None: unknown"""
    out = []
    for literal, field in parts:
        out.append(literal)
        if field is None:
            continue
        k, spec, conversion = field
        a = args[k].single() if k < len(args) else None
        if a is None:
            return None
        t = spelled(I, st, a, spec, conversion)
        if t is None:
            if a[0] != 'c':
                return None
            x = {'r': repr, 's': str, 'a': ascii}[conversion](a[2]) if conversion else a[2]
            try:
                t = format(x, spec)
            except (TypeError, ValueError):
                return None
        out.append(t)
    return ''.join(out)


def format_fields(text):
    """the parts of a text for str.format"""
    out, n = [], 0
    for literal, name, spec, conversion in string.Formatter().parse(text):
        if name is None:
            out.append((literal, None))
            continue
        if name and not name.isdigit() or '{' in (spec or ''):
            return None
        out.append((literal, (int(name) if name else n, spec or '', conversion)))
        n += 1
    return out


def percent_fields(text):
    """the parts of a text for the operator %"""
    out, pos, n = [], 0, 0
    for m in re.finditer(r'%(%|([.][0-9]+)?([a-zA-Z])|.?)', text):
        if m.group(1) == '%':
            out.append((text[pos:m.start()] + '%', None))
        elif m.group(3) is None:
            return None
        else:
            k = m.group(3)
            out.append((text[pos:m.start()], (n, (m.group(2) or '') + (k if k not in 'sra' else ''), k if k in 'sra' else None)))
            n += 1
        pos = m.end()
    return out + [(text[pos:], None)]


# ---------------------------------------------------------------- methods
def method(I, st, e, oid, name, args, kwargs):
    o = I.obj(st, oid)
    fl = I.flat(args)
    a0 = fl[0] if fl else BOT
    selfav = av(('o', oid))
    dep = I.alldeps(st, selfav, *fl, *kwargs.values())
    if o is None:
        return AV({U}, dep)
    t = o.t
    if t == 'ndarray':
        r = nd_method(I, st, e, oid, o, name, fl, kwargs, dep)
        if r is not None:
            return r
    elif t in ('list', 'iter', 'tuple', 'set', 'range'):
        r = seq_method(I, st, e, oid, o, name, fl, kwargs, dep)
        if r is not None:
            return r
    elif t in ('dict', 'instdict'):
        r = dict_method(I, st, e, oid, o, name, fl, kwargs, dep)
        if r is not None:
            return r
    elif t == 'rng':
        if name in ('seed', 'set_state'):
            I.mutate(st, e, oid, name, BOT, dep)
            return avc(None)
        if name in ('shuffle',):
            for a in a0.atoms:
                if a[0] == 'o':
                    I.mutate(st, e, a[1], 'shuffle', BOT, dep)
            return avc(None)
        if name in ('rand', 'random', 'random_sample', 'uniform', 'normal', 'beta', 'gamma', 'exponential'):
            at = {'random': 0, 'random_sample': 0, 'exponential': 1}.get(name, 2)
            size = None if name == 'rand' else kwargs['size'] if 'size' in kwargs else fl[at] if len(fl) > at else None
            if name == 'rand' and fl or size is not None and NONE not in size.atoms:
                return arr(I, st, e, 'rng', av(S('float')), tuple(dims.integer(x) for x in fl) if name == 'rand' else dims.reps(I, st, size), dep)
            return AV({S('float')}, dep)
        if name == 'choice':
            el = I.iter_elem(a0, st, e) if a0.atoms and all(a[0] == 'o' for a in a0.atoms) else av(S('int', ('idx:' + dim_of(a0.single())) if a0.single() and isinstance(dim_of(a0.single()), str) else None))
            if 'size' in kwargs and NONE not in kwargs['size'].atoms or len(fl) > 1:
                return arr(I, st, e, 'rng', el, dims.reps(I, st, kwargs['size'] if 'size' in kwargs else fl[1]), dep)
            return AV(el.atoms, dep | el.dep)
        if name == 'permutation':
            el = I.iter_elem(a0, st, e) if a0.atoms and all(a[0] == 'o' for a in a0.atoms) else av(S('int'))
            s = dims.shape_of(I, st, a0)
            return arr(I, st, e, 'rng', el, s if s else (dims.integer(a0),) if s == () else None, dep)
        if name == 'randint':
            if 'size' in kwargs or len(fl) > 2:
                return arr(I, st, e, 'rng', av(S('int')), None, dep)
            return AV({S('int')}, dep)
        return AV({U}, dep)
    elif t in ('graph', 'multigraph'):
        if name in ('nodes', 'edges'):
            if name == 'nodes':
                el = o.elem if o.elem.atoms else AV({S('str')}, o.dep)
                if 'data' in kwargs and kwargs['data'] != avc(False) or fl:
                    d = kwargs.get('data', a0)
                    x = av(('o', I.sub_any(st, e, oid, o))) if d == avc(True) else (o.attrs.get(('nodedata', d.single()[2])) if d.single() and d.single()[0] == 'c' else None) or AVU
                    el = I.new(st, e, 'nodeel', 'tuple', items=(el, x), dep=o.dep)
            else:
                n = o.elem if o.elem.atoms else AV({S('str')}, o.dep)
                d = kwargs.get('data', a0 if fl else None)
                if d is not None and d != avc(False):
                    c = d.single()
                    x = AVU
                    if c is not None and c[0] == 'c' and ('edgedata', c[2]) in o.attrs:
                        x = o.attrs[('edgedata', c[2])]
                    el = I.new(st, e, 'edgeel', 'tuple', items=(n, n, x), dep=o.dep)
                else:
                    el = I.new(st, e, 'edgeel', 'tuple', items=(n, n), dep=o.dep)
            f = o.facts & {'nonempty'}
            lf = frozenset(f2 for f2 in o.facts if isinstance(f2, tuple) and f2[0] == 'len' and name == 'nodes')
            ef = frozenset({'each'}) if name == 'edges' and 'eachedge' in o.facts or name == 'nodes' and 'eachnode' in o.facts else frozenset()
            return I.new(st, e, name, 'iter', dep=o.dep, elem=el, facts=f | lf | ef)
        if name in ('add_node', 'add_nodes_from'):
            el = a0 if name == 'add_node' else I.iter_elem(a0, st, e)
            ob = I.obj(st, oid)
            st.heap[oid] = ob.replace(elem=join(ob.elem, el))
            I.mutate(st, e, oid, name, BOT, dep)
            return avc(None)
        if name in ('copy', 'subgraph', 'edge_subgraph', 'reverse', 'to_undirected', 'to_directed'):
            r = I.new(st, e, name, 'graph', dep=dep, elem=o.elem)
            opt = kwargs.get({'reverse': 'copy'}.get(name, 'as_view'), (fl[0] if fl else None) if name in ('copy', 'reverse') else None)
            if 'subgraph' in name or opt == avc(name != 'reverse'):
                # a view: the attributes of the nodes and edges are those of the graph itself
                for x in r.oids():
                    st.heap[x] = I.obj(st, x).replace(base=frozenset({(oid, 'def')}))
            return r
        if name in PYMUT():
            I.mutate(st, e, oid, name, BOT, dep)
            return avc(None)
        return AV({U}, dep)
    elif t == 'file':
        if name in ('read', 'readline'):
            return AV({S('str')}, dep)
        if name == 'readlines':
            return I.new(st, e, 'readlines', 'list', dep=dep, elem=AV({S('str')}, dep))
        return AV({U}, dep)
    elif t == 'any':
        if name in ('append', 'sort', 'reverse', 'clear', 'extend', 'insert', 'remove', 'pop', 'update', 'setdefault', 'fill', 'add') and o.origin:
            I.mutate(st, e, oid, name, a0, dep, certain=True)
            return AV({U}, dep)
        if name in ('copy', 'tolist', 'todense', 'toarray', 'astype', 'flatten'):
            if name == 'copy':
                return I.new(st, e, 'copy', 'any', dep=dep)
            return AV({U}, dep)
        if name == 'to_numpy':
            return arr(I, st, e, 'tonp', av(S('float')), o.shape, dep)
    if t in ('df', 'series', 'sparse'):
        if name in ('to_numpy', 'todense', 'toarray'):
            sh = o.shape
            base = EMPTY
            if name == 'to_numpy' and kwargs.get('copy') != avc(True):
                base = frozenset({(oid, 'maybe')})
            return arr(I, st, e, name, o.elem if o.elem.atoms else av(S('float')), sh, dep, base=base, facts=o.facts)
        if name in ('copy',):
            return I.new(st, e, 'copy', t, dep=dep, elem=o.elem, shape=o.shape)
    if name == 'copy':
        return I.new(st, e, 'copy', t, dep=dep, elem=o.elem, items=o.items)
    if name in PYMUT() and t not in ('inst', 'exc'):
        I.mutate(st, e, oid, name, a0, dep, certain=t != 'any')
    I.unmodelled[f'<{t}>.{name}'] = I.unmodelled.get(f'<{t}>.{name}', 0) + 1
    return AV({U}, dep)


def PYMUT():
    from .interp import PY_MUTATORS
    return PY_MUTATORS


def nd_method(I, st, e, oid, o, name, fl, kwargs, dep):
    selfav = av(('o', oid))
    r = cells.method(I, st, e, oid, name, fl, kwargs, dep) if I.cells else None
    if r is not None:
        return r
    if name in ('copy', 'flatten'):
        return copy_arr(I, st, e, name, oid, o, o.shape if name == 'copy' else (None,))
    if name == 'astype':
        cp = kwargs.get('copy')
        el = I.elem_of(st, oid)
        ty = fl[0] if fl else AVU
        k = ty.single()
        if k == ('b', 'float'):
            el = AV(frozenset(convert(I, st, 'float', a) if a[0] != 'u' else U for a in el.atoms), el.dep)
        elif k == ('b', 'int'):
            el = AV(frozenset(convert(I, st, 'int', a) if a[0] != 'u' else U for a in el.atoms), el.dep)
        elif k == ('b', 'bool'):
            el = av(S('bool'))
        facts = o.facts & {'each', 'nonempty'} | frozenset(f for f in o.facts if isinstance(f, tuple) and f[0] in ('rowsum', 'total', 'first', 'last'))
        base = EMPTY
        if cp is not None and cp == avc(False):
            base = frozenset({(oid, 'def' if keeps_kind(I, st, oid, ty) else 'maybe')})
        return arr(I, st, e, name, el, o.shape, dep, base=base, facts=facts)
    if name in ('tolist',):
        if o.shape is not None and len(o.shape) == 1:
            return I.new(st, e, name, 'list', dep=dep, elem=I.elem_of(st, oid), shape=o.shape, facts=o.facts & {'each', 'nonempty'})
        inner = I.new(st, e, 'tolist_in', 'list', dep=dep, elem=I.elem_of(st, oid))
        el = inner if o.shape is not None else AV(inner.atoms | I.elem_of(st, oid).atoms, dep)
        return I.new(st, e, name, 'list', dep=dep, elem=el, shape=o.shape[:1] if o.shape else None)
    if name in ('item', 'max', 'min', 'sum', 'mean', 'prod', 'std', 'var', 'trace', 'argmax', 'argmin', 'ptp'):
        dotted = 'numpy.' + name
        if name == 'item':
            el = I.elem_of(st, oid)
            return AV(el.atoms, dep)
        return ext_call(I, st, e, dotted, [selfav] + fl, kwargs)
    if name in ('any', 'all', 'dot', 'clip', 'round', 'cumsum', 'cumprod', 'conj', 'conjugate', 'repeat', 'argsort', 'nonzero', 'take', 'diagonal', 'squeeze', 'ravel', 'reshape', 'transpose', 'swapaxes'):
        return ext_call(I, st, e, 'numpy.' + name, [selfav] + fl, kwargs)
    if name in ('tobytes', 'tostring', 'dumps'):
        return AV({S('bytes')}, dep)
    if name == 'view':
        return view(I, st, e, 'view', oid, o, o.shape, 'def')
    if name in ('sort', 'fill', 'itemset', 'resize', 'put', 'partition', 'setflags'):
        I.mutate(st, e, oid, name, fl[0] if fl and name == 'fill' else BOT, dep)
        return avc(None)
    return None


def edited(I, st, o, name, fl):
    """(the items, the result) of a method that changes a list or set of known items"""
    its = list(o.items)
    none = avc(None)
    if name == 'clear':
        return (), none
    if name == 'reverse':
        return tuple(reversed(its)), none
    if name in ('remove', 'discard'):
        try:
            x = whole(I, st, fl[0].single())
            vs = [whole(I, st, i.single()) for i in its]
        except (KeyError, IndexError):
            return None
        if x not in vs:
            return (tuple(its), none) if name == 'discard' else None
        del its[vs.index(x)]
        return tuple(its), none
    if o.t == 'set':
        return ((), its[0]) if name == 'pop' and len(its) == 1 else None
    if name == 'popleft' or name == 'pop' and len(fl) <= 1:
        n = C(0) if name == 'popleft' else fl[0].single() if fl else C(-1)
        if n is None or n[0] != 'c' or type(n[2]) is not int or not -len(its) <= n[2] < len(its):
            return None
        v = its.pop(n[2])
        return tuple(its), v
    if name == 'insert' and len(fl) == 2:
        n = fl[0].single()
        if n is None or n[0] != 'c' or type(n[2]) is not int:
            return None
        its.insert(n[2], fl[1])
        return tuple(its), none
    return None


def seq_method(I, st, e, oid, o, name, fl, kwargs, dep):
    a0 = fl[0] if fl else BOT
    t = o.t
    if name in ('append', 'add', 'appendleft'):
        I.mutate(st, e, oid, 'append' if name == 'append' else name, a0, dep)
        return avc(None)
    if name in ('extend', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update'):
        I.note_iter(st, e, a0, e)
        el = I.iter_elem(a0, st, e) if name in ('extend', 'update') else BOT
        if name == 'extend' and 'ordertaint' in order_facts(I, st, a0):
            ob = I.obj(st, oid)
            st.heap[oid] = ob.replace(facts=ob.facts | {'ordertaint'})
        if I.exact and name in ('extend', 'update') and not I.loopdepth and o.items is not None and exact_items(I, st, a0) is not None:
            for x in exact_items(I, st, a0):
                I.mutate(st, e, oid, 'append' if name == 'extend' else 'add', x, dep)
            return avc(None)
        I.mutate(st, e, oid, name, el, dep)
        return avc(None)
    if I.exact and not I.loopdepth and o.items is not None and name in ('insert', 'remove', 'discard', 'clear', 'reverse', 'pop', 'popleft') and not kwargs:
        r = edited(I, st, o, name, fl)
        if r is not None:
            items, value = r
            if t == 'set' and name == 'pop':
                I.note_iter(st, e, av(('o', oid)), e)
            I.mutate(st, e, oid, name, fl[1] if name == 'insert' else BOT, dep)
            ob = I.obj(st, oid)
            st.heap[oid] = ob.replace(items=items, elem=BOT, shape=(len(items),), facts=(ob.facts - {'nonempty', 'emptyiter'}) | ({'nonempty'} if items else set()))
            return value.withdep(dep)
    if name == 'insert':
        I.mutate(st, e, oid, name, fl[1] if len(fl) > 1 else AVU, dep)
        return avc(None)
    if name in ('remove', 'discard', 'clear', 'reverse'):
        I.mutate(st, e, oid, name, BOT, dep)
        return avc(None)
    if name == 'sort':
        el = I.elem_of(st, oid)
        key = kwargs.get('key')
        if key is not None and NONE not in key.atoms:
            k = call1(I, st, key, [el], e)
            I.client.sort(st, e, k, key)
        else:
            I.client.sort(st, e, el, None)
        its = I.obj(st, oid).items
        its = ordered(I, st, e, its, key, kwargs.get('reverse')) if I.exact and its is not None and not I.loopdepth else None
        I.mutate(st, e, oid, name, BOT, dep)
        ob = I.obj(st, oid)
        st.heap[oid] = ob.replace(facts=(ob.facts - {'ordertaint'}) | {'sorted'}, **({'items': its} if its is not None else {}))
        return avc(None)
    if name in ('pop', 'popleft'):
        el = I.elem_of(st, oid)
        if t == 'set':
            I.note_iter(st, e, av(('o', oid)), e)
            el = picked(el)
        I.mutate(st, e, oid, 'pop', BOT, dep)
        return AV(el.atoms or {U}, el.dep | dep)
    if name == 'copy':
        return I.new(st, e, 'copy', t, dep=o.dep, elem=I.elem_of(st, oid) if o.items is None else BOT, items=o.items, shape=o.shape, facts=o.facts)
    if name == 'index':
        el = I.elem_of(st, oid)
        rs = {role(a) for a in el.atoms}
        r = rs.pop() if len(rs) == 1 else None
        if I.exact and o.items is not None and a0.single() is not None and a0.single()[0] == 'c' and all(i.single() is not None and i.single()[0] == 'c' for i in o.items):
            at = [n for n, i in enumerate(o.items) if i.single()[2] == a0.single()[2]]
            if not at:
                I.collect(st, ('ValueError',), AVU, e)
                from .interp import Unreachable
                raise Unreachable
            return avc(at[0], dep)
        if I.exact and o.items is not None and len(fl) == 1:
            try:
                x = whole(I, st, a0.single())
                vs = [whole(I, st, i.single()) for i in o.items]
                if x in vs:
                    return avc(vs.index(x), dep)
            except KeyError:
                pass
        if I.exact and a0.atoms and all(contains(I, st, x, o, oid) is False for x in a0.atoms):
            I.collect(st, ('ValueError',), AVU, e)
            from .interp import Unreachable
            raise Unreachable
        return AV({S('int', 'idx:' + r[6:]) if isinstance(r, str) and r.startswith('label:') and 'alllabels' in o.facts else S('int')}, dep)
    if name == '__getitem__' and fl:
        return I.subscript(e, av(('o', oid)), a0, st)
    if name == 'count':
        return AV({S('int')}, dep)
    if I.exact and t == 'set' and name in ('issubset', 'issuperset', 'isdisjoint', 'union', 'intersection', 'difference') and len(fl) == 1:
        x, y = exact_items(I, st, av(('o', oid))), exact_items(I, st, fl[0])
        if x is not None and y is not None:
            try:
                x, y = [known(I, st, i.single()) for i in x], [known(I, st, i.single()) for i in y]
                r = getattr(set(x), name)(y)
                return avc(r, dep) if isinstance(r, bool) else exact_set(I, st, e, name, tuple(avc(v) for v in x + y if v in r), dep)
            except (KeyError, TypeError):
                pass
    if t == 'set' and name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        el = I.elem_of(st, oid)
        if name in ('union', 'symmetric_difference'):
            for x in fl:
                el = join(el, I.iter_elem(x, st, e))
        return I.new(st, e, name, 'set', dep=dep, elem=el, facts=frozenset({'unordered'}))
    if t == 'set' and name in ('issubset', 'issuperset', 'isdisjoint'):
        return AV({S('bool')}, dep)
    return None


def dict_method(I, st, e, oid, o, name, fl, kwargs, dep):
    a0 = fl[0] if fl else BOT
    keyel = next((f[1] for f in o.facts if isinstance(f, tuple) and f[0] == 'keyelem'), BOT)
    keys = joinall([key_av(I, st, e, k) for k in o.attrs] + [keyel])
    vals = joinall(list(o.attrs.values()) + [o.elem])
    f = o.facts & {'nonempty', 'each', 'ordertaint'}
    if I.definitely_nonempty(st, av(('o', oid))):
        f |= {'nonempty'}
    exact = o.t == 'dict' and not o.elem.atoms and not keyel.atoms and not (foreign(o) if I.exact else o.origin) and not any(isinstance(x, tuple) and x[0] == 'maykey' for x in o.facts)
    if name == 'keys':
        if exact and (I.exact or all(not isinstance(k, tuple) for k in o.attrs)):
            return I.new(st, e, name, 'iter', dep=dep, items=tuple(key_av(I, st, e, k) for k in o.attrs))
        return I.new(st, e, name, 'iter', dep=dep, elem=keys if keys.atoms else AV({U}, dep), facts=f)
    if name == 'values':
        if exact:
            return I.new(st, e, name, 'iter', dep=dep, items=tuple(o.attrs.values()))
        return I.new(st, e, name, 'iter', dep=dep, elem=vals if vals.atoms else AV({U}, dep), facts=f)
    if name == 'items':
        if exact and (I.exact or all(not isinstance(k, tuple) for k in o.attrs)):
            its = tuple(I.new(st, e, ('item', k), 'tuple', items=(key_av(I, st, e, k), v)) for k, v in o.attrs.items())
            return I.new(st, e, name, 'iter', dep=dep, items=its)
        t = I.new(st, e, 'itemel', 'tuple', items=(keys if keys.atoms else AV({U}, dep), vals if vals.atoms else AV({U}, dep)))
        return I.new(st, e, name, 'iter', dep=dep, elem=t, facts=f)
    if name in ('get', 'setdefault', 'pop'):
        k = as_const(I, st, a0.single())
        d = fl[1] if len(fl) > 1 else avc(None)
        if k is not None and k[0] == 'c' and k[2] in o.attrs and ('maykey', k[2]) not in o.facts:
            r = o.attrs[k[2]]
        elif exact and k is not None and k[0] == 'c':
            r = d
        else:
            r = join(vals, d)
        if name == 'setdefault':
            I.mutate(st, e, oid, 'setdefault', d, dep, key=k)
        elif name == 'pop':
            I.mutate(st, e, oid, 'pop', BOT, dep)
        return AV(r.atoms or {U}, r.dep | dep)
    if name == 'update':
        src = None
        a = a0.single()
        if a is not None and a[0] == 'o':
            src = I.obj(st, a[1])
        I.mutate(st, e, oid, 'update', src.elem if src is not None and src.t == 'dict' else AVU if fl else BOT, dep)
        ob = I.obj(st, oid)
        at = dict(ob.attrs)
        if src is not None and src.t == 'dict':
            at.update(src.attrs)
        at.update({k: v for k, v in kwargs.items() if k != '**'})
        st.heap[oid] = ob.replace(attrs=at)
        return avc(None)
    if name == 'clear':
        I.mutate(st, e, oid, 'clear', BOT, dep)
        return avc(None)
    if name == 'copy':
        return I.new(st, e, 'copy', 'dict', dep=dep, elem=o.elem, attrs=dict(o.attrs), facts=o.facts)
    return None


def str_method(I, st, e, a, name, args, kwargs):
    fl = I.flat(args)
    dep = I.alldeps(st, *fl)
    if I.tokens is not None and a[0] == 'c':
        cs = [x.single()[2] if x.single() is not None and x.single()[0] == 'c' else None for x in fl]
        if name == 'join' and fl:
            its = exact_items(I, st, fl[0])
            cs = [i.single()[2] if i.single() is not None and i.single()[0] == 'c' else None for i in its] if its is not None else [None]
            if all(isinstance(c, str) for c in cs):
                return avc(a[2].join(cs), dep)
            return AV({S('str')}, dep)
        if name == 'format' and not kwargs:
            try:
                fields = format_fields(a[2])
            except ValueError:
                fields = None
            text = spelled_all(I, st, fields, fl) if fields is not None else None
            return avc(text, dep) if text is not None else AV({S('str')}, dep)
        if I.tokens.has(a[2]):
            r = I.tokens.method(a[2], name, cs) if None not in cs or name not in ('replace', 'split', 'startswith', 'endswith') else U
            if r is not None:
                return AV({r}, dep)
    if a[0] == 'c':
        cs = []
        ok = True
        for x in fl:
            c = x.single()
            if c is None:
                ok = False
                break
            if c[0] == 'c':
                cs.append(c[2])
            elif c[0] == 'o':
                o = I.obj(st, c[1])
                if o is not None and o.items is not None and all(i.single() is not None and i.single()[0] == 'c' for i in o.items):
                    cs.append([i.single()[2] for i in o.items])
                else:
                    ok = False
                    break
            else:
                ok = False
                break
        if ok and not kwargs:
            try:
                r = getattr(a[2], name)(*cs)
                if isinstance(r, (str, int, bool)):
                    return avc(r, dep)
                if isinstance(r, (list, tuple)):
                    return I.new(st, e, 'strm', 'list' if isinstance(r, list) else 'tuple', dep=dep, items=tuple(avc(x) for x in r))
            except Exception:
                return AV({S('str')}, dep)
    if name == 'join' and fl:
        I.note_iter(st, e, fl[0], e)
        if getattr(I.client, 'lossy', False) and a[0] == 'c' and a[2] == '':
            # elements cannot be told apart any more
            dep = frozenset('len:' + x if x.startswith('arg:') else x for x in I.alldeps(st, fl[0]) | dep)
        return AV({S('str', 'ordertaint') if order_facts(I, st, fl[0]) else S('str')}, dep)
    if name in ('startswith', 'endswith', 'isdigit', 'isspace', 'isalpha', 'isnumeric', 'isidentifier'):
        return AV({S('bool')}, dep)
    if name in ('find', 'index', 'count', 'rfind', 'rindex'):
        return AV({S('int')}, dep)
    if name in ('split', 'rsplit', 'splitlines'):
        return I.new(st, e, 'split', 'list', dep=dep, elem=AV({S('str')}, dep))
    if name in ('partition', 'rpartition'):
        x = AV({S('str')}, dep)
        return I.new(st, e, 'part', 'tuple', dep=dep, items=(x, x, x))
    if name == 'encode':
        return AV({S('bytes')}, dep)
    if name in ('strip', 'lstrip', 'rstrip') and a[0] == 's' and not fl:
        if role(a) in ('blank', 'nonblank') or role(a) and str(role(a)).startswith(('nb', 'label:', 'other')):
            return AV({S('str', 'blank' if role(a) == 'blank' else 'nonblank')}, dep)
        return AV({S('str', 'stripped')}, dep)
    return AV({S('str')}, dep)


def scalar_method(I, st, e, a, name, args, kwargs):
    dep = I.alldeps(st, *I.flat(args))
    if name in ('item', 'copy', 'astype', 'conjugate'):
        return AV({a}, dep)
    if name in ('is_integer', 'any', 'all'):
        return AV({S('bool')}, dep)
    if name == 'tolist':
        return AV({a}, dep)
    return AV({U}, dep)


# ---------------------------------------------------------------- external calls
ELEMENTWISE = {'abs', 'absolute', 'log', 'log2', 'log10', 'log1p', 'exp', 'sqrt', 'sign', 'cos', 'sin', 'tan', 'fix', 'floor', 'ceil', 'rint', 'round', 'around', 'isnan', 'isinf', 'isfinite', 'isreal', 'iscomplex',
               'conjugate', 'conj', 'square', 'negative', 'logical_not', 'sort', 'cumsum', 'cumprod', 'argsort', 'copy', 'nan_to_num', 'angle', 'reciprocal', 'trunc', 'invert', 'tril', 'triu', 'float64'}
BINARY = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'mod', 'remainder', 'power', 'minimum', 'maximum', 'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'isclose', 'fmod', 'fmax', 'fmin', 'hypot'}
REDUCE = {'sum', 'prod', 'mean', 'max', 'min', 'amax', 'amin', 'nansum', 'nanmax', 'nanmin', 'nanmean', 'all', 'any', 'argmax', 'argmin', 'std', 'var', 'median', 'count_nonzero', 'average', 'ptp', 'nanargmax'}
VIEWS_DEF = {'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'fliplr', 'flipud', 'flip', 'rot90', 'squeeze', 'atleast_1d', 'atleast_2d', 'asarray', 'asanyarray', 'ascontiguousarray', 'asmatrix', 'require'}
VIEWS_MAYBE = {'ravel', 'reshape', 'real', 'imag', 'diag', 'diagonal', 'broadcast_to'}
FRESHARR = {'dot', 'matmul', 'inner', 'outer', 'kron', 'tensordot', 'einsum', 'concatenate', 'hstack', 'vstack', 'stack', 'append', 'delete', 'insert', 'tile', 'repeat', 'take', 'unique', 'union1d', 'intersect1d', 'setdiff1d', 'setxor1d', 'roll',
            'interp', 'clip', 'choose', 'compress', 'diff', 'gradient', 'bincount', 'digitize', 'histogram', 'convolve', 'correlate', 'cov', 'corrcoef', 'column_stack', 'dstack', 'block', 'array', 'apply_along_axis', 'fromiter', 'searchsorted', 'flatnonzero', 'argwhere',
            'multi_dot', 'matrix_power', 'solve', 'inv', 'pinv', 'full_like', 'ediff1d', 'diagflat', 'vander', 'cross', 'nonzero', 'lexsort', 'percentile', 'quantile', 'array_split', 'lstsq'}
SCALAR = {'norm': 'float', 'det': 'float', 'matrix_rank': 'int', 'trace': 'float', 'array_equal': 'bool', 'allclose': 'bool', 'isscalar': 'bool', 'ndim': 'int', 'size': 'int', 'issubdtype': 'bool', 'vdot': 'float', 'cond': 'float', 'iscomplexobj': 'bool', 'isrealobj': 'bool', 'array_equiv': 'bool'}
CREATE = {'zeros', 'ones', 'full', 'empty', 'eye', 'identity', 'arange', 'linspace', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'logspace'}
MUTATE0 = {'fill_diagonal', 'put', 'place', 'putmask', 'copyto', 'put_along_axis'}
BOOLF = {'isnan', 'isinf', 'isfinite', 'isreal', 'iscomplex', 'isclose', 'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_not'}


def finite(a):
    if a[0] == 'c' and isinstance(a[2], (int, float)):
        return math.isfinite(a[2])
    if a[0] == 'iv':
        return True
    if a == NAN:
        return False
    return None


def elem_fn(I, st, name, a):
    if name in ('isfinite', 'isnan', 'isinf') and a[0] == 's' and (role(a) or '')[:5] == 'cell:':
        return C(name == 'isfinite')
    if name == 'isfinite':
        v = finite(a)
        return C(v) if v is not None else (U if a[0] == 'u' else S('bool'))
    if name == 'isnan':
        if a == NAN:
            return TRUE
        if a[0] in ('c', 'iv'):
            return FALSE
        return U if a[0] == 'u' else S('bool')
    if name == 'isinf':
        if a[0] == 'c' and isinstance(a[2], float):
            return C(math.isinf(a[2]))
        if a[0] in ('iv', 'nan'):
            return FALSE
        return S('bool')
    if name == 'isreal':
        if kind(a) == 'complex':
            return FALSE if role(a) == 'nonreal' else S('bool')
        if kind(a) in NUMK:
            return TRUE
        return U if a[0] == 'u' else S('bool')
    if name in BOOLF:
        return S('bool')
    if name in ('abs', 'absolute'):
        return convert(I, st, 'abs', a)
    if name in ('copy', 'sort', 'tril', 'triu', 'flip', 'fliplr', 'flipud', 'real', 'nan_to_num', 'float64', 'conj', 'conjugate'):
        return a
    if name == 'argsort':
        return S('int')
    if name == 'negative':
        return neg(a)
    return S('float')


def close(x, y, rtol, atol):
    """isclose for atoms; y constant"""
    if y[0] != 'c' or not isinstance(y[2], (int, float)):
        return None
    b = y[2]
    if x == NAN:
        return False
    tol = atol + rtol * abs(b)
    x = cellrange(x)
    if x[0] == 'c' and isinstance(x[2], (int, float)):
        if math.isinf(x[2]):
            return x[2] == b
        return abs(x[2] - b) <= tol
    if x[0] == 'iv':
        if x[2] >= b - tol and x[3] <= b + tol:
            return True
        if x[3] <= b - tol or x[2] >= b + tol:
            return False
    return None


def tolerances(I, st, fl, kwargs):
    def get(k, i, d):
        v = kwargs.get(k, fl[i] if len(fl) > i else None)
        if v is None:
            return d
        c = v.single()
        return c[2] if c is not None and c[0] == 'c' and isinstance(c[2], (int, float)) else None
    return get('rtol', 2, 1e-5), get('atol', 3, 1e-8)


def np_call(I, st, e, name, dotted, fl, kwargs, dep):
    I.hint = dims.of_call(I, st, name, fl, kwargs)
    try:
        return np_call1(I, st, e, name, dotted, fl, kwargs, dep)
    finally:
        I.hint = None


def np_call1(I, st, e, name, dotted, fl, kwargs, dep):
    a0 = fl[0] if fl else BOT
    if I.cells and dotted.startswith('numpy.linalg.'):
        r = cells.linalg(I, st, e, name, fl, kwargs)
        if r is not None:
            return r
    if I.cells and 'out' not in kwargs and dotted.count('.') == 1:
        r = cells.np_call(I, st, e, name, fl, kwargs, dep)
        if r is not None:
            return r
    if 'out' in kwargs:
        for a in kwargs['out'].atoms:
            if a[0] == 'o':
                I.mutate(st, e, a[1], f'{dotted}(out=)', av(S('float')), dep)
        return kwargs['out'].withdep(dep)
    if name in MUTATE0:
        for a in a0.atoms:
            if a[0] == 'o':
                I.mutate(st, e, a[1], name, fl[1] if len(fl) > 1 else AVU, dep)
        return avc(None)
    if name == 'nan_to_num' and kwargs.get('copy') == avc(False):
        for a in a0.atoms:
            if a[0] == 'o':
                I.mutate(st, e, a[1], 'nan_to_num(copy=False)', av(S('float')), dep)
        return a0.withdep(dep)
    if name == 'isclose' or name == 'allclose':
        rt, at = tolerances(I, st, fl, kwargs)
        b0 = fl[1] if len(fl) > 1 else AVU
        xe = I.elem_or_self(a0, st)
        ye = I.elem_or_self(b0, st)
        vals = set()
        for x in xe.atoms or {U}:
            for y in ye.atoms or {U}:
                v = close(x, y, rt, at) if rt is not None and at is not None else None
                if v is None and (x[0] == 'u' or y[0] == 'u'):
                    v = 'u'
                vals.add(v)
        isarr = any(a[0] == 'o' for a in a0.atoms | b0.atoms)
        if name == 'allclose':
            if vals == {True}:
                return bools([True], dep)
            if vals == {False}:
                return bools([False], dep)
            if False in vals and any(a[0] == 'o' and 'each' in I.obj(st, a[1]).facts for a in a0.atoms if I.obj(st, a[1]) is not None):
                return bools([False], dep)
            return bools(['u' if 'u' in vals else None], dep)
        if not isarr:
            return bools(vals, dep)
        return arr(I, st, e, name, bools(vals), oshape(I, st, a0), dep, facts=common_facts(I, st, a0))
    if name in SCALAR:
        if name in ('norm',) and ('axis' in kwargs or len(fl) > 2):
            return arr(I, st, e, name, av(S('float')), None, dep)
        if name == 'issubdtype':
            return issub(I, st, fl, dep)
        if name == 'iscomplexobj':
            el = I.elem_or_self(a0, st)
            vs = [True if kind(a) == 'complex' else False if kind(a) in NUMK or a == NAN else 'u' for a in el.atoms]
            return bools(vs or ['u'], dep)
        if name == 'ndim' and oshape(I, st, a0) is not None:
            return avc(len(oshape(I, st, a0)), dep)
        return AV({S(SCALAR[name])}, dep)
    if name == 'shape':
        a = a0.single()
        if a is not None and a[0] == 'o' and I.obj(st, a[1]) is not None:
            return obj_attr(I, st, e, a[1], I.obj(st, a[1]), 'shape')
        return I.new(st, e, 'shape', 'tuple', dep=dep, elem=av(S('int')))
    if name in CREATE:
        sh = None
        elem = av(S('float'))
        facts = frozenset()
        dt = kwargs.get('dtype')
        if name.endswith('_like'):
            sh = oshape(I, st, a0)
        elif name in ('zeros', 'ones', 'empty', 'full'):
            sh = shape_from(I, st, kwargs.get('shape', a0))
        elif name in ('eye', 'identity'):
            s = shape_from(I, st, a0)
            sh = (s[0], s[0]) if s and len(fl) < 2 else None
        elif name in ('arange',):
            bound = fl[1] if len(fl) > 1 else a0
            d = dim_of(bound.single()) if bound.single() else None
            sh = (d,) if len(fl) == 1 else (None,)
            rl = None
            if isinstance(d, str):
                rl = 'idx:' + d
            elem = av(S('int', rl))
        elif name == 'linspace':
            sh = (dim_of(fl[2].single()) if len(fl) > 2 and fl[2].single() else None,)
        if name.startswith('zeros'):
            elem = av(C(0.0))
        elif name.startswith('ones'):
            elem = av(C(1.0))
        elif name in ('eye', 'identity'):
            elem = av(C(0.0), C(1.0))
        elif name == 'full':
            elem = kwargs.get('fill_value', fl[1] if len(fl) > 1 else av(S('float')))
        elif name == 'full_like':
            elem = fl[1] if len(fl) > 1 else av(S('float'))
        k = dt.single() if dt is not None else None
        if k == ('b', 'bool'):
            elem = AV(frozenset(C(bool(a[2])) if a[0] == 'c' else S('bool') for a in elem.atoms))
        elif k == ('b', 'int'):
            elem = AV(frozenset(C(int(a[2])) if a[0] == 'c' and a[2] is not None and isinstance(a[2], (int, float)) and math.isfinite(a[2]) else S('int', role(a)) if a[0] == 's' else S('int') for a in elem.atoms))
        elem = AV(frozenset(a for a in elem.atoms if a[0] != 'o') or {U}, elem.dep)
        if sh is not None and sh and isinstance(sh[0], (int, str)) and sh[0] != 0:
            facts = frozenset({'nonempty'})
        return arr(I, st, e, name, elem, sh, dep, facts=facts)
    if name in ('array',) or name == 'matrix':
        return np_array(I, st, e, fl, kwargs, dep)
    if name == 'copy':
        out = []
        for a in a0.atoms:
            o = I.obj(st, a[1]) if a[0] == 'o' else None
            if o is not None and o.t == 'ndarray':
                out.append(copy_arr(I, st, e, ('copy', a), a[1], o))
            else:
                out.append(np_array(I, st, e, [AV({a}, a0.dep)], {}, dep))
        return joinall(out).withdep(dep)
    if name in VIEWS_DEF or name in VIEWS_MAYBE:
        out = []
        for a in a0.atoms:
            o = I.obj(st, a[1]) if a[0] == 'o' else None
            if o is not None and o.t == 'ndarray':
                sh = None
                if name in ('transpose',) and o.shape is not None and len(fl) == 1 and not kwargs:
                    sh = tuple(reversed(o.shape))
                elif name in ('asarray', 'asanyarray', 'real', 'imag', 'fliplr', 'flipud', 'flip', 'ascontiguousarray'):
                    sh = o.shape
                elif name == 'ravel':
                    sh = (o.shape[0],) if o.shape is not None and len(o.shape) == 1 else (None,)
                    lastdim = next((f[1] for f in o.facts if isinstance(f, tuple) and f[0] == 'ravel'), None)
                    if lastdim is not None:
                        sh = (lastdim,)
                    elif o.shape is not None and len(o.shape) == 2 and o.shape[0] == 1:
                        sh = (o.shape[1],)
                elif name == 'diag' and o.shape is not None:
                    if len(o.shape) == 1:
                        out.append(arr(I, st, e, ('diag', a), join(I.elem_of(st, a[1]), av(C(0.0))), (o.shape[0], o.shape[0]) if len(fl) == 1 and not kwargs else I.hint, dep))
                        continue
                    sh = (o.shape[0],) if o.shape[0] == o.shape[1] and len(fl) == 1 and not kwargs else (None,)
                elif name == 'reshape':
                    sh = shape_from(I, st, fl[1]) if len(fl) > 1 else None
                    if sh is not None and any(x in (-1, None) for x in sh):
                        sh = tuple(None if x == -1 else x for x in sh)
                certain = 'def' if name in VIEWS_DEF or name == 'real' or name in ('ravel', 'reshape') and contiguous(I, st, a[1]) else 'maybe'
                dt = kwargs.get('dtype', fl[1] if len(fl) > 1 and name in ('asarray', 'asanyarray') else None)
                if dt is not None and not keeps_kind(I, st, a[1], dt):
                    certain = 'maybe'
                facts = o.facts & {'each', 'nonempty'} | frozenset(f for f in o.facts if isinstance(f, tuple) and f[0] in ('total', 'first', 'last'))
                out.append(view(I, st, e, (name, a), a[1], o, sh, certain, facts))
            elif a[0] == 'o' and o is not None and o.t == 'any':
                v = arr(I, st, e, (name, a), av(S('float')), None, dep, base=frozenset({(a[1], 'maybe')}))
                out.append(v)
            elif a[0] == 'o':
                out.append(np_array(I, st, e, [AV({a}, a0.dep)], {}, dep))
            else:
                out.append(AV({a}, a0.dep) if name in ('real', 'squeeze') else arr(I, st, e, (name, a), AV({a}), None, dep))
        return joinall(out).withdep(dep)
    if name in REDUCE:
        axis = kwargs.get('axis', fl[1] if len(fl) > 1 else None)
        whole = axis is None or axis == avc(None)
        if name in ('all', 'any') and whole:
            if any(a[0] == 'o' for a in a0.atoms):
                return allany(I, st, a0, name == 'all')
            return AV(frozenset({S('bool')}), dep)
        k = {'all': 'bool', 'any': 'bool', 'argmax': 'int', 'argmin': 'int', 'count_nonzero': 'int'}.get(name, 'float')
        if name in ('max', 'min', 'amax', 'amin', 'nanmax', 'nanmin'):
            el = I.elem_or_self(a0, st)
            el = AV(frozenset(a if a[0] != 'c' or len(el.atoms) == 1 else a for a in el.atoms if a[0] != 'o') or {S('float')}, el.dep)
        else:
            el = av(S(k))
        a = a0.single()
        o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
        if name in ('sum', 'nansum') and o is not None:
            for f in o.facts:
                if isinstance(f, tuple) and (f[0] == 'total' and whole or f[0] == 'rowsum' and not whole):
                    if whole or axis == avc(1) or axis == avc(-1):
                        el = f[1]
            if el == av(S('float')) and o.shape is not None and all(isinstance(d, int) for d in o.shape):
                x = I.elem_of(st, a[1]).single()
                ax = None if whole else axis.single()
                if x is not None and x[0] == 'c' and isinstance(x[2], (int, float)) and (whole or ax is not None and ax[0] == 'c' and isinstance(ax[2], int) and -len(o.shape) <= ax[2] < len(o.shape)):
                    n = math.prod(o.shape) if whole else o.shape[ax[2]]
                    el = avc(float(x[2]) * n)
                elif x == NAN:
                    el = av(C(0.0)) if name == 'nansum' else av(NAN)
        if whole:
            return AV(el.atoms, dep)
        sh = None
        if o is not None and o.shape is not None and len(o.shape) == 2:
            try:
                ax = axis.const()
                if ax in (0, 1, -1):
                    sh = (o.shape[1] if ax == 0 else o.shape[0],)
                    if name in ('argmax', 'argmin', 'nanargmax'):
                        d = o.shape[0] if ax == 0 else o.shape[1]
                        el = av(S('int', 'idx:' + d if isinstance(d, str) else None))
            except KeyError:
                pass
        if kwargs.get('keepdims') is not None and kwargs['keepdims'] != avc(False):
            if sh is not None:
                sh = (sh[0], 1) if axis in (avc(1), avc(-1)) else (1, sh[0])
        return arr(I, st, e, name, el, sh, dep, facts=frozenset({'each'}) if o is not None and any(isinstance(f, tuple) and f[0] == 'rowsum' for f in o.facts) and name in ('sum', 'nansum') else frozenset())
    if name in ELEMENTWISE:
        out = []
        for a in a0.atoms or {U}:
            if a[0] == 'o':
                o = I.obj(st, a[1])
                el = I.elem_of(st, a[1]) if o is not None else AVU
                els = AV(frozenset(elem_fn(I, st, name, x) if x[0] != 'o' else S('float') for x in el.atoms) or {S('bool') if name in BOOLF else S('float')}, el.dep)
                sh = o.shape if o is not None and o.t in ('ndarray', 'list', 'tuple', 'any') else None
                if name in ('cumsum', 'cumprod') and 'axis' not in kwargs and len(fl) < 2 and sh is not None and len(sh) > 1:
                    sh = (None,)
                if name == 'argsort' and sh is not None and len(sh) == 1 and isinstance(sh[0], str):
                    els = av(S('int', 'idx:' + sh[0]))
                facts = o.facts & {'each', 'nonempty'} if o is not None else frozenset()
                out.append(arr(I, st, e, (name, a), els, sh, dep, facts=facts))
            else:
                out.append(AV({elem_fn(I, st, name, a)}))
        return joinall(out).withdep(dep)
    if name in BINARY:
        b0 = fl[1] if len(fl) > 1 else AVU
        opmap = {'equal': ast.Eq(), 'not_equal': ast.NotEq(), 'less': ast.Lt(), 'less_equal': ast.LtE(), 'greater': ast.Gt(), 'greater_equal': ast.GtE()}
        if name in opmap:
            return compare(I, st, e, opmap[name], a0, b0)
        amap = {'add': ast.Add(), 'subtract': ast.Sub(), 'multiply': ast.Mult(), 'divide': ast.Div(), 'true_divide': ast.Div(), 'mod': ast.Mod(), 'remainder': ast.Mod(), 'power': ast.Pow()}
        if name in amap:
            return binop(I, st, e, a0, amap[name], b0)
        if any(a[0] == 'o' for a in a0.atoms | b0.atoms):
            sh = oshape(I, st, a0) or oshape(I, st, b0)
            return arr(I, st, e, name, av(S('bool' if name in BOOLF else 'float')), sh, dep)
        return AV({S('bool' if name in BOOLF else 'float')}, dep)
    if name == 'ndenumerate':
        el = I.elem_or_self(a0, st)
        ix = I.new(st, e, 'ndix', 'tuple', elem=av(S('int')), dep=EMPTY)
        t = I.new(st, e, 'ndel', 'tuple', items=(ix, el), dep=EMPTY)
        return I.new(st, e, name, 'iter', dep=dep, elem=t, facts=common_facts(I, st, a0))
    if name in ('dot', 'matmul', 'inner'):
        s0, s1 = oshape(I, st, a0), oshape(I, st, fl[1]) if len(fl) > 1 else None
        if s0 is not None and s1 is not None:
            if len(s0) == 1 and len(s1) == 1:
                return AV({S('float')}, dep)
            sh = tuple(s0[:-1]) + (tuple(s1[1:]) if len(s1) <= 2 else (None,))
            return arr(I, st, e, name, av(S('float')), sh, dep)
        return AV(arr(I, st, e, name, av(S('float')), None, dep).atoms, dep)
    if name in ('where', 'nonzero', 'unravel_index', 'divmod', 'modf', 'diag_indices_from', 'indices', 'meshgrid', 'triu_indices', 'tril_indices', 'triu_indices_from', 'tril_indices_from'):
        if name == 'where' and len(fl) == 3:
            el = joinall([I.elem_or_self(fl[1], st), I.elem_or_self(fl[2], st)])
            return arr(I, st, e, name, AV(frozenset(a for a in el.atoms if a[0] != 'o') or {S('float')}, el.dep), oshape(I, st, a0), dep)
        sh = oshape(I, st, a0)
        d = sh[0] if sh and len(sh) == 1 else None
        x = arr(I, st, e, (name, 'el'), av(S('int', 'idx:' + d if isinstance(d, str) else None)), (None,), dep)
        if name == 'unravel_index':
            return I.new(st, e, name, 'tuple', dep=dep, elem=AV({S('int')}, dep))
        return I.new(st, e, name, 'tuple', dep=dep, elem=x) if d is None else I.new(st, e, name, 'tuple', dep=dep, items=(x,))
    if name in ('flatnonzero', 'argwhere'):
        sh = oshape(I, st, a0)
        d = sh[0] if sh and len(sh) == 1 else None
        if name == 'argwhere':
            return arr(I, st, e, name, av(S('int', 'idx:' + d if isinstance(d, str) else None)), (None, len(sh) if sh else None), dep)
        return arr(I, st, e, name, av(S('int', 'idx:' + d if isinstance(d, str) else None)), (None,), dep)
    if name in ('ix_', 'mgrid', 'ogrid', 's_'):
        return I.new(st, e, name, 'ix', dep=dep, items=tuple(fl) if name == 'ix_' else None)
    if name in ('split', 'array_split', 'hsplit', 'vsplit'):
        el = []
        parts = dims.split(I, st, e, fl, kwargs, view) if name == 'split' and I.exact else None
        if parts is not None:
            return I.new(st, e, name, 'list', dep=dep, items=parts, shape=(len(parts),))
        for a in a0.atoms:
            o = I.obj(st, a[1]) if a[0] == 'o' else None
            if o is not None and o.t == 'ndarray':
                el.append(view(I, st, e, (name, a), a[1], o, None, 'def'))
        return I.new(st, e, name, 'list', dep=dep, elem=joinall(el) if el else arr(I, st, e, 'splitel', av(S('float')), None, dep))
    if name in ('unique',):
        if any(k in kwargs for k in ('return_counts', 'return_index', 'return_inverse')):
            x = arr(I, st, e, 'u1', I.elem_or_self(a0, st), (None,), dep)
            y = arr(I, st, e, 'u2', av(S('int')), (None,), dep)
            return I.new(st, e, name, 'tuple', dep=dep, items=(x, y))
        return arr(I, st, e, name, I.elem_or_self(a0, st), (None,), dep, facts=common_facts(I, st, a0, ('nonempty',)))
    if name in ('eig', 'eigh', 'svd', 'qr', 'slogdet', 'lstsq'):
        s = dims.shape_of(I, st, a0)
        s = s if s is not None and len(s) == 2 else None
        n = s[0] if s is not None and s[0] == s[1] and name in ('eig', 'eigh') else None
        x = arr(I, st, e, (name, 0), av(S('float')), (n,), dep)
        y = arr(I, st, e, (name, 1), av(S('float')), (n, n), dep)
        if name == 'lstsq':
            b = dims.shape_of(I, st, fl[1]) if len(fl) > 1 else None
            if s is not None and b is not None and len(b) in (1, 2):
                x = arr(I, st, e, (name, 2), av(S('float')), (s[1],) + b[1:], dep)
            return I.new(st, e, name, 'tuple', dep=dep, items=(x, y, AV({S('int')}, dep), y))
        if name == 'svd':
            return I.new(st, e, name, 'tuple', dep=dep, items=(y, x, y))
        return I.new(st, e, name, 'tuple', dep=dep, items=(x, y))
    if name in ('eigvals', 'eigvalsh'):
        s = oshape(I, st, a0)
        return arr(I, st, e, name, av(S('float')), s[:1] if s else (None,), dep)
    if name in ('apply_along_axis', 'vectorize'):
        sh = None
        over = fl[2] if len(fl) > 2 else kwargs.get('arr')
        if name == 'apply_along_axis' and over is not None:
            s, ax = dims.shape_of(I, st, over), dims.integer(fl[1] if len(fl) > 1 else kwargs.get('axis'))
            ax = ax % len(s) if s and ax is not None and -len(s) <= ax < len(s) else None
            row = arr(I, st, e, 'aal', I.elem_or_self(over, st), (s[ax],) if ax is not None else (None,), dep)
            r = call1(I, st, a0, [row] + list(fl[3:]), e)
            t = {dims.shape_of(I, st, AV({a})) for a in r.atoms} if r is not None and ax is not None else {None}
            if len(t) == 1 and None not in t:
                sh = s[:ax] + t.pop() + s[ax + 1:]
        return arr(I, st, e, name, av(S('float')), sh or None, dep)
    if name in FRESHARR or name in ('log',):
        el = I.elem_or_self(a0, st)
        if name in ('concatenate', 'hstack', 'vstack', 'stack', 'append', 'union1d', 'intersect1d', 'setdiff1d', 'tile', 'repeat', 'take', 'delete', 'clip', 'roll', 'insert'):
            parts = set()
            for x in ([a0] + (list(fl[1:2]) if name in ('append', 'union1d') else [])):
                for a in I.elem_or_self(x, st).atoms:
                    if a[0] == 'o':
                        parts |= I.elem_or_self(AV({a}), st).atoms
                    else:
                        parts.add(a)
            els = AV(frozenset(a for a in parts if a[0] != 'o') or {S('float')}, el.dep)
        else:
            els = av(S('float'))
        sh = None
        if name in ('inv', 'pinv', 'matrix_power'):
            sh = oshape(I, st, a0)
        elif name == 'repeat':
            sh = (dim_of(fl[1].single()) if len(fl) > 1 and fl[1].single() else None,) if not any(a[0] == 'o' for a in a0.atoms) else None
        elif name in ('union1d', 'intersect1d', 'setdiff1d', 'flatnonzero'):
            sh = (None,)
            its = [exact_items(I, st, x) for x in fl[:2]]
            if I.exact and len(fl) == 2 and name != 'flatnonzero' and all(x is not None and all(v.single() is not None and v.single()[0] == 'c' for v in x) for x in its):
                x, y = ({v.const() for v in z} for z in its)
                r = x | y if name == 'union1d' else x & y if name == 'intersect1d' else x - y
                els, sh = AV(frozenset(C(v) for v in r), dep), (len(r),)
        elif name == 'clip':
            sh = oshape(I, st, a0)
        return arr(I, st, e, name, els, sh, dep, facts=common_facts(I, st, a0, ('nonempty',)) if name in ('repeat', 'tile', 'clip', 'union1d') else frozenset())
    if name in ('errstate', 'printoptions'):
        return I.new(st, e, name, 'ctx', dep=EMPTY)
    return None


def issub(I, st, fl, dep):
    a = fl[0].single() if fl else None
    if a is not None and a[0] == 'dtype':
        el = a[1]
        t = fl[1].single() if len(fl) > 1 else None
        if t in (('ext', 'numpy.number'),) and el.atoms:
            vs = []
            for x in el.atoms:
                k = kind(x)
                if k in ('int', 'float', 'complex', 'npint', 'npfloat'):
                    vs.append(True)
                elif k in ('str', 'bool', 'NoneType', 'bytes'):
                    vs.append(False)
                elif x[0] == 'o':
                    o = I.obj(st, x[1])
                    vs.append(False if o is not None and o.t in ('dict', 'inst', 'set') else None)
                else:
                    vs.append('u')
            if False in vs and True in vs:
                # mixed content: numpy promotes to str/object
                ks = {kind(x) for x in el.atoms}
                if ks <= {'int', 'float', 'bool'} | NUMK:
                    return bools([True], dep)
                return bools([False], dep)
            return bools(vs, dep)
    return AV({S('bool'), U}, dep)


def np_array(I, st, e, fl, kwargs, dep):
    a0 = fl[0] if fl else BOT
    out = []
    for a in a0.atoms or {U}:
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        if o is not None and o.t == 'ndarray':
            base = EMPTY
            if kwargs.get('copy') is not None and kwargs['copy'] != avc(True):
                dt = kwargs.get('dtype', fl[1] if len(fl) > 1 else avc(None))
                base = frozenset({(a[1], 'def' if keeps_kind(I, st, a[1], dt) else 'maybe')})
            facts = o.facts & {'each', 'nonempty'} | frozenset(f for f in o.facts if isinstance(f, tuple) and f[0] in ('rowsum', 'total', 'first', 'last'))
            out.append(arr(I, st, e, ('array', a), I.elem_of(st, a[1]), o.shape, dep, base=base, facts=facts))
            continue
        if o is not None and o.t in ('list', 'tuple', 'iter', 'range', 'any', 'df'):
            facts = o.facts & {'each', 'nonempty'} | frozenset(f for f in o.facts if isinstance(f, tuple) and f[0] in ('rowsum', 'total', 'first', 'last'))
            sh = next((f[1] for f in o.facts if isinstance(f, tuple) and f[0] == 'ashape'), None)
            if sh is None and o.t in ('list', 'tuple'):
                d0 = o.shape[0] if o.shape else len(o.items) if o.items is not None else None
                el = I.elem_of(st, a[1])
                if el.atoms and all(x[0] != 'o' and x[0] != 'u' for x in el.atoms):
                    sh = (d0,)
                elif el.atoms and all(x[0] == 'o' and I.obj(st, x[1]) is not None and I.obj(st, x[1]).t in ('list', 'tuple', 'ndarray') for x in el.atoms):
                    inner = [I.obj(st, x[1]) for x in el.atoms]
                    es = joinall([I.elem_of(st, x[1]) for x in el.atoms])
                    if es.atoms and all(x[0] not in ('o', 'u') for x in es.atoms):
                        d1 = {(x.shape[0] if x.shape else len(x.items) if x.items is not None else None) for x in inner}
                        sh = (d0, d1.pop() if len(d1) == 1 else None)
                elif o.items == ():
                    sh = (0,)
            elif sh is None and o.shape is not None and o.t in ('any', 'df'):
                sh = o.shape
            lv = next((f[1] for f in o.facts if isinstance(f, tuple) and f[0] == 'leaf'), None)
            el = lv if lv is not None else leaf(I, st, AV({a}))
            out.append(arr(I, st, e, ('array', a), el, sh, dep, facts=facts))
            continue
        if a[0] in ('c', 's', 'iv', 'nan'):
            out.append(arr(I, st, e, ('array', a), AV({a}), (), dep))
            continue
        out.append(arr(I, st, e, ('array', a), AVU, None, dep))
    r = joinall(out).withdep(dep)
    dt = kwargs.get('dtype', fl[1] if len(fl) > 1 else None)
    k = dt.single() if dt is not None else None
    if k in (('b', 'float'), ('b', 'int')):
        for a in r.atoms:
            if a[0] == 'o':
                o = I.obj(st, a[1])
                st.heap[a[1]] = o.replace(elem=AV(frozenset(convert(I, st, k[1], x) if x[0] != 'o' else S(k[1]) for x in o.elem.atoms), o.elem.dep))
    return r


def leaf(I, st, v, depth=3):
    atoms = set()
    dep = set(v.dep)
    for a in v.atoms:
        if a[0] == 'o' and depth:
            o = I.obj(st, a[1])
            if o is not None and o.t in ('list', 'tuple', 'iter', 'range', 'ndarray'):
                x = leaf(I, st, I.elem_of(st, a[1]), depth - 1)
                atoms |= x.atoms
                dep |= x.dep
            else:
                atoms.add(a)
        else:
            atoms.add(a)
    return AV(frozenset(atoms), frozenset(dep))


def ext_call(I, st, e, dotted, args, kwargs):
    fl = I.flat(args)
    a0 = fl[0] if fl else BOT
    dep = I.alldeps(st, *fl, *[v for v in kwargs.values()])
    name = dotted.split('.')[-1]
    if dotted.startswith('numpy.random'):
        if name in ('RandomState', 'default_rng'):
            return I.new(st, e, 'rng', 'rng', dep=dep)
        return AV({U}, dep | {'globalrng'})
    if dotted.startswith('numpy.'):
        if any(isinstance(x, tuple) for x in args):
            if name in FRESHARR or name in REDUCE:
                return arr(I, st, e, name, av(S('float')), None, dep)
        r = np_call(I, st, e, name, dotted, fl, kwargs, dep)
        if r is not None:
            return r
    elif dotted in ('copy.deepcopy', 'copy.copy'):
        if name == 'deepcopy':
            return I.deepcopy(st, e, a0, 'deepcopy')
        out = []
        for a in a0.atoms:
            o = I.obj(st, a[1]) if a[0] == 'o' else None
            if o is not None and o.t not in ('inst',):
                out.append(AV({('o', I.alloc(st, e, ('copy', a), o.replace(origin=EMPTY, base=frozenset({(a[1], 'def')}) if o.t in ('graph', 'multigraph') else EMPTY, loc=I.loc(e))))}, a0.dep))
            else:
                out.append(AV({a}, a0.dep))
        return joinall(out)
    elif dotted.startswith('math.'):
        if name in ('isnan', 'isinf', 'isfinite'):
            return AV(frozenset(elem_fn(I, st, name, a) for a in a0.atoms) or {S('bool')}, dep)
        if I.exact and name in ('gcd', 'lcm') and not kwargs and all(x.single() is not None and x.single()[0] == 'c' and type(x.single()[2]) is int for x in fl):
            return avc(getattr(math, name)(*[x.single()[2] for x in fl]), dep)
        if name in ('floor', 'ceil', 'gcd', 'factorial', 'comb'):
            return AV({S('int')}, dep)
        if name in ('isclose',):
            b = [c.single() for c in (kwargs.get('rel_tol', avc(1e-9)), kwargs.get('abs_tol', avc(0.0)))]
            if len(fl) > 1 and all(c is not None and c[0] == 'c' for c in b):
                return bools({close(x, y, b[0][2], b[1][2]) for x in a0.atoms for y in fl[1].atoms} or {None}, dep)
            return AV({S('bool')}, dep)
        return AV({S('float')}, dep)
    elif dotted.startswith('itertools.'):
        if name == 'product':
            rep = kwargs.get('repeat')
            for x in fl:
                I.note_iter(st, e, x, e)
            if I.exact and not I.loopdepth:
                its = [exact_items(I, st, x) for x in fl]
                n = rep.single()[2] if rep is not None and rep.single() is not None and rep.single()[0] == 'c' else 1
                if its and None not in its and isinstance(n, int):
                    rows = list(itertools.product(*its, repeat=n))
                    if len(rows) <= 40:
                        return I.new(st, e, name, 'iter', dep=dep, items=tuple(I.new(st, e, ('prodel', i), 'tuple', items=tuple(r), shape=(len(r),)) for i, r in enumerate(rows)), facts=frozenset({'nonempty'} if rows else ()))
            els = [I.iter_elem(x, st, e) for x in fl]
            if rep is not None and rep.single() and rep.single()[0] == 'c' and isinstance(rep.single()[2], int):
                els = els * rep.single()[2]
            f = frozenset().union(*[order_facts(I, st, x) for x in fl]) if fl else frozenset()
            t = I.new(st, e, 'prodel', 'tuple', items=tuple(els))
            if fl and all(I.definitely_nonempty(st, x) for x in fl):
                f |= {'nonempty'}
            return I.new(st, e, name, 'iter', dep=dep, elem=t, facts=f)
        if I.exact and not I.loopdepth and (name == 'chain' or dotted.endswith('chain.from_iterable')):
            its = fl if name == 'chain' else exact_items(I, st, a0)
            its = [exact_items(I, st, x) for x in its] if its is not None else [None]
            if None not in its:
                its = tuple(y for x in its for y in x)
                return I.new(st, e, name, 'iter', dep=dep, items=its, shape=(len(its),), facts=frozenset({'nonempty'} if its else ()))
        if dotted.endswith('chain.from_iterable'):
            el = I.iter_elem(a0, st, e)
            return I.new(st, e, name, 'iter', dep=dep, elem=I.iter_elem(el, st, e), facts=order_facts(I, st, a0) | order_facts(I, st, el))
        if name in ('chain',):
            return I.new(st, e, name, 'iter', dep=dep, elem=joinall([I.iter_elem(x, st, e) for x in fl]), facts=frozenset().union(*[order_facts(I, st, x) for x in fl]) if fl else frozenset())
        if name in ('combinations', 'permutations', 'combinations_with_replacement'):
            el = I.iter_elem(a0, st, e)
            t = I.new(st, e, 'combel', 'tuple', elem=el)
            if len(fl) > 1 and fl[1] == avc(2):
                t = I.new(st, e, 'combel', 'tuple', items=(el, el))
            return I.new(st, e, name, 'iter', dep=dep, elem=t, facts=order_facts(I, st, a0))
        if name == 'islice':
            return I.new(st, e, name, 'iter', dep=dep, elem=I.iter_elem(a0, st, e), facts=order_facts(I, st, a0))
        if name in ('accumulate', 'count', 'repeat', 'cycle'):
            return I.new(st, e, name, 'iter', dep=dep, elem=I.iter_elem(a0, st, e) if name in ('cycle',) else a0 if name == 'repeat' else AV({S('int')}, dep))
    elif dotted.startswith('functools.'):
        if name == 'reduce':
            el = I.iter_elem(fl[1], st, e) if len(fl) > 1 else AVU
            return join(el, fl[2]) if len(fl) > 2 else el
        if name == 'partial':
            return av(('partial', a0, tuple(fl[1:])))
        if name in ('wraps', 'update_wrapper'):
            return AVU
    elif dotted.startswith('networkx.'):
        if name in ('DiGraph', 'Graph'):
            src = a0.single()
            o = I.obj(st, src[1]) if src is not None and src[0] == 'o' else None
            if o is not None and o.t in ('graph', 'multigraph'):
                return I.new(st, e, name, 'graph', dep=dep, elem=o.elem, facts=o.facts, attrs=dict(o.attrs))
            return I.new(st, e, name, 'graph', dep=dep, elem=BOT)
        if name == 'MultiDiGraph':
            return I.new(st, e, name, 'multigraph', dep=dep)
        g = a0.single()
        go = I.obj(st, g[1]) if g is not None and g[0] == 'o' else None
        nodes = go.elem if go is not None and go.elem.atoms else AV({S('str')}, dep)
        if name in ('strongly_connected_components', 'weakly_connected_components', 'connected_components', 'attracting_components'):
            s = I.new(st, e, 'scc', 'set', dep=dep, elem=nodes, facts=frozenset({'unordered', 'nonempty'}))
            return I.new(st, e, name, 'iter', dep=dep, elem=s)
        if name in ('is_aperiodic', 'is_strongly_connected', 'has_path', 'is_directed_acyclic_graph'):
            return AV({S('bool')}, dep)
        if name in ('shortest_path_length', 'number_of_nodes', 'number_of_edges'):
            return AV({S('int')}, dep)
        if name in ('condensation', 'subgraph', 'reverse', 'compose', 'relabel_nodes'):
            if name == 'relabel_nodes' and kwargs.get('copy') == avc(False) and go is not None:
                I.mutate(st, e, g[1], 'relabel_nodes', BOT, dep)
                return a0
            return I.new(st, e, name, 'graph', dep=dep)
        if name in ('spring_layout', 'random_layout') and 'seed' not in kwargs:
            return AV({U}, dep | {'globalrng'})
    elif dotted.startswith('scipy.'):
        if name in ('minimize', 'nnls', 'quad', 'linprog', 'brentq', 'root'):
            if name == 'minimize':
                x = arr(I, st, e, 'minx', av(S('float')), None, dep)
                return I.new(st, e, name, 'any', dep=dep, attrs={'x': x})
            if name == 'nnls':
                s = dims.shape_of(I, st, a0)
                x = cells.linalg(I, st, e, 'solve', fl[:2], {}) if I.cells and not kwargs else None
                if x is not None:
                    return I.new(st, e, name, 'tuple', dep=dep, items=(x, AV({S('float')}, dep)))
                x = arr(I, st, e, ('nnls', 0), av(S('float')), (s[1],) if s is not None and len(s) == 2 else (None,), dep)
                return I.new(st, e, name, 'tuple', dep=dep, items=(x, AV({S('float')}, dep)))
            if name == 'quad':
                call1(I, st, a0, [AV({S('float')}, dep)], e)
                f = AV({S('float')}, dep)
                return I.new(st, e, name, 'tuple', dep=dep, items=(f, f))
        if any(dotted.startswith(f'scipy.stats.{d}.') for d in ('norm', 'chi2', 'binom')):
            if name in ('rvs',):
                return AV({U}, dep | {'globalrng'})
            if any(a[0] == 'o' for x in fl for a in x.atoms):
                sh = None
                for x in fl:
                    sh = sh or oshape(I, st, x)
                return arr(I, st, e, name, av(S('float')), sh, dep)
            return AV({S('float')}, dep)
        if name == 'chisquare':
            f = AV({S('float')}, dep)
            return I.new(st, e, name, 'tuple', dep=dep, items=(f, f))
    elif dotted == 'pathlib.Path':
        a = a0.single()
        if a is not None and a[0] == 'c' and isinstance(a[2], str):
            pp = pathlib.PurePosixPath(a[2])
            at = {'suffix': avc(pp.suffix, dep), 'name': avc(pp.name, dep), 'stem': avc(pp.stem, dep), 'suffixes': I.new(st, e, 'suffixes', 'list', dep=dep, items=tuple(avc(x, dep) for x in pp.suffixes))}
            return I.new(st, e, name, 'path', dep=dep, attrs=at)
        return I.new(st, e, name, 'path', dep=dep)
    elif dotted.startswith('os.path.'):
        if name in ('isdir', 'isfile', 'isabs', 'exists'):
            return AV({S('bool')}, dep)
        return AV({S('str')}, dep)
    elif dotted == 'inspect.stack':
        from .world import call_stack
        fs = call_stack(I, st, e)
        return I.new(st, e, name, 'list', items=tuple(fs), shape=(len(fs),), facts=frozenset({'nonempty'}))
    elif dotted in ('inspect.currentframe', 'sys._getframe'):
        from .world import call_stack
        fs = call_stack(I, st, e)
        k = fl[0].single() if fl else C(0)
        if k is not None and k[0] == 'c' and isinstance(k[2], int) and k[2] < len(fs):
            return I.obj(st, fs[k[2]].single()[1]).items[0]
        return AVU
    elif dotted == 'inspect.trace':
        return AV({U}, EMPTY)
    elif dotted == 'inspect.isfunction':
        return bools([True if a[0] in ('fn', 'clo') else False if a[0] in ('c', 's', 'cls', 'b', 'bm') else None for a in a0.atoms], dep)
    elif dotted == 'inspect.getmembers' and a0.single() is not None and a0.single()[0] == 'cls':
        ci = a0.single()[1]
        pred = kwargs.get('predicate', fl[1] if len(fl) > 1 else None)
        its = []
        al = {}
        for f in ci.members.values():
            for x in f.marks.get('aliases') or ():
                al[x] = f
        if pred is not None and pred.single() == ('ext', 'inspect.isfunction'):
            for nm, f in sorted([*ci.members.items(), *al.items()]):
                if f.kind in ('method', 'static', 'function'):
                    its.append(I.new(st, e, ('member', nm), 'tuple', items=(avc(nm), av(('fn', f))), shape=(2,)))
            return I.new(st, e, name, 'list', items=tuple(its), shape=(len(its),), facts=frozenset({'nonempty', 'unroll'}))
    elif dotted == 'inspect.isclass':
        return bools([True if a[0] == 'cls' or a[0] == 'b' else False if a[0] in ('c', 's', 'o', 'fn', 'clo', 'bm') else None for a in a0.atoms], dep)
    elif dotted == 'inspect.signature':
        a = a0.single()
        fi = a[1] if a is not None and a[0] == 'fn' else I.closures[a[1]][0] if a is not None and a[0] == 'clo' and a[1] in I.closures else None
        if fi is None or not hasattr(fi, 'params') or fi.vararg or fi.kwarg:
            return AV({U}, dep)
        names = fi.params + fi.kwonly
        ps = I.new(st, e, 'parameters', 'dict', attrs={x: AVU for x in names}, dep=dep, facts=frozenset({'nonempty'} if names else ()))
        return I.new(st, e, name, 'signature', attrs={'parameters': ps}, dep=dep)
    elif dotted.startswith('json.'):
        if name in ('load', 'loads'):
            return I.new(st, e, name, 'any', dep=dep | {'file'}, origin=frozenset({'file'}))
        if name == 'dump':
            return avc(None)
        return AV({S('str')}, dep)
    elif dotted.startswith('csv.'):
        if name == 'reader':
            row = I.new(st, e, 'csvrow', 'list', dep=dep | {'file'}, elem=AV({S('str', 'filecell')}, dep | {'file'}))
            return I.new(st, e, name, 'iter', dep=dep | {'file'}, elem=row)
        return I.new(st, e, name, 'any', dep=dep)
    elif dotted == 're.search' or dotted.startswith('re.'):
        return AV({U, NONE}, dep)
    I.unmodelled[dotted] = I.unmodelled.get(dotted, 0) + 1
    return AV({U}, dep)
