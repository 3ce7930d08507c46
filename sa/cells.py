"""Arrays whose elements are known one by one: which element of which array ends up where."""
import ast
import itertools
import math
import struct

from .values import *
from .values import AV, AVU, BOT

LIMIT = 64


def fact(o, name):
    for f in o.facts:
        if isinstance(f, tuple) and f[0] == name:
            return f
    return None


def count(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def of(I, st, oid):
    """(shape, elements) if all elements of the array are known"""
    o = I.obj(st, oid)
    if o is None or o.t != 'ndarray' or o.shape is None or not all(isinstance(d, int) for d in o.shape):
        return None
    f = fact(o, 'cells')
    if f is not None:
        return o.shape, f[1]
    f = fact(o, 'pos')
    if f is not None:
        r = I.obj(st, f[1])
        g = fact(r, 'cells') if r is not None else None
        if g is not None:
            return o.shape, tuple(g[1][n] for n in f[2])
    return None


def of_value(I, st, v):
    """(shape, elements) of an array, of nested sequences with known items, or of a scalar"""
    a = v.single()
    if a is None:
        return None
    if a[0] != 'o':
        return (), (v,)
    o = I.obj(st, a[1])
    if o is None:
        return None
    if o.t == 'ndarray':
        return of(I, st, a[1])
    its = I.models.exact_items(I, st, v) if o.t in ('list', 'tuple', 'iter', 'range') else None
    if its is None or not its:
        return None
    subs = [of_value(I, st, x) for x in its]
    if None in subs or len({s[0] for s in subs}) != 1:
        return None
    return (len(subs),) + subs[0][0], tuple(x for s in subs for x in s[1])


def make(I, st, e, tag, shape, cells, dep=EMPTY):
    cells = tuple(cells)
    if len(cells) > LIMIT:
        return None
    return I.models.arr(I, st, e, ('cells', tag), joinall(cells), tuple(shape), dep, facts=frozenset({('cells', cells)} | ({'nonempty', 'each'} if cells else set())))


def root_of(I, st, oid):
    f = fact(I.obj(st, oid), 'pos')
    return (f[1], f[2]) if f is not None else (oid, None)


def view(I, st, e, tag, oid, shape, pos):
    root, own = root_of(I, st, oid)
    pos = tuple(own[n] for n in pos) if own is not None else tuple(pos)
    v = I.models.view(I, st, e, ('cells', tag), oid, I.obj(st, oid), tuple(shape), 'def', frozenset({('pos', root, pos)}))
    return v


def axis_sel(I, st, a, d):
    """('int', n) | ('list', [...]) | ('slice', [...]) | None"""
    if a is None:
        return None
    if a[0] == 'c' and isinstance(a[2], int) and not isinstance(a[2], bool):
        return ('int', a[2] % d) if -d <= a[2] < d else None
    if a[0] == 'slice' and '?' not in a[1:]:
        return 'slice', list(range(d))[slice(*a[1:])]
    if a[0] == 'o':
        r = of_value(I, st, AV({a}))
        if r is not None and len(r[0]) in (1, 2):
            cs = [x.single() for x in r[1]]
            if len(r[0]) == 2:
                if all(c is not None and c[0] == 'c' and type(c[2]) is int and -d <= c[2] < d for c in cs):
                    return 'list', [c[2] % d for c in cs], r[0]
                return None
            if all(c is not None and c[0] == 'c' and isinstance(c[2], int) and not isinstance(c[2], bool) and -d <= c[2] < d for c in cs):
                return 'list', [c[2] % d for c in cs]
            if len(cs) == d and all(c is not None and c[0] == 'c' and isinstance(c[2], bool) for c in cs):
                return 'list', [n for n, c in enumerate(cs) if c[2]]
    return None


def select(I, st, shape, a):
    """(result shape, positions, is a view) of an index, or None"""
    items = [a]
    if a[0] == 'o':
        o = I.obj(st, a[1])
        if o is not None and o.t in ('tuple', 'ix'):
            if o.items is None:
                return None
            items = [x.single() for x in o.items]
            if None in items:
                return None
            if o.t == 'ix':
                sels = [axis_sel(I, st, x, d) for x, d in zip(items, shape)]
                if None in sels or len(sels) != len(shape):
                    return None
                return tuple(len(s[1]) for s in sels), grid(shape, [s[1] for s in sels]), False
    if len(items) == 1 and items[0] is not None and items[0][0] == 'o' and len(shape) > 1:
        r = of_value(I, st, AV({items[0]}))
        m = known_bools(r[1]) if r is not None and tuple(r[0]) == tuple(shape) else None
        if m is not None:
            pos = [n for n, x in enumerate(m) if x]
            return (len(pos),), pos, False
    out, sels, n = [], [], 0
    for x in items:
        if x == NONE or x == ('ext', 'numpy.newaxis'):
            out.append(1)
            continue
        if n >= len(shape):
            return None
        s = axis_sel(I, st, x, shape[n])
        if s is None:
            return None
        n += 1
        sels.append(s)
        if s[0] != 'int':
            out += s[2] if len(s) > 2 else [len(s[1])]
    for d in shape[n:]:
        sels.append(('slice', list(range(d))))
        out.append(d)
    lists = [s for s in sels if s[0] == 'list']
    if any(len(s) > 2 for s in lists) and (len(lists) > 1 or sels[0] is not lists[0]):
        return None
    if len(lists) > 1:
        if len(lists) != len(sels) or len({len(s[1]) for s in lists}) != 1 or 1 in out and len(out) != len(sels):
            return None
        pos = [flat_index(shape, ix) for ix in zip(*[s[1] for s in lists])]
        return (len(pos),), pos, False
    return tuple(out), grid(shape, [[s[1]] if s[0] == 'int' else s[1] for s in sels]), not lists


def flat_index(shape, ix):
    n = 0
    for d, i in zip(shape, ix):
        n = n * d + i
    return n


def grid(shape, lists):
    return [flat_index(shape, ix) for ix in itertools.product(*lists)]


def getitem(I, st, e, oid, a):
    r = of(I, st, oid)
    if r is None:
        return None
    s = select(I, st, r[0], a)
    if s is None:
        return None
    shape, pos, isview = s
    if shape == ():
        return r[1][pos[0]]
    if isview:
        return view(I, st, e, ('get', oid, tuple(pos), shape), oid, shape, pos)
    return make(I, st, e, ('get', oid, tuple(pos), shape), shape, [r[1][n] for n in pos], EMPTY)


def setitem(I, st, oid, iv, v):
    """the elements of the array owning the storage after oid[iv] = v, or None"""
    r = of(I, st, oid)
    a = iv.single()
    if r is None or a is None or I.loopdepth:
        return None
    s = select(I, st, r[0], a)
    x = of_value(I, st, v)
    if s is None and I.provenance and x is not None and x[0] == ():
        return masked(I, st, oid, r, a, x[1][0])
    if s is None:
        return None
    shape, pos, _ = s
    if x is None and I.provenance:
        o = I.obj(st, v.oids()[0]) if v.single() is not None and v.single()[0] == 'o' else None
        if o is not None and o.t == 'ndarray' and I.elem_of(st, v.oids()[0]).atoms:
            x = (), (I.elem_of(st, v.oids()[0]),)      # any of its elements
    if x is None:
        return None
    vals = broadcast(x, shape)
    if vals is None:
        return None
    return store(I, st, oid, dict(zip(pos, vals)))


def masked(I, st, oid, r, a, v):
    """the elements after a value is assigned where a condition holds that is not known for each of them"""
    m = of_value(I, st, AV({a})) if a[0] == 'o' else None
    if m is None or tuple(m[0]) != tuple(r[0]) or not all(x.atoms and all(I.models.kind(y) == 'bool' for y in x.atoms) for x in m[1]):
        return None
    new = {}
    for n, (x, old) in enumerate(zip(m[1], r[1])):
        c = x.consts()
        if c == {True} or c == {False}:
            new[n] = v if c == {True} else old
        else:
            new[n] = old if any(I.models.role(y) == 'lost' for y in old.atoms) else join(old, v)
    return store(I, st, oid, new)


def store(I, st, oid, new):
    root, own = root_of(I, st, oid)
    f = fact(I.obj(st, root), 'cells')
    if f is None:
        return None
    cells = list(f[1])
    for n, c in new.items():
        cells[own[n] if own is not None else n] = c.withdep(st.ctrl)
    return root, tuple(cells)


def drop(I, st, oid):
    """the array is modified in a way that is not followed"""
    for x in list(I.closure_objs(st, oid, False)) + [root_of(I, st, oid)[0]]:
        o = I.obj(st, x)
        if o is not None and fact(o, 'cells') is not None:
            st.heap[x] = o.replace(facts=frozenset(f for f in o.facts if not (isinstance(f, tuple) and f[0] == 'cells')))


def keep(I, st, new):
    if new is not None:
        o = I.obj(st, new[0])
        st.heap[new[0]] = o.replace(facts=o.facts | {('cells', new[1])}, elem=joinall(new[1]))


def broadcast(x, shape):
    xs, cells = x
    if count(shape) > LIMIT:
        return None
    while len(xs) > len(shape) and xs[0] == 1:
        xs = xs[1:]
    if len(xs) > len(shape):
        return None
    xs = (1,) * (len(shape) - len(xs)) + tuple(xs)
    if any(a not in (1, b) for a, b in zip(xs, shape)):
        return None
    return [cells[flat_index(xs, [i if d > 1 else 0 for i, d in zip(ix, xs)])] for ix in itertools.product(*[range(d) for d in shape])]


def joint_shape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    if any(x != y and 1 not in (x, y) for x, y in zip(a, b)):
        return None
    return tuple(max(x, y) if 0 not in (x, y) else 0 for x, y in zip(a, b))


def binop(I, st, e, x, op, y, tag='binop'):
    """elementwise operation of two atoms"""
    cx, cy = of_value(I, st, AV({x})), of_value(I, st, AV({y}))
    if cx is None or cy is None:
        return None
    if isinstance(op, ast.MatMult):
        return dot(I, st, e, cx, cy, (tag, x, y))
    shape = joint_shape(cx[0], cy[0])
    if shape is None:
        return None
    vx, vy = broadcast(cx, shape), broadcast(cy, shape)
    if vx is None or vy is None:
        return None
    return make(I, st, e, (tag, x, y), shape, [I.models.binop(I, st, e, a, op, b) for a, b in zip(vx, vy)])


def pairwise(I, st, e, x, y, tag, f):
    """f of the elements of two atoms, None if these are not all known"""
    cx, cy = of_value(I, st, AV({x})), of_value(I, st, AV({y}))
    shape = joint_shape(cx[0], cy[0]) if cx is not None and cy is not None else None
    if shape is None or shape == ():
        return None
    vx, vy = broadcast(cx, shape), broadcast(cy, shape)
    if vx is None or vy is None:
        return None
    return make(I, st, e, (tag, x, y), shape, [I.models.bools({f(p, q) for p in a.atoms for q in b.atoms}, a.dep | b.dep) for a, b in zip(vx, vy)])


def junction(I, name, cells, dep):
    """any or all of the elements"""
    stop = name == 'any'
    cs = [truth(I, x.single()) for x in cells]
    if stop in cs:
        return avc(stop, dep)
    return avc(not stop, dep) if all(c is (not stop) for c in cs) else None


def truth(I, a):
    if a is not None and a[0] == 'c' and isinstance(a[2], (bool, int, float)):
        return bool(a[2])
    return True if I.provenance and a is not None and a[0] == 's' and positive(a) else None


def known_bools(cells):
    cs = [x.single() for x in cells]
    return [c[2] for c in cs] if all(c is not None and c[0] == 'c' and isinstance(c[2], bool) for c in cs) else None


def names_of(a):
    """the elements of the model a number is the sum of"""
    r = a[2] if a[0] == 's' and len(a) > 2 and isinstance(a[2], str) else ''
    return [r] if r.startswith('cell:') else r[4:].split('|') if r.startswith('sum:') else None


EMPTYSET = frozenset()


def parts_of(a):
    """the elements a number is computed from: (outside of denominators, in denominators)"""
    if a[0] == 'c':
        return (EMPTYSET, EMPTYSET) if isinstance(a[2], (int, float)) else None
    r = a[2] if a[0] == 's' and len(a) > 2 and isinstance(a[2], str) else ''
    if r.startswith('made:'):
        n, d = r[5:].rstrip('+').split('/')
        return frozenset(x for x in n.split('|') if x), frozenset(x for x in d.split('|') if x)
    ns = names_of(a)
    return (frozenset(ns), EMPTYSET) if ns else None


def made(nums, dens, positive=False):
    return S('float', 'made:' + '|'.join(sorted(nums)) + '/' + '|'.join(sorted(dens)) + ('+' if positive else ''))


def positive(a):
    """a number that is surely above zero"""
    if a[0] == 'c':
        return isinstance(a[2], (int, float)) and a[2] > 0
    return bool(names_of(a)) or a[0] == 's' and len(a) > 2 and isinstance(a[2], str) and a[2][:5] == 'made:' and a[2][-1] == '+'


def provenance(x, op, y, px, py, one, zero):
    """where operations are not followed any further than to the elements they use; None: the exact rules apply"""
    if one(y) and isinstance(op, (ast.Mult, ast.Div, ast.Pow)) or zero(y) and isinstance(op, (ast.Add, ast.Sub)):
        return x
    if one(x) and isinstance(op, ast.Mult) or zero(x) and isinstance(op, ast.Add):
        return y
    if (zero(x) or zero(y)) and isinstance(op, ast.Mult) or zero(x) and isinstance(op, ast.Div):
        return C(0.0)
    if isinstance(op, ast.Add) and names_of(x) and names_of(y) and not px[0] & py[0]:
        return None
    pos = positive(x) and positive(y) and not isinstance(op, ast.Sub)
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        return made(px[0] | py[0], px[1] | py[1], pos)
    if isinstance(op, ast.Div):
        return made(px[0], px[1] | py[0] | py[1], pos)
    if isinstance(op, ast.Pow) and not py[0]:
        return made(*px, positive(x))
    return None


def elementwise(I, a):
    """a function of one number"""
    p = parts_of(a)
    return made(*p) if p is not None and (p[0] or p[1]) else None


FUNCTIONS = {'abs': abs, 'absolute': abs, 'fabs': abs, 'exp': math.exp, 'log': math.log, 'log2': math.log2, 'sqrt': math.sqrt, 'square': lambda x: x * x}


def scalar(I, name, v):
    a = v.single()
    if a is not None and a[0] == 'c' and isinstance(a[2], (int, float)):
        try:
            return avc(float(FUNCTIONS[name](a[2])), v.dep)
        except (ValueError, OverflowError):
            return None
    r = elementwise(I, a) if a is not None else None
    return AV({r}, v.dep) if r is not None else None


def dot(I, st, e, x, y, tag):
    """the product of matrices and vectors"""
    (sx, cx), (sy, cy) = x, y
    if not sx or not sy or len(sx) > 2 or len(sy) > 2 or sx[-1] != sy[0] or 0 in sx + sy:
        return None
    rows = [cx[i * sx[-1]:(i + 1) * sx[-1]] for i in range(sx[0])] if len(sx) == 2 else [cx]
    w = sy[1] if len(sy) == 2 else 1
    cols = [[cy[k * w + j] for k in range(sy[0])] for j in range(w)]
    out = []
    x, y = known_bools(cx), known_bools(cy)
    for r in rows:
        for c in cols:
            t = None
            if x is not None and y is not None:
                # the product of arrays of booleans is one
                out.append(avc(any(a.single()[2] and b.single()[2] for a, b in zip(r, c))))
                continue
            for a, b in zip(r, c):
                v = I.models.binop(I, st, e, a, ast.Mult(), b)
                t = v if t is None else I.models.binop(I, st, e, t, ast.Add(), v)
            out.append(t)
    shape = tuple(sx[:-1]) + tuple(sy[1:])
    return make(I, st, e, tag, shape, out) if shape else out[0]


def inverse(shape, cells):
    """of a matrix of constants"""
    from fractions import Fraction
    n = shape[0]
    cs = [c.single() for c in cells]
    if len(shape) != 2 or shape[1] != n or not all(c is not None and c[0] == 'c' and isinstance(c[2], (int, float)) and math.isfinite(c[2]) for c in cs):
        return None
    m = [[Fraction(cs[i * n + j][2]) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for k in range(n):
        piv = next((i for i in range(k, n) if m[i][k]), None)
        if piv is None:
            return None
        m[k], m[piv] = m[piv], m[k]
        m[k] = [v / m[k][k] for v in m[k]]
        for i in range(n):
            if i != k and m[i][k]:
                f = m[i][k]
                m[i] = [a - f * b for a, b in zip(m[i], m[k])]
    return [avc(float(m[i][n + j])) for i in range(n) for j in range(n)]


def solved(a, b):
    """the unknowns of a linear system whose equations give them at once; the others are unknown"""
    n = a[0][0]
    if len(a[0]) != 2 or a[0][1] != n or b[0] != (n,):
        return None
    out = []
    for i in range(n):
        row = [c.single() for c in a[1][i * n:(i + 1) * n]]
        zero = lambda x: x is not None and x[0] == 'c' and x[2] == 0
        if None in row:
            out.append(AV({S('float')}))
        elif row[i][0] == 'c' and row[i][2] == 1 and all(zero(x) for j, x in enumerate(row) if j != i):
            out.append(b[1][i])
        else:
            out.append(AV({S('float', 'lost')}))
    return out


def linalg(I, st, e, name, fl, kwargs):
    if not fl or kwargs:
        return None
    x = of_value(I, st, fl[0])
    if x is None or not x[0]:
        return None
    if name == 'solve' and len(fl) == 2 and I.provenance:
        y = of_value(I, st, fl[1])
        r = solved(x, y) if y is not None else None
        return make(I, st, e, (name, fl[0].single(), fl[1].single()), y[0], r) if r is not None else None
    if name == 'inv' and len(fl) == 1:
        r = inverse(*x)
        return make(I, st, e, (name, fl[0].single()), x[0], r) if r is not None else None
    if name == 'matrix_power' and len(fl) == 2:
        k = fl[1].single()
        if k is None or k[0] != 'c' or not isinstance(k[2], int) or not 1 <= k[2] <= (40 if known_bools(x[1]) is not None else 8) or len(x[0]) != 2 or x[0][0] != x[0][1]:
            return None
        v = fl[0]
        for n in range(k[2] - 1):
            r = dot(I, st, e, of_value(I, st, v), x, (name, n, fl[0].single()))
            if r is None:
                return None
            v = r
        return v if k[2] > 1 else make(I, st, e, name, *x)
    return None


def unit(I, x, op, y):
    """what is known of the arithmetics of elements: sums of different ones; operations that leave one as it is, and that never do"""
    number = lambda a: a[0] == 'c' and a[1] in ('int', 'float') and a[2] == a[2]
    one = lambda a: number(a) and a[2] == 1
    zero = lambda a: number(a) and a[2] == 0
    if isinstance(op, (ast.BitAnd, ast.BitOr)):
        decide = C(isinstance(op, ast.BitOr))
        return decide if decide in (x, y) else None
    if isinstance(op, ast.Add) and 'iv' in (x[0], y[0]):
        rs = [I.models.cellrange(a) if not number(a) else ('iv', 'float', a[2], a[2]) for a in (x, y)]
        if all(r[0] == 'iv' for r in rs):
            return ('iv', 'float', rs[0][2] + rs[1][2], rs[0][3] + rs[1][3])
    if I.provenance:
        px, py = parts_of(x), parts_of(y)
        if px is not None and py is not None and (px[0] or py[0] or px[1] or py[1]):
            r = provenance(x, op, y, px, py, one, zero)
            if r is not None:
                return r
    nx, ny = names_of(x), names_of(y)
    if nx and (one(y) and isinstance(op, (ast.Mult, ast.Div)) or zero(y) and isinstance(op, (ast.Add, ast.Sub))):
        return x
    if ny and (one(x) and isinstance(op, ast.Mult) or zero(x) and isinstance(op, ast.Add)):
        return y
    if (nx and zero(y) or ny and zero(x)) and isinstance(op, ast.Mult) or zero(x) and ny and isinstance(op, ast.Div):
        return C(0.0)
    if nx and ny and isinstance(op, ast.Add) and not set(nx) & set(ny):
        names = set(nx) | set(ny)
        return C(1.0) if frozenset(names) in I.rows else S('float', 'sum:' + '|'.join(sorted(names)))
    if nx and len(nx) == 1 and isinstance(op, (ast.Mult, ast.Div)) and (number(y) or ny and x != y):
        return lost(I, 'arithmetics')
    if ny and len(ny) == 1 and isinstance(op, ast.Mult) and (number(x) or nx and x != y):
        return lost(I, 'arithmetics')
    return None


def lost(I, why):
    if I.tokens is not None:
        I.tokens.lose(why)
    return S('float', 'lost')


def inplace(I, st, node, oid, op, rhs):
    r = of(I, st, oid)
    x = of_value(I, st, rhs)
    if r is None or x is None or I.loopdepth or isinstance(op, ast.MatMult):
        return None
    vals = broadcast(x, r[0])
    if vals is None:
        return None
    return store(I, st, oid, {n: I.models.binop(I, st, node, a, op, b) for n, (a, b) in enumerate(zip(r[1], vals))})


def items(I, st, e, oid):
    """the items an iteration over the array yields"""
    r = of(I, st, oid)
    if r is None or not r[0]:
        return None
    shape, cells = r
    if len(shape) == 1:
        return cells
    n = count(shape[1:])
    return tuple(view(I, st, e, ('iter', oid, i), oid, shape[1:], range(i * n, (i + 1) * n)) for i in range(shape[0]))


def transpose(shape, cells):
    if len(shape) < 2:
        return shape, range(len(cells))
    r = tuple(reversed(shape))
    return r, [flat_index(shape, ix[::-1]) for ix in itertools.product(*[range(d) for d in r])]


def nested(I, st, e, shape, cells, tag=()):
    if not shape:
        return cells[0]
    n = count(shape[1:])
    return I.new(st, e, ('nested', tag), 'list', items=tuple(nested(I, st, e, shape[1:], cells[i * n:(i + 1) * n], tag + (i,)) for i in range(shape[0])), shape=(shape[0],))


def const_shape(I, st, v):
    a = v.single()
    if a is None:
        return None
    if a[0] == 'c' and isinstance(a[2], int):
        return (a[2],)
    its = I.models.exact_items(I, st, v)
    if its is None:
        return None
    cs = [i.single() for i in its]
    return tuple(c[2] for c in cs) if all(c is not None and c[0] == 'c' and isinstance(c[2], int) for c in cs) else None


def axis_of(kwargs, fl, n=1):
    v = kwargs.get('axis', fl[n] if len(fl) > n else None)
    if v is None:
        return None
    a = v.single()
    if a == NONE:
        return None
    return a[2] if a is not None and a[0] == 'c' and isinstance(a[2], int) else '?'


def single(a, code):
    """a number in fewer bits"""
    if a[0] == 'c' and type(a[2]) in (int, float):
        try:
            return ('c', 'float', struct.unpack(code, struct.pack(code, a[2]))[0])
        except (OverflowError, struct.error):
            pass
    return S('float')


def convert(I, st, x, ty):
    k = ty.single() if ty is not None else None
    want = {('b', 'float'): 'float', ('ext', 'numpy.float64'): 'float', ('c', 'str', 'float'): 'float', ('b', 'int'): 'int', ('b', 'bool'): 'bool', ('b', 'str'): 'str'}.get(k)
    if want is None:
        if k == ('ext', 'numpy.float32') or k == ('ext', 'numpy.float16') or k == ('c', 'str', 'float32'):
            if I.tokens is not None:
                I.tokens.lose('float32')
                return AV({S('float', 'lost')}, x.dep)
            code = 'e' if k == ('ext', 'numpy.float16') else 'f'
            return AV(frozenset(single(a, code) for a in x.atoms), x.dep)
        return None
    return AV(frozenset(I.models.convert(I, st, want, a) if a[0] != 'u' else U for a in x.atoms), x.dep)


def np_call(I, st, e, name, fl, kwargs, dep):
    if not fl:
        return None
    a0 = fl[0]
    if name in ('zeros', 'ones', 'full', 'empty'):
        shape = const_shape(I, st, a0)
        if shape is None or count(shape) > LIMIT:
            return None
        ty = kwargs.get('dtype', fl[2 if name == 'full' else 1] if len(fl) > (2 if name == 'full' else 1) else None)
        v = {'zeros': avc(0.0), 'ones': avc(1.0), 'empty': av(S('float')), 'full': fl[1] if len(fl) > 1 else AVU}[name]
        if ty is not None:
            v = convert(I, st, v, ty) or v
        return make(I, st, e, name, shape, [v] * count(shape), a0.dep)
    if name in ('eye', 'identity'):
        s = const_shape(I, st, a0)
        if s is None or len(s) != 1 or len(fl) > 1 and name == 'eye' and not (fl[1].single() or ' ')[0] == 'b':
            return None
        n = s[0]
        return make(I, st, e, name, (n, n), [avc(1.0 if i == j else 0.0) for i in range(n) for j in range(n)], a0.dep)
    if name in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
        c = of_value(I, st, a0)
        if c is None:
            return None
        v = {'zeros': avc(0.0), 'ones': avc(1.0), 'empty': av(S('float')), 'full': fl[1] if len(fl) > 1 else AVU}[name[:-5]]
        return make(I, st, e, name, c[0], [v] * len(c[1]), EMPTY)
    if name == 'ix_':
        return I.new(st, e, name, 'ix', items=tuple(fl), dep=dep)
    c = of_value(I, st, a0)
    if c is not None and not c[0] and I.provenance and len(fl) == 1 and not kwargs and name in FUNCTIONS:
        return scalar(I, name, a0)
    if name in ('vstack', 'hstack', 'concatenate', 'row_stack', 'append'):
        return joined(I, st, e, name, fl, kwargs)
    if name in ('stack', 'column_stack'):
        return None
    if name == 'arange' and (not kwargs or set(kwargs) == {'dtype'} and kwargs['dtype'].single() == ('b', 'int')):
        cs = [x.single() for x in fl]
        if all(c is not None and c[0] == 'c' and type(c[2]) is int for c in cs) and len(range(*[c[2] for c in cs][:3])) <= LIMIT:
            r = list(range(*[c[2] for c in cs]))
            return make(I, st, e, name, (len(r),), [avc(x) for x in r], dep)
        return None
    if name in ('array', 'asarray') and a0.single() is not None and I.models.exact_items(I, st, a0) == ():
        return make(I, st, e, name, (0,), [], dep)
    if name in ('repeat', 'tile') and len(fl) == 2 and not kwargs:
        x, k = of_value(I, st, a0), fl[1].single()
        if x is None or len(x[0]) > 1 or k is None or k[0] != 'c' or type(k[2]) is not int or not 0 <= k[2] * len(x[1]) <= LIMIT:
            return None
        cs = list(x[1]) * k[2] if name == 'tile' else [y for y in x[1] for _ in range(k[2])]
        return make(I, st, e, (name, a0.single()), (len(cs),), cs, dep)
    if c is None or not c[0]:
        return None
    shape, cells = c
    a = a0.single()
    isarr = I.obj(st, a[1]).t == 'ndarray' if a[0] == 'o' else False
    if name in ('copy', 'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d'):
        ty = kwargs.get('dtype', fl[1] if len(fl) > 1 and name != 'copy' else None)
        if name == 'atleast_2d' and len(shape) == 1:
            return None
        if isarr and name != 'array' and name != 'copy':
            return None if ty is not None else a0
        if ty is not None:
            cells = [convert(I, st, x, ty) for x in cells]
            if None in cells:
                return None
        return make(I, st, e, (name, a), shape, cells, a0.dep)
    if name in ('dot', 'matmul') and len(fl) == 2 and not kwargs:
        d = of_value(I, st, fl[1])
        return dot(I, st, e, c, d, (name, a, fl[1].single())) if d is not None else None
    if name in FUNCTIONS and I.provenance and len(fl) == 1 and not kwargs:
        cs = [scalar(I, name, x) for x in cells]
        return make(I, st, e, (name, a), shape, cs) if None not in cs else None
    if name == 'transpose' and len(fl) == 1 and not kwargs:
        s, pos = transpose(shape, cells)
        return view(I, st, e, (name, a), a[1], s, pos) if isarr else make(I, st, e, (name, a), s, [cells[n] for n in pos], EMPTY)
    if name == 'ravel' and len(fl) == 1 and not kwargs:
        return view(I, st, e, (name, a), a[1], (len(cells),), range(len(cells))) if isarr else make(I, st, e, (name, a), (len(cells),), cells, EMPTY)
    if name == 'reshape' and len(fl) == 2 and not kwargs and isarr:
        return method(I, st, e, a[1], name, fl[1:], kwargs, dep)
    if name == 'ndenumerate':
        its = []
        for n, (ix, x) in enumerate(zip(itertools.product(*[range(d) for d in shape]), cells)):
            t = I.new(st, e, ('ndix', n), 'tuple', items=tuple(avc(i) for i in ix), shape=(len(ix),))
            its.append(I.new(st, e, ('ndel', n), 'tuple', items=(t, x), shape=(2,)))
        return I.new(st, e, name, 'iter', items=tuple(its), shape=(len(its),))
    if name == 'isclose' and len(fl) > 1:
        rt, at = I.models.tolerances(I, st, fl, kwargs)
        x, y = a0.single(), fl[1].single()
        if rt is None or at is None or x is None or y is None:
            return None
        return pairwise(I, st, e, x, y, name, lambda p, q: I.models.close(p, q, rt, at))
    if name in ('sum',):
        return reduce(I, st, e, name, shape, cells, axis_of(kwargs, fl), kwargs.get('keepdims'), ast.Add())
    if name == 'allclose' and len(fl) > 1 and len(fl) + len(kwargs) == 2:
        d = of_value(I, st, fl[1])
        vs = broadcast(d, shape) if d is not None else None
        if vs is not None and all(x.single() is not None for x in (*cells, *vs)):
            return junction(I, 'all', [I.models.bools({I.models.close(x.single(), y.single(), 1e-5, 1e-8)}) for x, y in zip(cells, vs)], dep)
        return None
    if name == 'where' and len(fl) == 3:
        m = known_bools(cells)
        xs = [of_value(I, st, x) for x in fl[1:]]
        if m is None or None in xs:
            return None
        sh = joint_shape(joint_shape(shape, xs[0][0]) or (), xs[1][0])
        vs = [broadcast(x, sh) for x in ((shape, cells), *xs)] if sh is not None else [None]
        return make(I, st, e, name, sh, [p if c.single()[2] else q for c, p, q in zip(*vs)], EMPTY) if None not in vs else None
    if name in ('any', 'all'):
        return fold_bools(I, st, e, name, shape, cells, axis_of(kwargs, fl), kwargs.get('keepdims'))
    r = constants(I, st, e, name, a0, shape, cells, fl, kwargs)
    if r is not None:
        return r
    if name in ('prod',):
        return reduce(I, st, e, name, shape, cells, axis_of(kwargs, fl), kwargs.get('keepdims'), ast.Mult())
    if name == 'mean' and set(kwargs) <= {'axis', 'keepdims'} and len(fl) <= 2 and cells:
        return mean(I, st, e, shape, cells, axis_of(kwargs, fl), kwargs.get('keepdims'))
    if name == 'diag' and len(shape) == 1 and len(fl) <= 2 and set(kwargs) <= {'k'}:
        k = (fl[1] if len(fl) > 1 else kwargs.get('k', avc(0))).single()
        if k is None or k[0] != 'c' or type(k[2]) is not int:
            return None
        n = shape[0] + abs(k[2])
        zero = avc(0.0)
        return make(I, st, e, (name, a, k[2]), (n, n), [cells[min(i, j)] if j - i == k[2] else zero for i in range(n) for j in range(n)], EMPTY)
    if name in ('diag', 'diagonal') and len(shape) == 2 and shape[0] == shape[1] and len(fl) == 1:
        return make(I, st, e, (name, a), (shape[0],), [cells[i * shape[0] + i] for i in range(shape[0])], EMPTY)
    if name in ('real',):
        return a0
    if name in ('flip', 'fliplr', 'flipud') and isarr:
        ax = axis_of(kwargs, fl) if name == 'flip' else 1 if name == 'fliplr' else 0
        if ax == '?' or isinstance(ax, int) and not -len(shape) <= ax < len(shape):
            return None
        axes = range(len(shape)) if ax is None else [ax % len(shape)]
        pos = grid(shape, [list(range(d))[::-1] if n in axes else list(range(d)) for n, d in enumerate(shape)])
        return view(I, st, e, (name, a), a[1], shape, pos)
    if name in ('round', 'around'):
        if I.tokens is not None:
            I.tokens.lose(name)
        k = (fl[1] if len(fl) > 1 else kwargs.get('decimals', avc(0))).single()
        k = k[2] if k is not None and k[0] == 'c' and type(k[2]) is int else None
        if I.tokens is None and k is not None:
            return make(I, st, e, (name, a), shape, [AV(frozenset(C(round(y[2], k)) if y[0] == 'c' and type(y[2]) is float else y if y[0] == 'c' else S('float') for y in x.atoms), x.dep) for x in cells], EMPTY)
        return make(I, st, e, (name, a), shape, [AV(frozenset(S('float', 'lost') if (I.models.role(y) or '').startswith('cell:') else S('float') for y in x.atoms), x.dep) for x in cells], EMPTY)
    return None


def numbers(cells):
    """the values of constant elements"""
    cs = [x.single() for x in cells]
    return [c[2] for c in cs] if all(c is not None and c[0] == 'c' and isinstance(c[2], (bool, int, float)) and c[2] == c[2] for c in cs) else None


def constants(I, st, e, name, a0, shape, cells, fl, kwargs):
    """functions of arrays of which enough elements are known"""
    a = a0.single()
    tag = (name, a) + tuple(x.single() for x in fl[1:])
    if name in ('where', 'nonzero', 'flatnonzero', 'argwhere', 'count_nonzero') and len(fl) == 1 and not kwargs:
        ks = [x.single() for x in cells]
        if any(k is None or k[0] != 'c' and not (I.provenance and positive(k)) for k in ks):
            return None
        pos = [n for n, k in enumerate(ks) if k[0] != 'c' or k[2]]
        ixs = [ix for n, ix in enumerate(itertools.product(*[range(d) for d in shape])) if n in pos]
        if name == 'count_nonzero':
            return avc(len(pos))
        if name == 'flatnonzero':
            return make(I, st, e, tag, (len(pos),), [avc(n) for n in pos])
        if name == 'argwhere':
            return make(I, st, e, tag, (len(pos), len(shape)), [avc(i) for ix in ixs for i in ix])
        return I.new(st, e, tag, 'tuple', items=tuple(make(I, st, e, tag + (d,), (len(pos),), [avc(ix[d]) for ix in ixs]) for d in range(len(shape))), shape=(len(shape),), facts=frozenset({'nonempty'}))
    if name in ('remainder', 'mod', 'add', 'subtract', 'multiply', 'divide', 'true_divide') and len(fl) == 2 and not kwargs and (a[0] == 'o'):
        op = {'remainder': ast.Mod, 'mod': ast.Mod, 'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult}.get(name, ast.Div)()
        y = fl[1].single()
        return binop(I, st, e, a, op, y, name) if y is not None else None
    if name == 'diag_indices_from' and len(set(shape)) == 1 or name == 'triu_indices_from' and len(shape) == 2 or name == 'tril_indices_from' and len(shape) == 2:
        k = fl[1].single() if len(fl) > 1 else C(0)
        if kwargs or k is None or k[0] != 'c' or type(k[2]) is not int:
            return None
        keep = (lambda i, j: i == j) if name[0] == 'd' else (lambda i, j: j - i >= k[2]) if name == 'triu_indices_from' else lambda i, j: j - i <= k[2]
        ixs = [(i,) * len(shape) for i in range(shape[0])] if name[0] == 'd' else [ix for ix in itertools.product(*[range(d) for d in shape]) if keep(*ix)]
        return I.new(st, e, tag, 'tuple', items=tuple(make(I, st, e, tag + (d,), (len(ixs),), [avc(ix[d]) for ix in ixs]) for d in range(len(shape))), shape=(len(shape),), facts=frozenset({'nonempty'}))
    if name in ('logical_and', 'logical_or') and len(fl) == 2 and not kwargs:
        d = of_value(I, st, fl[1])
        m = known_bools(cells)
        vs = broadcast(d, shape) if d is not None else None
        k = known_bools(vs) if vs is not None else None
        if m is None or k is None:
            return None
        return make(I, st, e, tag, shape, [avc(x and y if name == 'logical_and' else x or y) for x, y in zip(m, k)])
    if name in ('logical_not', 'invert') and len(fl) == 1:
        m = known_bools(cells)
        return make(I, st, e, tag, shape, [avc(not x) for x in m]) if m is not None else None
    if name in ('isnan', 'isfinite', 'isinf', 'isreal', 'nansum', 'nan_to_num') and len(fl) <= (2 if name == 'nansum' else 1):
        ks = [x.single() for x in cells]
        if any(k is None or k != NAN and (k[0] != 'c' or type(k[2]) not in (int, float, bool)) for k in ks):
            return None
        if name == 'nansum':
            if set(kwargs) - {'axis', 'dtype', 'keepdims'}:
                return None
            return reduce(I, st, e, name, shape, [avc(0.0) if k == NAN else x for k, x in zip(ks, cells)], axis_of(kwargs, fl), kwargs.get('keepdims'), ast.Add())
        if name == 'nan_to_num':
            return make(I, st, e, tag, shape, [avc(0.0) if k == NAN else x for k, x in zip(ks, cells)]) if not kwargs and not any(k != NAN and math.isinf(k[2]) for k in ks) else None
        test = {'isnan': lambda k: k == NAN, 'isfinite': lambda k: k != NAN and math.isfinite(k[2]), 'isinf': lambda k: k != NAN and math.isinf(k[2]), 'isreal': lambda k: True}[name]
        return make(I, st, e, tag, shape, [avc(test(k)) for k in ks]) if not kwargs else None
    if name == 'delete' and len(fl) == 2 and not kwargs and len(shape) == 1:
        s = axis_sel(I, st, fl[1].single(), shape[0])
        if s is None:
            return None
        gone = [s[1]] if s[0] == 'int' else s[1]
        cs = [x for n, x in enumerate(cells) if n not in gone]
        return make(I, st, e, tag, (len(cs),), cs)
    if name == 'take' and len(fl) == 2 and not kwargs and len(shape) == 1:
        return getitem(I, st, e, a[1], fl[1].single()) if a[0] == 'o' and fl[1].single() is not None else None
    if name == 'trace' and len(shape) == 2 and len(fl) == 1:
        return reduce(I, st, e, name, (min(shape),), [cells[i * shape[1] + i] for i in range(min(shape))], None, None, ast.Add())
    if name == 'outer' and len(fl) == 2:
        d = of_value(I, st, fl[1])
        return make(I, st, e, tag, (len(cells), len(d[1])), [I.models.binop(I, st, e, x, ast.Mult(), y) for x in cells for y in d[1]]) if d is not None and len(cells) * len(d[1]) <= LIMIT else None
    if name == 'cumsum' and len(fl) == 1 and not kwargs:
        out = []
        for x in cells:
            out.append(I.models.binop(I, st, e, out[-1], ast.Add(), x) if out else x)
        return make(I, st, e, tag, (len(out),), out)
    vals = numbers(cells)
    if vals is None:
        return None
    if name in ('unique', 'sort', 'argsort') and len(fl) == 1 and not kwargs and (name == 'unique' or len(shape) == 1):
        r = sorted(set(vals)) if name == 'unique' else sorted(vals) if name == 'sort' else sorted(range(len(vals)), key=lambda n: vals[n])
        return make(I, st, e, tag, (len(r),), [avc(x) for x in r])
    if name in ('isin', 'in1d') and len(fl) == 2 and not kwargs:
        d = of_value(I, st, fl[1])
        k = numbers(d[1]) if d is not None else [] if I.models.exact_items(I, st, fl[1]) == () else None
        return make(I, st, e, tag, shape, [avc(x in k) for x in vals]) if k is not None else None
    if name in ('setdiff1d', 'intersect1d', 'union1d') and len(fl) == 2 and not kwargs:
        d = of_value(I, st, fl[1])
        k = numbers(d[1]) if d is not None else None
        if k is None:
            return None
        r = sorted({'setdiff1d': set(vals) - set(k), 'intersect1d': set(vals) & set(k), 'union1d': set(vals) | set(k)}[name])
        return make(I, st, e, tag, (len(r),), [avc(x) for x in r])
    if name in ('min', 'max', 'amin', 'amax', 'argmin', 'argmax') and len(fl) == 1 and set(kwargs) <= {'axis'} and vals:
        ax = axis_of(kwargs, fl)
        f = {'min': min, 'max': max}[name[-3:]]
        one = (lambda xs: avc(xs.index(f(xs)))) if name.startswith('arg') else lambda xs: avc(f(xs))
        if ax is None or len(shape) == 1:
            return one(vals)
        if ax == '?' or len(shape) != 2 or not -2 <= ax < 2:
            return None
        lines = [vals[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])] if ax % 2 else [vals[j::shape[1]] for j in range(shape[1])]
        return make(I, st, e, tag + (ax,), (len(lines),), [one(x) for x in lines])
    return None


def joined(I, st, e, name, fl, kwargs):
    """arrays one after the other"""
    if name == 'append':
        vs = fl[:2]
    else:
        vs = I.models.exact_items(I, st, fl[0])
        if vs is None:
            return None
    xs = []
    for v in vs:
        x = of_value(I, st, v)
        if x is None and I.models.exact_items(I, st, v) == ():
            x = (0,), ()
        if x is None or any(a is None for a in (v.single(),)):
            return None
        if x[0] == () and name != 'append':
            return None
        xs.append(x if x[0] else ((1,), x[1]))
    tag = (name,) + tuple(v.single() for v in vs)
    axis = axis_of(kwargs, fl, 2 if name == 'append' else 1)
    if name in ('vstack', 'row_stack'):
        xs = [((1,) + tuple(s), c) if len(s) == 1 else (s, c) for s, c in xs]
        axis = 0
    elif name == 'hstack':
        axis = 0 if all(len(s) == 1 for s, _ in xs) else 1
    elif name == 'append' and axis is None:
        xs = [((len(c),), c) for _, c in xs]
        axis = 0
    elif name == 'concatenate' and 'axis' not in kwargs and len(fl) < 2:
        axis = 0
    if not xs or len({len(s) for s, _ in xs}) != 1 or not isinstance(axis, int) or not -len(xs[0][0]) <= axis < len(xs[0][0]):
        return None
    n = len(xs[0][0])
    axis %= n
    if n == 1 or axis == 0:
        if n > 1 and len({tuple(s[1:]) for s, _ in xs}) != 1:
            return None
        return make(I, st, e, tag, (sum(s[0] for s, _ in xs),) + tuple(xs[0][0][1:]), [c for _, cs in xs for c in cs])
    if n != 2 or len({s[0] for s, _ in xs}) != 1:
        return None
    rows = xs[0][0][0]
    return make(I, st, e, tag, (rows, sum(s[1] for s, _ in xs)), [c for i in range(rows) for s, cs in xs for c in cs[i * s[1]:(i + 1) * s[1]]])


def fold_bools(I, st, e, name, shape, cells, axis, keepdims):
    dep = joinall(cells).dep
    if axis is None:
        return junction(I, name, cells, dep) if keepdims is None else None
    if not isinstance(axis, int) or not -len(shape) <= axis < len(shape):
        return None
    axis %= len(shape)
    if len(shape) == 1:
        return junction(I, name, cells, dep) if keepdims is None else None
    kd = keepdims is not None and keepdims == avc(True)
    rest = [d for n, d in enumerate(shape) if n != axis]
    out = []
    for ix in itertools.product(*[range(d) for d in rest]):
        j = junction(I, name, [cells[flat_index(shape, ix[:axis] + (k,) + ix[axis:])] for k in range(shape[axis])], dep)
        out.append(j if j is not None else avc_bool(dep))
    return make(I, st, e, (name, axis), tuple(d if n != axis else 1 for n, d in enumerate(shape)) if kd else tuple(rest), out)


def avc_bool(dep):
    return AV({C(True), C(False)}, dep)


def unary(I, st, e, oid, op):
    r = of(I, st, oid)
    if r is None or isinstance(op, ast.Invert) and known_bools(r[1]) is None:
        return None
    if isinstance(op, ast.Invert):
        return make(I, st, e, ('unary', oid), r[0], [avc(not x) for x in known_bools(r[1])])
    return make(I, st, e, ('unary', oid), r[0], [I.models.unaryop(I, st, e, op, x) for x in r[1]])


def reduce(I, st, e, name, shape, cells, axis, keepdims, op):
    if axis == '?' or isinstance(axis, int) and not -len(shape) <= axis < len(shape):
        return None
    kd = keepdims is not None and keepdims == avc(True)

    def fold(xs):
        r = xs[0] if xs else avc(0.0)
        for x in xs[1:]:
            r = I.models.binop(I, st, e, r, op, x)
        return r
    if axis is None:
        r = fold(list(cells)) if cells else avc(0.0)
        return r if not kd else make(I, st, e, name, (1,) * len(shape), [r])
    axis %= len(shape)
    rest = [d for n, d in enumerate(shape) if n != axis]
    out = []
    for ix in itertools.product(*[range(d) for d in rest]):
        out.append(fold([cells[flat_index(shape, ix[:axis] + (k,) + ix[axis:])] for k in range(shape[axis])]))
    if len(shape) == 1:
        return out[0] if not kd else make(I, st, e, name, (1,), out)
    return make(I, st, e, (name, axis), tuple(d if n != axis else 1 for n, d in enumerate(shape)) if kd else tuple(rest), out)


def mean(I, st, e, shape, cells, axis, keepdims):
    r = reduce(I, st, e, 'mean', shape, cells, axis, keepdims, ast.Add())
    x = r.single() if r is not None else None
    if x is None:
        return None
    n = avc(float(len(cells) if axis is None else shape[axis]))
    return binop(I, st, e, x, ast.Div(), n.single(), 'mean') if x[0] == 'o' else I.models.binop(I, st, e, r, ast.Div(), n)


def method(I, st, e, oid, name, fl, kwargs, dep):
    r = of(I, st, oid)
    if r is None:
        return None
    shape, cells = r
    if name in ('copy',):
        return make(I, st, e, (name, oid), shape, cells)
    if name in ('flatten',) and not fl:
        return make(I, st, e, (name, oid), (len(cells),), cells)
    if name == 'ravel' and not fl:
        return view(I, st, e, (name, oid), oid, (len(cells),), range(len(cells)))
    if name == 'astype' and fl:
        cs = [convert(I, st, x, fl[0]) for x in cells]
        return make(I, st, e, (name, oid), shape, cs) if None not in cs and 'copy' not in kwargs else None
    if name == 'tolist':
        return nested(I, st, e, shape, cells, (oid,))
    if name == 'item':
        if not fl and len(cells) == 1:
            return cells[0]
        if len(fl) == len(shape):
            s = select(I, st, shape, I.new(st, e, 'itemix', 'tuple', items=tuple(fl)).single())
            return cells[s[1][0]] if s is not None and s[0] == () else None
    if name == 'transpose' and not fl:
        s, pos = transpose(shape, cells)
        return view(I, st, e, (name, oid), oid, s, pos)
    if name in ('any', 'all', 'min', 'max', 'argmin', 'argmax', 'nonzero', 'cumsum', 'repeat', 'argsort', 'trace', 'diagonal', 'take'):
        return np_call(I, st, e, name, [AV({('o', oid)})] + fl, kwargs, dep)
    if name in ('sum', 'prod'):
        return reduce(I, st, e, name, shape, cells, axis_of(kwargs, fl, 0), kwargs.get('keepdims'), ast.Add() if name == 'sum' else ast.Mult())
    if name in ('round', 'mean', 'dot'):
        return np_call(I, st, e, name, [AV({('o', oid)})] + fl, kwargs, dep)
    if name == 'reshape':
        s = const_shape(I, st, fl[0]) if len(fl) == 1 else tuple(x.single()[2] if x.single() is not None and x.single()[0] == 'c' else None for x in fl)
        if s is None or None in s or s.count(-1) > 1:
            return None
        if -1 in s:
            k = -count(s)
            s = tuple(len(cells) // k if d == -1 and k else d for d in s)
        return view(I, st, e, (name, oid, s), oid, s, range(len(cells))) if count(s) == len(cells) else None
    return None
