"""Shapes of arrays whose elements are not followed: what numpy's rules give for known numbers of rows and columns."""
import ast
import math

from . import cells
from .values import *

SAME = {'sort', 'cumsum', 'cumprod', 'roll', 'triu', 'tril', 'fliplr', 'flipud', 'flip', 'clip', 'round', 'around', 'abs', 'exp', 'log', 'sqrt', 'nan_to_num', 'isnan', 'isfinite', 'negative', 'absolute', 'argsort', 'inv', 'pinv', 'matrix_power',
        'copy', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'conj', 'real', 'imag', 'square', 'floor', 'ceil', 'log2', 'log10', 'sign', 'isclose'}
LARGEST = 4096


def known(s):
    return s is not None and all(isinstance(d, int) for d in s)


def shape_of(I, st, v, depth=3):
    """the shape of a value, elements included, if all of it is known"""
    a = v.single() if isinstance(v, AV) else v
    if a is None:
        return None
    if a[0] in ('c', 's', 'iv', 'nan'):
        return () if a != NONE else None
    o = I.obj(st, a[1]) if a[0] == 'o' else None
    if o is None:
        return None
    if o.t == 'ndarray':
        return tuple(o.shape) if known(o.shape) else None
    if o.t in ('list', 'tuple') and depth:
        if o.items is not None:
            inner = {shape_of(I, st, x, depth - 1) for x in o.items}
            if len(inner) > 1 or None in inner:
                return None
            return (len(o.items),) + (inner.pop() if inner else ())
        if o.shape and len(o.shape) == 1 and isinstance(o.shape[0], int) and o.elem.atoms:
            inner = {shape_of(I, st, x, depth - 1) for x in o.elem.atoms}
            if len(inner) == 1 and None not in inner:
                return (o.shape[0],) + inner.pop()
    return None


def const(v):
    a = v.single() if isinstance(v, AV) else v
    return a[2] if a is not None and a[0] == 'c' else None


def integer(v):
    c = const(v) if v is not None else None
    return c if type(c) is int else None


def joint(sx, sy):
    """broadcasting; dimensions that are not known numbers are taken for ones that fit"""
    if sx is None or sy is None:
        return None
    n = max(len(sx), len(sy))
    out = []
    for x, y in zip((1,) * (n - len(sx)) + tuple(sx), (1,) * (n - len(sy)) + tuple(sy)):
        if x == y or y == 1 and x is not None:
            out.append(x)
        elif x == 1 and y is not None:
            out.append(y)
        elif x is None or y is None:
            z = x if y is None else y
            out.append(z if z is not None and z != 1 else None)
        else:
            out.append(None)
    return tuple(out)


def matmul(s, t):
    if not (known(s) and known(t)) or not s or not t or len(s) > 2 or len(t) > 2:
        return None
    return s[:-1] + t[1:]


def index(I, st, shape, a):
    """the shape of an array of this shape, indexed"""
    if not known(shape) or math.prod(shape) > LARGEST:
        return None
    s = cells.select(I, st, shape, a)
    if s is not None:
        return s[0]
    items = [a]
    if a[0] == 'o':
        o = I.obj(st, a[1])
        if o is not None and o.t in ('tuple', 'ix'):
            if o.items is None:
                return None
            items = [x.single() for x in o.items]
            if o.t == 'ix':
                ls = [length(I, st, x) for x in items]
                return tuple(ls) if None not in ls and len(ls) == len(shape) else None
    if any(x is None for x in items):
        return None
    out, lists, n = [], [], 0
    for x in items:
        if x == NONE or x == ('ext', 'numpy.newaxis'):
            out.append(1)
            continue
        if n >= len(shape):
            return None
        d = shape[n]
        n += 1
        if x[0] == 'slice':
            if '?' in x[1:]:
                return None
            out.append(len(range(*slice(*x[1:]).indices(d))))
        elif x[0] == 'o':
            k = length(I, st, x)
            if k is None:
                return None
            lists.append((n - 1, k))
            out.append(k)
        elif not whole(x):
            return None
    if len(lists) > 1:
        # one dimension for all of them, if they stand next to each other
        if len({k for _, k in lists}) > 1 or any(b - a != 1 for (a, _), (b, _) in zip(lists, lists[1:])) or len(out) != len(lists):
            return None
        out = [lists[0][1]]
    return tuple(out) + shape[n:]


def whole(a):
    return a[0] in ('c', 's', 'iv') and a[1] in ('int', 'npint')


def length(I, st, a):
    """how many positions an index list stands for (not a mask)"""
    o = I.obj(st, a[1]) if a[0] == 'o' else None
    if o is None or o.t not in ('list', 'ndarray'):
        return None
    s = shape_of(I, st, a)
    if s is None or len(s) != 1:
        return None
    els = [x for v in o.items for x in v.atoms] if o.items is not None else list(I.elem_of(st, a[1]).atoms)
    return s[0] if els and all(whole(x) for x in els) else None


def axis(kwargs, fl, n, rank):
    """the axis argument: None if it is not given, -1 if it is not known"""
    v = kwargs.get('axis', fl[n] if len(fl) > n else None)
    if v is None or const(v) is None and v.single() == NONE:
        return None
    k = integer(v)
    return k % rank if k is not None and -rank <= k < rank else -1


def of_call(I, st, name, fl, kwargs):
    """the shape of the result of a numpy function, or None"""
    if 'out' in kwargs or not fl:
        return None
    s = shape_of(I, st, fl[0])
    if name in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack'):
        return joined(I, st, name, fl, kwargs)
    if s is None:
        return None
    t = shape_of(I, st, fl[1]) if len(fl) > 1 else None
    if name in SAME:
        return (math.prod(s),) if name in ('cumsum', 'cumprod') and axis(kwargs, fl, 1, len(s)) is None else s if s != () else None
    if name in ('dot', 'matmul'):
        return matmul(s, t) or None
    if name == 'outer' and t is not None:
        return math.prod(s), math.prod(t)
    if name == 'solve' and t is not None and len(s) == 2:
        return t if len(t) == 1 or len(t) == 2 else None
    if name == 'tile' and len(fl) > 1:
        r = reps(I, st, fl[1])
        if r is None:
            return None
        n = max(len(r), len(s))
        return tuple(x * y for x, y in zip((1,) * (n - len(s)) + s, (1,) * (n - len(r)) + r))
    if name == 'repeat' and len(fl) > 1:
        k, ax = integer(fl[1]), axis(kwargs, fl, 2, len(s) or 1)
        if k is None or ax == -1:
            return None
        return (math.prod(s) * k,) if ax is None else s[:ax] + (s[ax] * k,) + s[ax + 1:]
    if name in ('delete', 'insert'):
        ax = axis(kwargs, fl, 2 if name == 'delete' else 3, len(s) or 1)
        if ax == -1 or len(fl) < 2:
            return None
        ix = fl[1].single()
        k = 1 if ix is not None and whole(ix) else distinct(I, st, fl[1]) if name == 'delete' else None
        if k is None:
            return None
        k = -k if name == 'delete' else k
        return (math.prod(s) + k,) if ax is None else s[:ax] + (s[ax] + k,) + s[ax + 1:]
    if name == 'append' and t is not None:
        ax = axis(kwargs, fl, 2, len(s) or 1)
        if ax == -1:
            return None
        return (math.prod(s) + math.prod(t),) if ax is None else s[:ax] + (s[ax] + t[ax],) + s[ax + 1:] if len(s) == len(t) else None
    if name == 'transpose' and len(fl) == 1 and not kwargs:
        return s[::-1]
    if name == 'ravel':
        return (math.prod(s),)
    if name == 'squeeze' and not kwargs and len(fl) == 1:
        return tuple(d for d in s if d != 1)
    if name == 'diag':
        k = integer(fl[1]) if len(fl) > 1 else integer(kwargs['k']) if 'k' in kwargs else 0
        if k is None or len(s) not in (1, 2):
            return None
        return (s[0] + abs(k),) * 2 if len(s) == 1 else (max(0, min(s[0] + min(k, 0), s[1] - max(k, 0))),)
    if name == 'expand_dims' and len(fl) > 1:
        k = integer(fl[1])
        return None if k is None else s[:k % (len(s) + 1)] + (1,) + s[k % (len(s) + 1):]
    if name == 'diff' and len(fl) == 1:
        ax = axis(kwargs, fl, 2, len(s) or 1)
        ax = len(s) - 1 if ax is None else ax
        return s[:ax] + (s[ax] - 1,) + s[ax + 1:] if s and ax != -1 else None
    if name == 'reshape' and len(fl) > 1:
        r = reps(I, st, fl[1], True) if len(fl) == 2 else tuple(integer(x) for x in fl[1:])
        if r is None or None in r or r.count(-1) > 1:
            return None
        k = math.prod(d for d in r if d != -1)
        if -1 in r and (k == 0 or math.prod(s) % k):
            return None
        return tuple(math.prod(s) // k if d == -1 else d for d in r)
    if name == 'take' and t is not None:
        ax = axis(kwargs, fl, 2, len(s) or 1)
        return None if ax == -1 else t if ax is None else s[:ax] + t + s[ax + 1:]
    if name == 'eigvals':
        return s[:1]
    return None


def distinct(I, st, v):
    its = I.models.exact_items(I, st, v)
    if its is None or any(integer(x) is None or integer(x) < 0 for x in its):
        return None
    return len({integer(x) for x in its})


def reps(I, st, v, negative=False):
    a = v.single()
    if a is None:
        return None
    if whole(a):
        ds = (integer(v),)
    else:
        its = I.models.exact_items(I, st, v)
        if its is None:
            return None
        ds = tuple(integer(x) for x in its)
    return ds if all(d is not None and (negative or d >= 0) for d in ds) else None


def joined(I, st, name, fl, kwargs):
    its = I.models.exact_items(I, st, fl[0])
    if not its:
        return None
    ss = [shape_of(I, st, x) for x in its]
    if None in ss:
        return None
    if name == 'stack':
        ax = axis(kwargs, fl, 1, len(ss[0]) + 1)
        ax = 0 if ax is None else ax
        return ss[0][:ax] + (len(ss),) + ss[0][ax:] if len(set(ss)) == 1 and ax != -1 else None
    if name == 'vstack':
        ss = [(1,) + (s or (1,)) if len(s) < 2 else s for s in ss]
        ax = 0
    elif name == 'column_stack':
        ss = [(s + (1,))[:2] if len(s) < 2 else s for s in ss]
        ax = 1
    elif name == 'hstack':
        ss = [s or (1,) for s in ss]
        ax = 0 if len(ss[0]) == 1 else 1
    else:
        if not ss[0]:
            return None
        ax = axis(kwargs, fl, 1, len(ss[0]))
        if ax == -1:
            return None
        if ax is None:
            if 'axis' in kwargs or len(fl) > 1:
                return (sum(math.prod(s) for s in ss),)
            ax = 0
    if len({len(s) for s in ss}) > 1 or any(s[:ax] + s[ax + 1:] != ss[0][:ax] + ss[0][ax + 1:] for s in ss):
        return None
    return ss[0][:ax] + (sum(s[ax] for s in ss),) + ss[0][ax + 1:]


def better(o, sh):
    """is this shape more than what is known?"""
    return sh is not None and (o.shape is None or len(o.shape) != len(sh) or None in o.shape)


def apply(o, sh):
    """a new array gets the shape that is known for it"""
    return o.replace(shape=tuple(sh), facts=o.facts | {'nonempty'} if sh and all(sh) else o.facts) if better(o, sh) else o


def split(I, st, e, fl, kwargs, view):
    """the parts of an array that is split into equal parts"""
    a = fl[0].single()
    s = shape_of(I, st, fl[0])
    k = integer(fl[1]) if len(fl) > 1 else None
    ax = axis(kwargs, fl, 2, len(s)) if s else -1
    ax = 0 if ax is None else ax
    o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
    if not s or ax == -1 or not k or s[ax] % k or k > 64 or o is None or o.t != 'ndarray' or I.loopdepth:
        return None
    return tuple(view(I, st, e, ('split', a, i), a[1], o, s[:ax] + (s[ax] // k,) + s[ax + 1:], 'def') for i in range(k))
