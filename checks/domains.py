"""Arguments: values outside of the documented domain are refused, values inside are accepted."""
import ast
import math

from sa.interp import Budget
from sa.par import pmap
from sa.values import *
from sa.values import AV
from sa.world import MODEL_CLASSES, World, entries, run_entry, root_node
from .effects import snap
from .options import Trace, operations, params

N, K = 4, 3         # states and symbols of the models the operations are run on
STATES, SYMBOLS = tuple(f'S{i}' for i in range(1, N + 1)), tuple(f'E{i}' for i in range(1, K + 1))
EPS = 1e-9


class B:
    """builds abstract arguments"""

    def __init__(self, w, name):
        self.w, self.name, self.n = w, name, 0
        self.dep = frozenset({'arg:' + name})
        self.org = self.dep

    def new(self, t, **kw):
        self.n += 1
        return self.w.new(('dom', self.name, self.n), t, origin=self.org, dep=self.dep, **kw)

    def c(self, *vs):
        return AV(frozenset(C(v) for v in vs), self.dep)

    def s(self, kind, role=None):
        return AV(frozenset({S(kind, role)}), self.dep)

    def npi(self, *vs):
        """numpy integers"""
        return self.lst([self.npi(*v) if isinstance(v, list) else AV(frozenset({('c', 'npint', v)}), self.dep) for v in vs])

    def lst(self, items, t='list'):
        items = tuple(x if isinstance(x, AV) else self.lst(x) if isinstance(x, (list, tuple)) else self.c(x) for x in items)
        return AV(self.new(t, items=items, shape=(len(items),), facts=frozenset({'nonempty'}) if items else EMPTY).atoms, self.dep)

    def some(self, elem, t='list', **kw):
        return AV(self.new(t, elem=AV(elem.atoms, self.dep), facts=frozenset({'nonempty'}), **kw).atoms, self.dep)

    def arr(self, elem, *shape, t='ndarray'):
        e = elem if isinstance(elem, AV) else self.c(elem)
        return AV(self.new(t, elem=e, shape=shape, facts=frozenset({'nonempty'} if all(shape) else ())).atoms, self.dep)

    def model(self, which, n=N):
        mod, cname, short = next(x for x in MODEL_CLASSES if x[2] == which)
        inst = model(self.w, self.w.repo.cls(mod, cname), f'{self.name}{self.n}', f'arg:{self.name}.', n)
        self.n += 1
        oid = inst.oids()[0]
        st = self.w.st
        st.heap[oid] = self.w.I.obj(st, oid).replace(origin=self.org, dep=self.dep)
        return AV(inst.atoms, self.dep)

    def graph(self, t='graph'):
        return AV(self.new(t, elem=self.s('str', 'nonblank')).atoms, self.dep)

    def dct(self):
        key = self.w.new(('dom', self.name, 'key'), 'tuple', elem=self.s('str', 'nonblank'))
        return AV(self.new('dict', elem=self.s('float'), facts=frozenset({('keyelem', key), 'nonempty'})).atoms, self.dep)


def model(w, ci, tag, origin, n=N, k=K):
    w.labels = {n: tuple(f'S{i}' for i in range(1, n + 1)), k: SYMBOLS}
    return w.model(ci, tag, origin, sp=(n, k))


# kinds of values: those an argument does not document are refused
POOL = {
    'None': lambda b: b.c(None), 'a boolean': lambda b: b.s('bool'), 'an integer': lambda b: b.s('int'), 'a float': lambda b: b.s('float'), 'a complex number': lambda b: b.s('complex', 'nonreal'),
    'a string': lambda b: b.s('str', 'nonblank'), 'a blank string': lambda b: b.s('str', 'blank'), 'bytes': lambda b: b.s('bytes'), 'an empty list': lambda b: b.lst([]),
    'a list of integers': lambda b: b.some(b.s('int')), 'a list of strings': lambda b: b.some(b.s('str', 'nonblank')), 'a list of floats': lambda b: b.some(b.s('float')),
    'a list of booleans': lambda b: b.some(b.s('bool')), 'a list of None': lambda b: b.some(b.c(None)), 'a list of lists': lambda b: b.lst([b.some(b.s('float')), b.some(b.s('float'))]),
    'a tuple': lambda b: b.some(b.s('float'), 'tuple'), 'a dictionary': lambda b: b.dct(), 'a set': lambda b: b.some(b.s('str', 'nonblank'), 'set'),
    'an array': lambda b: b.arr(b.s('float'), N, N), 'a vector': lambda b: b.arr(b.s('float'), N), 'an array of strings': lambda b: b.arr(b.s('str', 'nonblank'), N, N),
    'an array of complex numbers': lambda b: b.arr(b.s('complex', 'nonreal'), N, N), 'a data frame': lambda b: b.arr(b.s('float'), N, N, t='df'), 'a sparse matrix': lambda b: b.arr(b.s('float'), N, N, t='sparse'),
    'a directed graph': lambda b: b.graph(), 'a directed multigraph': lambda b: b.graph('multigraph'), 'a Markov chain': lambda b: b.model('mc'), 'a hidden Markov model': lambda b: b.model('hmm'),
}
NUMS = {'an integer', 'a float'}
ARRAYS = {'a list of lists', 'a list of integers', 'a list of floats', 'an array', 'a vector', 'a data frame', 'a sparse matrix', 'a list of booleans', 'an empty list'}
ACCEPT, REFUSE = True, False


class Domain:
    """kinds: documented kinds of values (POOL); cases: (description, builder, accepted?) within these kinds; the first accepted case is the sample"""

    def __init__(self, kinds, cases, optional=False):
        self.kinds, self.cases, self.optional = set(kinds), list(cases), optional

    def all(self):
        yield from self.cases
        for k, f in POOL.items():
            if k == 'None' and self.optional:
                yield k, f, ACCEPT
            elif k not in self.kinds:
                yield k, f, REFUSE

    @property
    def sample(self):
        return next(f for _, f, ok in self.cases if ok)


def opt(d):
    return Domain(d.kinds, d.cases, True)


def const(v):
    return lambda b: b.c(v)


def val(v, ok):
    return repr(v), const(v), ok


def span(kind, lo, hi, ok):
    """all values strictly between lo and hi"""
    words = {'int': 'integers', 'npint': 'numpy integers', 'float': 'floats'}[kind]
    what = f'any of the {words}' + (f' above {lo}' if math.isfinite(lo) else '') + (' and' if math.isfinite(lo) and math.isfinite(hi) else '') + (f' below {hi}' if math.isfinite(hi) else '')
    return what, lambda b: AV(frozenset({IV(kind, lo, hi)}), b.dep), ok


def integer(lo, hi=None):
    cs = [val(lo, ACCEPT), val(lo - 1, REFUSE), span('int', -math.inf, lo, REFUSE), span('int', lo - 1, hi + 1 if hi is not None else math.inf, ACCEPT)]
    cs += [val(hi, ACCEPT), val(hi + 1, REFUSE), span('int', hi, math.inf, REFUSE)] if hi is not None else []
    cs += [span('npint', lo - 1, hi + 1 if hi is not None else math.inf, ACCEPT), span('npint', -math.inf, lo, REFUSE)]
    return Domain({'an integer'}, cs)


def real(lo=None, lo_in=True, hi=None, hi_in=True):
    """int values are not specified"""
    cs = [val((lo or 0.0) + (0.05 if hi is not None else 0.25), ACCEPT), val(math.nan, REFUSE), val(math.inf, REFUSE), val(-math.inf, REFUSE)]
    cs.append(span('float', -math.inf if lo is None else lo, math.inf if hi is None else hi, ACCEPT))
    if lo is not None:
        cs += [val(lo, lo_in), val(lo - EPS, REFUSE), val(lo + EPS, ACCEPT), span('float', -math.inf, lo, REFUSE)]
    if hi is not None:
        cs += [val(hi, hi_in), val(hi + EPS, REFUSE), val(hi - EPS, ACCEPT), span('float', hi, math.inf, REFUSE)]
    return Domain({'a float', 'an integer'}, cs)


def boolean():
    return Domain({'a boolean'}, [val(False, ACCEPT), val(True, ACCEPT)])


def enum(*vs):
    return Domain({'a string'}, [val(v, ACCEPT) for v in vs] + [val('no such option', REFUSE)])


def label(labels):
    n = len(labels)
    return Domain({'an integer', 'a string'}, [val(labels[0], ACCEPT), val(0, ACCEPT), val(n - 1, ACCEPT), val(labels[-1], ACCEPT), val(-1, REFUSE), val(n, REFUSE), val('no such label', REFUSE),
                                             span('int', -math.inf, 0, REFUSE), span('int', n - 1, math.inf, REFUSE), span('int', -1, n, ACCEPT), npint(0, ACCEPT), npint(n - 1, ACCEPT), npint(-1, REFUSE), npint(n, REFUSE), OTHER])


OTHER = ('any string that is no label', lambda b: b.s('str', 'other'), REFUSE)


def some_of(what, atom, ok):
    """a list of any length of values of one kind"""
    return what, lambda b: b.some(AV({atom}, b.dep)), ok


def npints(vs, ok):
    return f'{vs} as numpy integers', (lambda b: b.npi(*vs)), ok


def npint(v, ok):
    return f'{v} as a numpy integer', (lambda b: AV(frozenset({('c', 'npint', v)}), b.dep)), ok


def items(vs, ok, what=None):
    return what or repr(vs), lambda b: b.lst(vs), ok


def states(labels, proper=True, least=1):
    n = len(labels)
    cs = [items(list(labels[:2]), ACCEPT), items([0, 1], ACCEPT), items(list(labels), not proper), items(list(range(n)), not proper), items([0, 0], REFUSE), items([labels[0], labels[0]], REFUSE),
          items([0, labels[1]], REFUSE), items([-1, 0], REFUSE), items([0, n], REFUSE), items([labels[0], 'no such label'], REFUSE), items([], REFUSE), items([0.5, 1.5], REFUSE), items([True, False], REFUSE),
          items([None, None], REFUSE), items([labels[0], ''], REFUSE), val(-1, REFUSE), val(n, REFUSE), val('no such label', REFUSE)]
    cs += [items([labels[1]], ACCEPT), items([1], ACCEPT), val(labels[1], ACCEPT), val(1, ACCEPT)] if least == 1 else [items([labels[1]], REFUSE), items([1], REFUSE)]
    cs += [OTHER, npints([0, 1], ACCEPT), npints([-1, 0], REFUSE), npints([0, n], REFUSE), npints([0, 0], REFUSE), span('int', -math.inf, 0, REFUSE), span('int', n - 1, math.inf, REFUSE), some_of('a list of integers below 0', IV('int', -math.inf, 0), REFUSE),
           some_of(f'a list of integers above {n - 1}', IV('int', n - 1, math.inf), REFUSE), some_of('a list of strings that are no labels', S('str', 'other'), REFUSE)]
    return Domain({'an integer', 'a string', 'a list of integers', 'a list of strings'}, cs)


def labels(size=None, prefix='L'):
    n = size or 3
    ls = [f'{prefix}{i}' for i in range(n)]
    cs = [items(ls, ACCEPT), items(ls[:-1] + [ls[0]], REFUSE, 'repeated labels'), items(ls[:-1] + [' '], REFUSE, 'a blank label'), items(ls[:-1] + [1], REFUSE, 'a label that is an integer'),
          items(ls[:-1] + [None], REFUSE, 'a label that is None'), items(ls[:1], REFUSE, 'one label')]
    if size:
        cs += [items(ls + ['more'], REFUSE, 'too many labels'), items(ls[:-1], REFUSE, 'too few labels')]
    return Domain({'a list of strings'}, cs)


def without(d, *vs):
    out = {repr(v) for v in vs}
    return Domain(d.kinds, [c for c in d.cases if c[0].split(' as ')[0] not in out and not (c[2] and c[0].startswith('any of'))], d.optional)


def sequence(labels):
    n = len(labels)
    return Domain({'a list of integers', 'a list of strings'}, [
        items([labels[0], labels[1], labels[0]], ACCEPT), items([0, 1, 1, 0], ACCEPT), items([n - 1, 0], ACCEPT), items([0], REFUSE), items([labels[0]], REFUSE), items([], REFUSE), items([-1, 0], REFUSE),
        items([0, n], REFUSE), npints([0, 1, 1], ACCEPT), npints([-1, 0], REFUSE), npints([0, n], REFUSE), items([labels[0], 'no such label'], REFUSE), items([0, labels[0]], REFUSE), items([0.0, 1.0], REFUSE), items([True, False], REFUSE), items([None, None], REFUSE),
        some_of('a list of integers below 0', IV('int', -math.inf, 0), REFUSE), some_of(f'a list of integers above {n - 1}', IV('int', n - 1, math.inf), REFUSE),
        some_of('a list of strings that are no labels', S('str', 'other'), REFUSE)])


def sequences(labels, flat):
    a = [labels[0], labels[1], labels[0]]
    cs = [items([a, [0, 1, 1]], ACCEPT), items([[0, 1], [1, 0]], ACCEPT), npints([[0, 1], [1, 0]], ACCEPT), npints([[0, 1], [1, len(labels)]], REFUSE), items([a, [0]], REFUSE), items([a, []], REFUSE), items([a, [-1, 0]], REFUSE), items([a, [0, len(labels)]], REFUSE),
          items([a, ['no such label', labels[0]]], REFUSE), items([a, [labels[0], 0]], REFUSE), items([a, None], REFUSE), items([a, 'text'], REFUSE), items([a], REFUSE), items([], REFUSE),
          items(a, flat), items([0, 1], flat), items([0, len(labels)], REFUSE), items([labels[0], 'no such label'], REFUSE), items([0, labels[0]], REFUSE)]
    return Domain({'a list of integers', 'a list of strings', 'a list of lists'}, cs)


def grid(v, *shape, t='ndarray'):
    return lambda b: b.arr(b.c(v), *shape, t=t)


def nested(rows):
    return lambda b: b.lst(rows)


def table(rows):
    """an array given as lists, each element known"""
    f = lambda b: b.lst(rows)
    f.exact = True
    return f


def at(rows, **kw):
    """with other elements: r1c2=value"""
    rows = [list(r) for r in rows]
    for k, v in kw.items():
        i, j = k[1:].split('c')
        rows[int(i)][int(j)] = v
    return rows


def chances(good):
    """the probabilities to leave a state; the last of them (of a birth) or the first of them (of a death) is zero"""
    end = good.index(0.0)
    other = lambda i, v: [v if j == i else x for j, x in enumerate(good)]
    cs = [('usual probabilities', good, ACCEPT), ('zeros', [0.0] * 4, ACCEPT), ('an end above zero', other(end, 0.25), REFUSE), ('a small end above zero', other(end, 0.001), REFUSE), ('zero at the other end', other(3 - end, 0.0), ACCEPT),
          ('zero at both ends but the wrong one', other(end, 0.5)[:3 - end] + [0.0] + other(end, 0.5)[4 - end:], REFUSE), ('a negative probability', other(1, -0.25), REFUSE), ('NaN as probability', other(2, math.nan), REFUSE),
          ('a probability above 1', other(1, 1.25), REFUSE), ('an infinite probability', other(2, math.inf), REFUSE)]
    return Domain(ARRAYS, [(d, table(x), ok) for d, x, ok in cs])


def rolled(row, n):
    return [[row[(j - i) % len(row)] for j in range(len(row))] for i in range(n)]


def tables(r, c, stochastic, upper):
    """single rows and elements that are not as they should be"""
    z = [0.0] * (c - 2)
    good, last = rolled([0.25, 0.75] + z, r), {f'r{r - 1}c0': 0.5, f'r{r - 1}c1': 0.5, **{f'r{r - 1}c{j}': 0.0 for j in range(2, c)}}
    good = at(good, **last)
    bad = lambda **kw: at(good, **{k.replace('last', str(r - 1)): v for k, v in kw.items()})
    cs = [('rows of different probabilities', good, ACCEPT), ('rows with a single 1', rolled([1.0, 0.0] + z, r), ACCEPT), ('NaN as the last element', bad(**{f'rlastc{c - 1}': math.nan}), REFUSE),
          ('an infinite first element', bad(r0c0=math.inf), REFUSE), ('a negative element in the last row', bad(rlastc0=-0.5, rlastc1=1.0, rlastc2=0.5), REFUSE)]
    if stochastic:
        cs += [('rows of equal probabilities with rounded sums', rolled([0.7, 0.2, 0.1] + [0.0] * (c - 3), r), ACCEPT), ('sums that differ from 1 by 1e-12', rolled([1.0 - 1e-12, 0.0] + z, r), ACCEPT),
               ('a last row with the sum 0.75', bad(rlastc0=0.25), REFUSE), ('a first row with the sum 1.25', bad(r0c0=0.5), REFUSE), ('a row of zeros', bad(rlastc0=0.0, rlastc1=0.0), REFUSE),
               ('rows with the sums 0.75 and 1.25', bad(r0c0=0.0, rlastc0=0.75), REFUSE), ('a row with the sum 0.99', bad(rlastc0=0.49), REFUSE), ('a row with the sum 1.001', bad(rlastc0=0.501), REFUSE)]
        if r == c:
            cs.append(('columns with the sum 1, rows with the sums 0.75 and 1.25', at(rolled([1.0, 0.0] + z, r), r0c0=0.5, r0c1=0.25, r1c0=0.5, r1c1=0.75), REFUSE))
    if upper:
        cs.append(('an element above 1 in the last row', bad(rlastc0=1.5), REFUSE))
    return [(d, table(x), ok) for d, x, ok in cs]


ELEMS = [('NaN', math.nan), ('infinite', math.inf), ('negative infinite', -math.inf), ('-0.1', -0.1), ('1.1', 1.1)]
KINDS_ARRAY = ('ndarray', 'df', 'sparse')
TNAMES = {'ndarray': 'an array', 'df': 'a data frame', 'sparse': 'a sparse matrix'}


def matrix(r, c, stochastic=True, upper=True, square=True, fixed=True, few=False):
    """r x c; the number of rows/columns is checked if fixed"""
    v = 1.0 / c if stochastic else 0.5
    cs = [(f'{TNAMES[t]} of {v}', grid(v, r, c, t=t), ACCEPT) for t in KINDS_ARRAY]
    cs.append(('a list of lists of numbers', nested([[v] * c for _ in range(r)]), ACCEPT))
    cs += [(f'elements {n}', grid(x, r, c), REFUSE) for n, x in ELEMS if upper or x != 1.1]
    cs.append(('complex elements', lambda b: b.arr(b.s('complex', 'nonreal'), r, c), REFUSE))
    cs += [('one row', grid(v, 1, c), REFUSE), ('one column', grid(1.0 if stochastic else 0.5, r, 1), REFUSE), ('a vector', grid(v, c), REFUSE), ('three dimensions', grid(v, r, c, 2), REFUSE)]
    if square:
        cs += [('more rows than columns', grid(v, c + 1, c), REFUSE), ('more columns than rows', grid(v, c - 1, c), REFUSE)]
    elif fixed:
        cs += [('too many rows', grid(v, r + 1, c), REFUSE), ('too few rows', grid(v, r - 1, c), REFUSE)]
    if square and fixed:
        cs += [('too large', grid(1.0 / (c + 1), r + 1, c + 1), REFUSE), ('too small', grid(1.0 / (c - 1), r - 1, c - 1), REFUSE)]
    if stochastic:
        cs += [('row sums below 1', grid(0.9 / c, r, c), REFUSE), ('row sums above 1', grid(1.1 / c, r, c), REFUSE)]
    cs += tables(r, c, stochastic, upper)
    if few:
        cs.append(('two columns', grid(0.5, r, 2), ACCEPT))
    return Domain(ARRAYS, cs)


def mask(r, c):
    cs = [('an array of 0.1 and NaN', lambda b: b.arr(b.c(0.1, math.nan), r, c), ACCEPT), ('an array of NaN', grid(math.nan, r, c), ACCEPT)]
    cs += [(f'elements {n}', grid(x, r, c), REFUSE) for n, x in ELEMS if n != 'NaN']
    some = [[math.nan] * c for _ in range(r)]
    full = {'r0c0': 0.25, 'r0c1': 0.75, **{f'r0c{j}': 0.0 for j in range(2, c)}}
    cs += [(d, table(at(some, **x)), ok) for d, x, ok in (
        ('a row of probabilities with the sum 1', full, ACCEPT), ('a row with a 1 and NaN', {'r1c0': 1.0}, ACCEPT), ('two probabilities with the sum 1 and NaN', {'r1c0': 0.25, 'r1c1': 0.75}, ACCEPT), ('a zero', {'r1c0': 0.0}, ACCEPT),
        ('a row of probabilities with the sum 0.75', {**full, 'r0c1': 0.5}, REFUSE), ('a row of zeros', {**full, 'r0c0': 0.0, 'r0c1': 0.0}, REFUSE), ('a row of probabilities with the sum 1.25', {**full, 'r0c0': 0.5}, REFUSE),
        ('two probabilities with the sum 1.25 and NaN', {f'r{r - 1}c0': 0.5, f'r{r - 1}c1': 0.75}, REFUSE), ('a negative probability', {f'r{r - 1}c{c - 1}': -0.5}, REFUSE), ('an infinite element', {'r0c0': math.inf}, REFUSE),
        ('a row with the sum 1 and a row with the sum 0.5', {**full, 'r1c0': 0.5, **{f'r1c{j}': 0.0 for j in range(1, c)}}, REFUSE))]
    cs += [('row sums above 1', grid(1.1 / c, r, c), REFUSE), ('too many rows', grid(math.nan, r + 1, c), REFUSE), ('too few columns', grid(math.nan, r, c - 1), REFUSE), ('a vector', grid(math.nan, c), REFUSE)]
    return Domain(ARRAYS, cs)


def vector(n=None, kind='stochastic', scalar=False):
    m = n or 3
    v = {'stochastic': 1.0 / m, 'unit': 0.5, 'any': 2.5}[kind]
    cs = [('an array', grid(v, m), ACCEPT), ('a row', grid(v, 1, m), ACCEPT), ('a list of numbers', nested([v] * m), ACCEPT)]
    cs += [(f'elements {x}', grid(y, m), REFUSE) for x, y in ELEMS if kind != 'any' or not math.isfinite(y)]
    cs += [('complex elements', lambda b: b.arr(b.s('complex', 'nonreal'), m), REFUSE), ('a column', grid(v, m, 1), REFUSE), ('a matrix', grid(v, m, m), REFUSE), ('an empty vector', grid(v, 0), REFUSE)]
    if n:
        cs += [('too long', grid(1.0 / (m + 1) if kind == 'stochastic' else v, m + 1), REFUSE), ('too short', grid(1.0 / (m - 1) if kind == 'stochastic' else v, m - 1), REFUSE)]
    rest = [0.0] * (m - 2)
    cs += [(f'{x} as the last element', table([v] * (m - 1) + [y]), REFUSE) for x, y in ELEMS if kind != 'any' or not math.isfinite(y)]
    if kind == 'stochastic':
        cs += [(d, table(x), ok) for d, x, ok in (('different probabilities', [0.25, 0.75] + rest, ACCEPT), ('a single 1', rest + [0.0, 1.0], ACCEPT), ('probabilities with a rounded sum', ([0.7, 0.1, 0.1, 0.1] + rest)[:m] if m > 3 else [0.7, 0.2, 0.1], ACCEPT),
                                                  ('a sum that differs from 1 by 1e-12', [0.25, 0.75 - 1e-12] + rest, ACCEPT), ('1.5 and -0.5', [1.5, -0.5] + rest, REFUSE), ('the sum 0.75', [0.25, 0.5] + rest, REFUSE), ('the sum 1.25', [0.5, 0.75] + rest, REFUSE),
                                                  ('zeros', [0.0, 0.0] + rest, REFUSE), ('the sum 0.99', [0.25, 0.74] + rest, REFUSE), ('the sum 1.001', [0.25, 0.751] + rest, REFUSE))]
    if kind == 'unit':
        cs += [('the limits', table([0.0, 1.0] + rest), ACCEPT)]
    if kind == 'stochastic':
        cs += [('sum below 1', grid(0.9 / m, m), REFUSE), ('sum above 1', grid(1.1 / m, m), REFUSE)]
    kinds = set(ARRAYS)
    if scalar:
        kinds |= NUMS
        cs += [val(0.5, ACCEPT), val(0.0, ACCEPT), val(1, ACCEPT), val(-EPS, REFUSE), val(1 + EPS, REFUSE), val(math.nan, REFUSE), val(math.inf, REFUSE), span('float', -math.inf, 0.0, REFUSE), span('float', 1.0, math.inf, REFUSE), span('float', 0.0, 1.0, ACCEPT)]
    return Domain(kinds, cs)


def status(labels):
    a, b = label(labels), vector(len(labels))
    return Domain(a.kinds | b.kinds, a.cases + b.cases)


def special(kinds, *cases):
    return Domain(kinds, cases)


def boundary():
    e = enum('absorbing', 'reflecting')
    return Domain({'a string'} | NUMS, e.cases + [val(v, True) for v in (0.0, 0.5, 1.0, 0, 1)] + [val(v, False) for v in (-EPS, 1 + EPS, -1, 2, math.nan, math.inf, -math.inf)] +
                  [span('float', -math.inf, 0.0, REFUSE), span('float', 1.0, math.inf, REFUSE), span('float', 0.0, 1.0, ACCEPT), span('int', -math.inf, 0, REFUSE), span('int', 1, math.inf, REFUSE)])


def time_points():
    return Domain({'an integer', 'a list of integers'}, [val(1, ACCEPT), val(0, ACCEPT), val(7, ACCEPT), val(-1, REFUSE), span('int', -math.inf, 0, REFUSE), span('int', -1, math.inf, ACCEPT), items([0, 1, 3], ACCEPT), npints([0, 1, 3], ACCEPT), npints([-1, 2], REFUSE), items([], REFUSE), items([-1, 2], REFUSE), items([2, -1], REFUSE), items([1, 1], REFUSE), items([3, 1, 0], ACCEPT), items([3, 1, 3], REFUSE),
                                                         items([1.5, 2.5], REFUSE), items([True, False], REFUSE)])


def interval():
    t = lambda *v: (repr(v), lambda b: b.lst(v, 'tuple'))
    ok, no = [t(0.0, 1.0), t(0, 1), t(1.5, 3)], [t(1.0, 0.0), t(1.0, 1.0), t(0.0, math.nan), t(0.0, math.inf), t(-1.0, 1.0), t(0.0,), t(0.0, 1.0, 2.0), t('a', 'b'), t(None, None)]
    return Domain({'a tuple'}, [(d, f, ACCEPT) for d, f in ok] + [(d, f, REFUSE) for d, f in no])


def partitions():
    a, b, c, d = STATES
    ok = [[[0, 1], [2, 3]], [[a], [b, c], [d]], [[0], [1, 2, 3]]]
    no = [[[0, 1, 2, 3]], [[0], [1], [2], [3]], [[0, 1], [2]], [[0, 1], [1, 2, 3]], [[0, 1], [2, 4]], [[-1, 0], [1, 2]], [[a, b], [c, 'no such label']], [[a, 1], [c, d]], [[a, b], 'text'], [[0.0, 1.0], [2.0, 3.0]], []]
    return Domain({'a list of lists'}, [items(x, ACCEPT) for x in ok] + [npints(x, not bad) for bad, y in enumerate((ok, no)) for x in y[:7] if x and type(x[0][0]) is int] + [items(x, REFUSE) for x in no])


def models(which=None):
    two = lambda k1, k2: lambda b: b.lst([b.model(k1), b.model(k2)])
    kinds = {'a list of integers', 'a list of strings', 'a list of floats', 'a list of booleans', 'a list of None', 'a list of lists'}
    return Domain(kinds, [('two Markov chains', two('mc', 'mc'), ACCEPT), ('two hidden Markov models', two('hmm', 'hmm'), ACCEPT), ('a Markov chain and a hidden Markov model', two('mc', 'hmm'), ACCEPT),
                          ('one model', lambda b: b.lst([b.model('mc')]), REFUSE), ('a model and None', lambda b: b.lst([b.model('mc'), b.c(None)]), REFUSE), ('None and a model', lambda b: b.lst([b.c(None), b.model('mc')]), REFUSE),
                          ('two strings', lambda b: b.lst([b.s('str', 'nonblank')] * 2), REFUSE), ('two lists', lambda b: b.lst([b.some(b.s('float'))] * 2), REFUSE),
                          ('a model and a number', lambda b: b.lst([b.model('mc'), b.c(1)]), REFUSE)])


def a_model():
    return Domain({'a Markov chain', 'a hidden Markov model'}, [('a Markov chain', POOL['a Markov chain'], ACCEPT), ('a hidden Markov model', POOL['a hidden Markov model'], ACCEPT)])


def chain(n=None):
    cs = [('a Markov chain', POOL['a Markov chain'], ACCEPT)]
    if n:
        cs += [('a larger Markov chain', lambda b: b.model('mc', n + 1), REFUSE), ('a smaller Markov chain', lambda b: b.model('mc', n - 1), REFUSE)]
    return Domain({'a Markov chain'}, cs)


def names(n):
    return Domain({'a list of strings'}, [items([f'N{i}' for i in range(n)], ACCEPT), items(['N'] * n, ACCEPT), items(['N'] * (n + 1), REFUSE), items(['N'] * (n - 1), REFUSE), items(['N'] * (n - 1) + [1], REFUSE),
                                          items(['N'] * (n - 1) + [' '], REFUSE)])


def rewards():
    return vector(N, 'any')


def hyper(n):
    cs = [('an array of ones', grid(1, n, n), ACCEPT), ('an array of 2.0', grid(2.0, n, n), ACCEPT)]
    cs += [(f'elements {x}', grid(x, n, n), REFUSE) for x in (0, 0.5, 1.5, -1, math.nan, math.inf)]
    ones = [[1] * n for _ in range(n)]
    cs += [(f'a last element {x}', table(at(ones, **{f'r{n - 1}c{n - 1}': x})), REFUSE) for x in (0, 0.5, 1.5, -1, 1.0000000001, 2.9999999999, math.nan, math.inf)] + [('different integers', table(at(ones, r0c1=7, r1c0=2.0)), ACCEPT)]
    cs += [('too many rows', grid(1, n + 1, n), REFUSE), ('too few columns', grid(1, n, n - 1), REFUSE), ('a vector', grid(1, n), REFUSE)]
    return Domain(ARRAYS, cs)


def path():
    ext = ['.csv', '.json', '.txt', '.xml']
    return Domain({'a string'}, [val('/somewhere/model' + x, ACCEPT) for x in ext] + [val('/somewhere/model' + x, REFUSE) for x in ('', '.png', '.jsonx', '.csv.gz')])


def dictionary(hmm=False):
    def d(keys, v=0.5):
        def f(b):
            attrs = {k: b.c(v) for k in keys}
            b.n += 1
            return AV(b.w.new(('dom', b.name, b.n), 'dict', attrs=attrs, dep=b.dep, facts=frozenset({'nonempty'} if keys else ())).atoms, b.dep)
        return f
    full = [(x, y) for x in 'AB' for y in 'AB']
    if hmm:
        full = [('P', x, y) for x in 'AB' for y in 'AB'] + [('E', x, y) for x in 'AB' for y in 'XY']
    cs = [('a dictionary of all pairs', d(full), ACCEPT), ('a missing pair', d(full[:-1]), REFUSE), ('no keys', d([]), REFUSE), ('keys that are strings', d(['A', 'B']), REFUSE)]
    cs += [(f'values {x}', d(full, x), REFUSE) for x in (math.nan, math.inf, -0.5, 1.5, 'text', None, True, 1j)]
    cs += [('row sums below 1', d(full, 0.4), REFUSE)]
    return Domain({'a dictionary'}, cs)


DPI = Domain({'an integer'}, [val(100, ACCEPT), val(75, ACCEPT), val(600, ACCEPT), val(0, REFUSE), val(-100, REFUSE), val(101, REFUSE)])
SEED = Domain({'an integer', 'None'}, [val(0, ACCEPT), val(7, ACCEPT), val(None, ACCEPT)])
SIG = lambda: real(0.0, False, 0.2, True)


def function(text):
    return lambda b: AV(b.w.I.eval(ast.parse(text, mode='eval').body, b.w.st).atoms, b.dep)


QUAD = 'x_index, x_value, y_index, y_value'
FUNCTION = Domain((), [(f'lambda {x}', function(f'lambda {x}'), ok) for x, ok in (
    (f'{QUAD}: 0.5', ACCEPT), (f'{QUAD}: 1', ACCEPT), (f'{QUAD}: 0.0', ACCEPT), ('y_value, y_index, x_value, x_index: 0.25', ACCEPT), (f'{QUAD}: x_value * 0.5', ACCEPT),
    ('x_index, x_value, y_index: 0.5', REFUSE), (f'{QUAD}, z: 0.5', REFUSE), (': 0.5', REFUSE), ('a, b, c, d: 0.5', REFUSE), ('x_index, x_value, y_index, z_value: 0.5', REFUSE), (f'{QUAD}: None', REFUSE), (f"{QUAD}: 'text'", REFUSE),
    (f'{QUAD}: True', REFUSE), (f"{QUAD}: float('nan')", REFUSE), (f"{QUAD}: float('inf')", REFUSE), (f'{QUAD}: [0.5]', REFUSE), (f'{QUAD}: 1j', REFUSE))])

STEPS1, STEPS2, STEPS0 = integer(1), integer(2), integer(0)
_s, _os = label(STATES), opt(label(STATES))
_dist = opt(vector(N, 'stochastic'))
_subset, _all = states(STATES), opt(states(STATES, False))
_seq = sequence(STATES)
_b = boolean()


def size(lo, usual=4):
    d = integer(lo)
    d.cases.insert(0, val(usual, ACCEPT))
    return d


SPEC = {
    'mc.__init__': dict(p=matrix(N, N, fixed=False), states=opt(labels(N))),
    'mc.aggregate': dict(s=integer(2, N - 1), method=enum('adaptive', 'spectral-bottom-up', 'spectral-top-down')),
    'mc.are_communicating': dict(state1=_s, state2=_s),
    'mc.closest_reversible': dict(initial_distribution=_dist, weighted=_b),
    'mc.committor_probabilities': dict(committor_type=enum('backward', 'forward'), states1=Domain(_subset.kinds, [items(['S1'], ACCEPT)] + _subset.cases), states2=Domain(_subset.kinds, [items(['S4'], ACCEPT)])),
    'mc.conditional_probabilities': dict(state=_s),
    'mc.expected_rewards': dict(steps=STEPS1, rewards=rewards()),
    'mc.expected_transitions': dict(steps=STEPS1, initial_distribution=_dist),
    'mc.first_passage_probabilities': dict(steps=STEPS1, initial_state=_s, first_passage_states=_all),
    'mc.first_passage_reward': dict(steps=STEPS1, initial_state=without(label(STATES), 3, 'S4'), first_passage_states=Domain(_subset.kinds, [items(['S4'], ACCEPT)]), rewards=rewards()),
    'mc.hitting_probabilities': dict(targets=_all), 'mc.hitting_times': dict(targets=_all),
    'mc.is_absorbing_state': dict(state=_s), 'mc.is_accessible': dict(state_target=_s, state_origin=_s), 'mc.is_cyclic_state': dict(state=_s), 'mc.is_recurrent_state': dict(state=_s),
    'mc.is_transient_state': dict(state=_s),
    'mc.lump': dict(partitions=partitions()),
    'mc.mean_first_passage_times_between': dict(origins=_subset, targets=_subset), 'mc.mean_first_passage_times_to': dict(targets=_all),
    'mc.merge_with': dict(other=chain(N), gamma=real(0.0, False, 1.0, False)),
    'mc.mixing_time': dict(initial_distribution=_dist, jump=STEPS1, cutoff_type=enum('natural', 'traditional')),
    'mc.next': dict(initial_state=_s, output_index=_b, seed=SEED),
    'mc.predict': dict(steps=STEPS1, initial_state=_s, output_indices=_b),
    'mc.redistribute': dict(steps=STEPS1, initial_status=opt(status(STATES)), output_last=_b),
    'mc.sensitivity': dict(state=_s),
    'mc.sequence_probability': dict(sequence=_seq),
    'mc.simulate': dict(steps=STEPS2, initial_state=_os, final_state=_os, output_indices=_b, seed=SEED),
    'mc.time_correlations': dict(sequence1=_seq, sequence2=opt(_seq), time_points=time_points()),
    'mc.time_relaxations': dict(sequence=_seq, initial_distribution=_dist, time_points=time_points()),
    'mc.to_bounded_chain': dict(boundary_condition=boundary()),
    'mc.to_file': dict(file_path=path()), 'hmm.to_file': dict(file_path=path()), 'mc.from_file': dict(file_path=path()), 'hmm.from_file': dict(file_path=path()),
    'mc.to_lazy_chain': dict(inertial_weights=vector(N, 'unit', True)),
    'mc.to_nth_order': dict(order=integer(2)),
    'mc.to_subchain': dict(states=_subset),
    'mc.transition_probability': dict(state_target=_s, state_origin=_s),
    'mc.approximation': dict(size=size(2), approximation_type=enum('adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'), alpha=real(), sigma=real(0.0, False), rho=real(-1.0, False, 1.0, False),
                             states=opt(labels(4)), k=opt(real(1.0, True))),
    'mc.birth_death': dict(p=chances([0.5, 0.25, 0.25, 0.0]), q=chances([0.0, 0.5, 0.25, 0.25]), states=opt(labels(4))),
    'mc.dirichlet_process': dict(size=size(2), diffusion_factor=integer(1, 4), states=opt(labels(4)), diagonal_bias_factor=opt(real(0.0, False)), shift_concentration=_b, seed=SEED),
    'mc.fit_function': dict(quadrature_type=enum('gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule'), possible_states=labels(), f=FUNCTION,
                            quadrature_interval=opt(interval())),
    'mc.fit_sequence': dict(fitting_type=enum('map', 'mle'), possible_states=labels(), sequence=sequence(('L0', 'L1', 'L2')), fitting_param=opt(hyper(3))),
    'mc.from_dictionary': dict(d=dictionary()), 'hmm.from_dictionary': dict(d=dictionary(True)),
    'mc.from_graph': dict(graph=Domain({'a directed graph', 'a directed multigraph'}, [('a directed graph', POOL['a directed graph'], ACCEPT), ('a directed multigraph', POOL['a directed multigraph'], ACCEPT)])),
    'hmm.from_graph': dict(graph=Domain({'a directed graph', 'a directed multigraph'}, [('a directed graph', POOL['a directed graph'], ACCEPT), ('a directed multigraph', POOL['a directed multigraph'], ACCEPT)])),
    'mc.from_matrix': dict(m=matrix(N, N, False, False, fixed=False), states=opt(labels(N))),
    'mc.gamblers_ruin': dict(size=size(3), w=real(0.0, False, 1.0, False), states=opt(labels(4))),
    'mc.identity': dict(size=size(2), states=opt(labels(4))),
    'mc.population_genetics_model': dict(model=enum('moran', 'wright-fisher'), n=Domain({'an integer'}, [val(3, ACCEPT)] + integer(2, 500).cases), s=real(-1.0, True), u=real(0.0, True, 1.0, True), v=real(0.0, True, 1.0, True),
                                         states=opt(labels(4))),
    'mc.random': dict(size=size(2), states=opt(labels(4)), zeros=STEPS0, mask=opt(mask(4, 4)), seed=SEED),
    'mc.random_distribution': dict(size=size(2), f=None, states=opt(labels(4)), seed=SEED),
    'mc.urn_model': dict(model=enum('bernoulli-laplace', 'ehrenfest'), n=size(1, 2), states=opt(labels(5))),
    'hmm.__init__': dict(p=matrix(N, N, fixed=False), e=matrix(N, K, square=False, few=True), states=opt(labels(N)), symbols=opt(labels(K))),
    'hmm.decode': dict(symbols=sequence(SYMBOLS), initial_status=opt(status(STATES)), use_scaling=_b),
    'hmm.emission_probability': dict(symbol=label(SYMBOLS), state=_s),
    'hmm.next': dict(initial_state=_s, target=enum('both', 'state', 'symbol'), output_index=_b, seed=SEED),
    'hmm.predict': dict(prediction_type=enum('map', 'mle', 'viterbi'), symbols=sequence(SYMBOLS), initial_status=opt(status(STATES)), output_indices=_b),
    'hmm.restrict': dict(states=opt(states(STATES, True, 2)), symbols=opt(states(SYMBOLS, True, 2))),
    'hmm.simulate': dict(steps=STEPS2, initial_state=_os, final_state=_os, final_symbol=opt(label(SYMBOLS)), output_indices=_b, seed=SEED),
    'hmm.transition_probability': dict(state_target=_s, state_origin=_s),
    'hmm.estimate': dict(possible_states=labels(), possible_symbols=labels(None, 'M'), sequence_states=without(sequence(('L0', 'L1', 'L2')), [0, 1, 1, 0], [2, 0]), sequence_symbols=without(sequence(('M0', 'M1', 'M2')), [0, 1, 1, 0], [2, 0])),
    'hmm.fit': dict(fitting_type=enum('baum-welch', 'map', 'mle', 'viterbi'), possible_states=labels(), possible_symbols=labels(None, 'M'), p_guess=matrix(3, 3), e_guess=matrix(3, 3, square=False),
                    symbols=sequences(('M0', 'M1', 'M2'), True), initial_status=opt(status(('L0', 'L1', 'L2')))),
    'hmm.from_matrices': dict(mp=matrix(N, N, False, False, fixed=False), me=matrix(N, K, False, False, square=False, few=True), states=opt(labels(N)), symbols=opt(labels(K))),
    'hmm.random': dict(n=size(2), k=size(2, 3), states=opt(labels(4)), p_zeros=STEPS0, p_mask=opt(mask(4, 4)), symbols=opt(labels(3)), e_zeros=STEPS0, e_mask=opt(mask(4, 3)), seed=SEED),
    'assessments.assess_first_order': dict(possible_states=labels(), sequence=sequence(('L0', 'L1', 'L2')), significance=SIG()),
    'assessments.assess_homogeneity': dict(possible_states=labels(), sequences=sequences(('L0', 'L1', 'L2'), False), significance=SIG()),
    'assessments.assess_markov_property': dict(possible_states=labels(), sequence=sequence(('L0', 'L1', 'L2')), significance=SIG()),
    'assessments.assess_stationarity': dict(possible_states=labels(), sequence=sequence(('L0', 'L1', 'L2')), blocks=STEPS1, significance=SIG()),
    'assessments.assess_theoretical_compatibility': dict(mc=chain(), sequence=_seq, significance=SIG()),
    'plotting.plot_comparison': dict(models=models(), underlying_matrices=enum('transition'), names=opt(names(2)), dpi=DPI),
    'plotting.plot_eigenvalues': dict(model=a_model(), dpi=DPI),
    'plotting.plot_flow': dict(model=a_model(), steps=STEPS1, interval=STEPS1, initial_status=opt(status(STATES)), palette=Domain({'a string'}, [val('viridis', ACCEPT)]), dpi=DPI),
    'plotting.plot_graph': dict(model=a_model(), nodes_color=_b, nodes_shape=_b, edges_label=_b, force_standard=_b, dpi=DPI),
    'plotting.plot_redistributions': dict(model=a_model(), redistributions=STEPS1, initial_status=opt(status(STATES)), plot_type=enum('heatmap', 'projection'), dpi=DPI),
    'plotting.plot_sequence': dict(model=a_model(), steps=STEPS2, initial_state=_os, plot_type=enum('heatmap', 'histogram', 'matrix'), seed=SEED, dpi=DPI),
    'plotting.plot_trellis': dict(hmm=Domain({'a hidden Markov model'}, [('a hidden Markov model', POOL['a hidden Markov model'], ACCEPT)]), steps=STEPS2, initial_state=_os, seed=SEED, force_standard=_b, dpi=DPI),
}


# the values of the other arguments an argument matters with
VARIANTS = {('mc.population_genetics_model', 's'): {'model': const('wright-fisher')}, ('mc.approximation', 'k'): {'approximation_type': const('tauchen')}, ('mc.fit_sequence', 'fitting_param'): {'fitting_type': const('map')},
            ('hmm.restrict', 'states'): {'symbols': lambda b: b.lst(['E1', 'E2'])}, ('hmm.restrict', 'symbols'): {'states': lambda b: b.lst(['S1', 'S2'])}}


def lists(x):
    return lambda b: b.lst(x)


# documented conditions on several arguments
RELATED = [
    ('mc.closest_reversible', 'weighted with a null probability', dict(initial_distribution=lambda b: b.lst([0.0, 0.0, 0.5, 0.5]), weighted=const(True)), REFUSE),
    ('mc.committor_probabilities', 'overlapping sets of states', dict(states1=lists([0, 1]), states2=lists([1, 2])), REFUSE),
    ('mc.committor_probabilities', 'overlapping sets of labels', dict(states1=lists(['S1', 'S2']), states2=lists(['S2', 'S3'])), REFUSE),
    ('mc.committor_probabilities', 'a label and its index in both sets', dict(states1=lists(['S1', 'S2']), states2=lists([1, 2])), REFUSE),
    ('mc.first_passage_reward', 'the initial state is a first passage state', dict(initial_state=const(1), first_passage_states=lists(['S1', 'S2'])), REFUSE),
    ('mc.first_passage_reward', 'all of the other states are first passage states', dict(initial_state=const(0), first_passage_states=lists([1, 2, 3])), REFUSE),
    ('mc.birth_death', 'vectors of different sizes', dict(p=table([0.25, 0.25, 0.25, 0.0]), q=table([0.0, 0.25, 0.25, 0.25, 0.25])), REFUSE),
    ('mc.birth_death', 'vectors of different sizes, reversed', dict(p=table([0.25, 0.25, 0.25, 0.25, 0.0]), q=table([0.0, 0.25, 0.25, 0.25])), REFUSE),
    ('mc.birth_death', 'sums above 1', dict(p=table([0.75, 0.75, 0.75, 0.0]), q=table([0.0, 0.5, 0.25, 0.25])), REFUSE),
    ('mc.fit_function', "an even number of states and 'simpson-rule'", dict(quadrature_type=const('simpson-rule'), possible_states=lists(['L0', 'L1', 'L2', 'L3'])), REFUSE),
    ('mc.approximation', "rho equal to 1 for 'adda-cooper'", dict(approximation_type=const('adda-cooper'), rho=const(1.0)), REFUSE),
    ('mc.approximation', "rho equal to -1 for 'adda-cooper'", dict(approximation_type=const('adda-cooper'), rho=const(-1.0)), REFUSE),
    ('mc.approximation', "rho equal to -1 for 'tauchen'", dict(approximation_type=const('tauchen'), rho=const(-1.0)), REFUSE),
    ('mc.approximation', "rho equal to 1 for 'tauchen-hussey', k left to its default", dict(approximation_type=const('tauchen-hussey'), rho=const(1.0), k=const(None)), REFUSE),
    ('mc.approximation', "rho equal to -1 for 'tauchen-hussey', k left to its default", dict(approximation_type=const('tauchen-hussey'), rho=const(-1.0), k=const(None)), REFUSE),
    ('mc.approximation', "rho equal to 1 for 'rouwenhorst'", dict(approximation_type=const('rouwenhorst'), rho=const(1.0)), ACCEPT),
    ('mc.approximation', "rho equal to -1 for 'rouwenhorst'", dict(approximation_type=const('rouwenhorst'), rho=const(-1.0)), ACCEPT),
    ('mc.approximation', "rho equal to 1 for 'tauchen'", dict(approximation_type=const('tauchen'), rho=const(1.0)), ACCEPT),
    ('mc.population_genetics_model', 's above 1 for the Moran model', dict(model=const('moran'), s=const(1.25)), REFUSE),
    ('mc.population_genetics_model', 'any s above 1 for the Moran model', dict(model=const('moran'), s=span('float', 1.0, math.inf, REFUSE)[1]), REFUSE),
    ('mc.population_genetics_model', 's equal to 1 for the Moran model', dict(model=const('moran'), s=const(1.0)), ACCEPT),
    ('mc.population_genetics_model', 'u above 1 / (4n) for the Wright-Fisher model', dict(model=const('wright-fisher'), n=const(4), u=const(0.07), v=const(0.01)), REFUSE),
    ('mc.population_genetics_model', 'v above 1 / (4n) for the Wright-Fisher model', dict(model=const('wright-fisher'), n=const(4), u=const(0.01), v=const(0.07)), REFUSE),
    ('mc.population_genetics_model', 'u and v equal to 1 / (4n) for the Wright-Fisher model', dict(model=const('wright-fisher'), n=const(4), u=const(0.0625), v=const(0.0625)), ACCEPT),
    ('hmm.__init__', 'a name for a state and for a symbol', dict(states=lists(['L0', 'L1', 'L2', 'L3']), symbols=lists(['M0', 'M1', 'L2'])), REFUSE),
    ('hmm.__init__', 'different names', dict(states=lists(['L0', 'L1', 'L2', 'L3']), symbols=lists(['M0', 'M1', 'M2'])), ACCEPT),
    ('hmm.restrict', 'neither states nor symbols', dict(states=const(None), symbols=const(None)), REFUSE),
    ('hmm.estimate', 'a name for a state and for a symbol', dict(possible_states=lists(['L0', 'L1', 'L2']), possible_symbols=lists(['M0', 'L1', 'M2']), sequence_symbols=lists(['M0', 'L1', 'M2'])), REFUSE),
    ('hmm.estimate', 'a longer sequence of states', dict(sequence_states=lists([0, 1, 1, 0]), sequence_symbols=lists([0, 1, 1])), REFUSE),
    ('hmm.estimate', 'a longer sequence of symbols', dict(sequence_states=lists([0, 1, 1]), sequence_symbols=lists([0, 1, 1, 0])), REFUSE),
    ('hmm.fit', 'a name for a state and for a symbol', dict(possible_states=lists(['L0', 'M1', 'L2']), possible_symbols=lists(['M0', 'M1', 'M2'])), REFUSE),
    ('hmm.fit', 'a guess for fewer states', dict(possible_states=lists(['L0', 'L1', 'L2']), p_guess=grid(0.5, 2, 2)), REFUSE),
    ('hmm.fit', 'guesses for more states', dict(possible_states=lists(['L0', 'L1', 'L2']), p_guess=grid(0.25, 4, 4), e_guess=grid(1.0 / 3.0, 4, 3)), REFUSE),
    ('hmm.fit', 'a guess for more symbols', dict(possible_symbols=lists(['M0', 'M1', 'M2']), e_guess=grid(0.25, 3, 4)), REFUSE),
    ('hmm.from_matrices', 'a name for a state and for a symbol', dict(states=lists(['L0', 'L1', 'L2', 'L3']), symbols=lists(['M0', 'M1', 'L2'])), REFUSE),
    ('hmm.random', 'a name for a state and for a symbol', dict(states=lists(['L0', 'L1', 'L2', 'L3']), symbols=lists(['M0', 'M1', 'L2'])), REFUSE),
    ('mc.gamblers_ruin', 'fewer states than the size', dict(size=const(5), states=lists(['L0', 'L1', 'L2', 'L3'])), REFUSE),
    ('mc.urn_model', 'as many states as balls', dict(n=const(2), states=lists(['L0', 'L1', 'L2', 'L3'])), REFUSE),
    ('mc.population_genetics_model', 'as many states as individuals', dict(model=const('moran'), n=const(4), states=lists(['L0', 'L1', 'L2', 'L3'])), REFUSE),
    ('mc.random', 'a mask of another size', dict(size=const(4), mask=grid(math.nan, 3, 3)), REFUSE),
    ('plotting.plot_comparison', 'emission matrices of Markov chains', dict(models=lambda b: b.lst([b.model('mc'), b.model('mc')]), underlying_matrices=const('emission')), REFUSE),
    ('plotting.plot_comparison', 'emission matrices of a Markov chain and a hidden Markov model', dict(models=lambda b: b.lst([b.model('hmm'), b.model('mc')]), underlying_matrices=const('emission')), REFUSE),
    ('plotting.plot_comparison', 'emission matrices of hidden Markov models', dict(models=lambda b: b.lst([b.model('hmm'), b.model('hmm')]), underlying_matrices=const('emission')), ACCEPT),
    ('plotting.plot_comparison', 'as many names as another list of models', dict(models=lambda b: b.lst([b.model('mc')] * 3), names=lists(['N', 'N'])), REFUSE),
]


def one(ctx, e, spec, over):
    """run the operation with the built values of some arguments and usual values for the others: outcomes and exceptions"""
    c = Trace()
    w = World(ctx.repo, c, None, 2_000_000)
    c.world = w
    w.I.exact = True
    w.I.undecided = 'undecided'
    fi = e.fi
    used = [over[q] if q in over else spec[q].sample for q in fi.params + fi.kwonly if q in over or q not in fi.defaults and spec.get(q) is not None and spec[q].cases]
    if any(getattr(f, 'exact', False) for f in used):
        w.I.cells, w.I.UNROLL = True, 20
    w.I.caller = 'from_matrix'     # a function of the user's that is called like one of the library's own
    vals = {}
    ps = list(fi.params)
    if e.ci is not None and fi.kind in ('method', 'property', 'cached'):
        vals[ps[0]] = model(w, e.ci, 'self', 'state:') if fi.name != '__init__' else w.I.new(w.st, w.node, ('new',), 'inst', cls=e.ci)
        ps = ps[1:]
    for q in ps + fi.kwonly:
        b = B(w, q)
        if q in over:
            vals[q] = over[q](b)
        elif q in fi.defaults:
            vals[q] = w.I.eval(fi.defaults[q], w.st)
        elif spec.get(q) is not None and spec[q].cases:
            vals[q] = spec[q].sample(b)
        else:
            vals[q] = w.rich(q)
    try:
        outs = w.run(fi, vals)
    except Exception as ex:
        if type(ex).__name__ != 'Unreachable':
            raise
        outs = []
    return w, vals, outs, w.I.collectors[0]


def settled(w, v):
    """the value is known exactly: no outcome can be left open because the analysis does not know it"""
    todo = [v]
    for oid in w.I.reachable(w.st, v):
        o = w.I.obj(w.st, oid)
        if o.t not in ('list', 'tuple', 'ndarray', 'df', 'sparse'):
            return False
        todo += [o.elem, *(o.items or ())]
    return all(a[0] in ('c', 'nan', 'o') for x in todo for a in x.atoms)


def verdict(want, over, w, vals, outs, raised):
    """what is decided: a path without any undecided condition, no path at all, or no check of a value that is known"""
    refusals = [r for r in raised if 'ValidationError' in r[1]]
    explicit = [r for r in refusals if 'implicit' not in r[0].flags]
    if want is REFUSE:
        if any('undecided' not in s.flags for s, _ in outs) or not refusals:
            return 'violated'
        if outs and all(settled(w, vals[q]) for q in over) and not any(d.split('.')[0] in {x + q for q in over for x in ('arg:', 'len:arg:')} for r in explicit for d in r[0].ctrl):
            return 'violated'
        return 'unknown' if outs else 'ok'
    if not outs or any('undecided' not in r[0].flags for r in explicit):
        return 'violated'
    return 'unknown' if explicit else 'ok'


def cases(ctx, want):
    """(operation, arguments, description)"""
    out = []
    ops = {}
    for e, ps in list(operations(ctx)) + [(e, e.fi.params[1:]) for e in entries(ctx.repo) if e.fi.name == '__init__']:
        ops[e.name] = e
        spec = SPEC.get(e.name)
        for p in ps if spec else ():
            if spec.get(p) is None:
                continue
            for what, build, ok in spec[p].all():
                if ok is want:
                    out.append((e, {**VARIANTS.get((e.name, p), {}), p: build}, f'{p} is {what}', p))
    for name, what, over, ok in RELATED:
        if ok is want and name in ops and all(q in ops[name].fi.params + ops[name].fi.kwonly for q in over):
            out.append((ops[name], over, what, '+'.join(sorted(over))))
    return out


def decide(ctx, want, case):
    e, over, what, p = case
    w, vals, outs, raised = one(ctx, e, SPEC[e.name], over)
    return verdict(want, over, w, vals, outs, raised), w, outs, raised


def sweep(ctx, want, least):
    todo = cases(ctx, want)

    def run(case):
        try:
            v, w, outs, raised = decide(ctx, want, case)
        except (Budget, RecursionError) as ex:
            return 'unknown', f'{type(ex).__name__}', 0
        detail = ''
        if v == 'violated':
            detail = f'{len(outs)} normal return(s), exceptions: {", ".join(sorted({x for r in raised for x in r[1]})) or "none"}'
        return v, detail, len(w.I.visited)
    for (e, over, what, p), (v, detail, n) in zip(todo, pmap(run, todo, fallback=lambda why: ('unknown', why, 0))):
        nm = f'{e.name}: {what}'
        ctx.ob(nm, v, detail)
        ctx.count('statements visited', n)
        if v == 'violated':
            yield e, p, what, detail
    ctx.count('argument values', len(todo))
    ctx.count('operations', len({c[0].name for c in todo}))
    ctx.count('arguments', len({(c[0].name, c[3]) for c in todo}))
    ctx.floor('argument values', len(todo), least)
    ctx.floor('decided argument values', sum(1 for o in ctx.obs if o[1] != 'unknown'), least * 2 // 3)


def refused(ctx):
    ctx.rule = ('Each argument of each public operation is given every kind of value it does not document and values around the limits of those it documents (constants, whole intervals, lists of arbitrary length), with '
                'usual values for the other arguments, and the operation is interpreted abstractly from the current source. No path on which every condition is decided may return normally, and an exception must be a ValidationError.')
    for e, p, what, detail in sweep(ctx, REFUSE, 6500):
        ctx.violation(f'{e.name}:{p}:{what}', f'{e.name} does not refuse an argument outside of its domain with a ValidationError: {what} ({detail})', e.fi.loc())


def accepted(ctx):
    ctx.rule = ('Each argument of each public operation is given each documented kind of value, the documented limits themselves and the whole interval between them, with usual values for the other arguments, and the operation is '
                'interpreted abstractly from the current source. Some path must return normally, and no path on which every condition is decided may raise a ValidationError.')
    for e, p, what, detail in sweep(ctx, ACCEPT, 700):
        ctx.violation(f'{e.name}:{p}:{what}', f'{e.name} refuses an argument inside of its domain: {what} ({detail})', e.fi.loc())
