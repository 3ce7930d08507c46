"""C15: every label stays with its own row, column and value.

Small models with opaque labels and opaque positive elements in several patterns of zeros are handed to the interpreted operations. Numbers are followed as the set of elements
they are computed from (outside of and in denominators), labels as themselves; each answer is compared with the one that the pattern prescribes."""
import math

from sa.cells import of as cells_of, parts_of
from sa.interp import Budget, Unreachable
from sa.models import role
from sa.par import pmap
from sa.tokens import Tokens
from sa.values import *
from sa.values import AV
from sa.world import MODEL_CLASSES, World
from .conversions import Files, Trip, Unknown, const, describe, parts

# the positive transitions of the chains
CHAINS = {
    # a recurrent class of two states that are not neighbours, a transient state between them, an absorbing state
    'mixed': ((0, 2), (0, 1, 3), (0, 2), (3,)),
    # absorbing state first, transient states last
    'absorbing': ((0,), (0, 1, 2), (2, 3, 0), (1, 3)),
    # transient states first: already canonical
    'ordered': ((1, 2), (0, 3), (2, 3), (2, 3)),
    # irreducible with period 2, the cyclic classes interleaved
    'periodic': ((1, 3), (0, 2), (1, 3), (0, 2)),
    # irreducible and aperiodic
    'ergodic': ((0, 1), (2, 3), (0, 1, 2), (1, 3)),
}
SHAPE = {'mc': (4, None), 'hmm': (3, 4)}
EMISSIONS = ((0, 1, 3), (1, 2), (0, 3))
HIDDEN = ((0, 1), (1, 2), (0, 1, 2))


class Structures(Files):
    """graphs of known nodes and edges"""

    def build(self, st, node, tag, nodes, edges):
        g = self.digraph(st, (node), [], {})
        o = self.I.obj(st, g.oids()[0])
        for n in nodes:
            self.graph_put(st, node, o, 'nodes*', n, {})
        for e in edges:
            self.graph_put(st, node, o, 'edges*', e, {})
        return g

    def graph_of(self, st, v):
        a = v.single() if v is not None else None
        o = self.I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
        if o is None or o.t != 'graph' or 'edges*' not in (o.attrs or {}):
            return None
        return list(self.I.obj(st, o.attrs['nodes*'].oids()[0]).attrs), list(self.I.obj(st, o.attrs['edges*'].oids()[0]).attrs)

    def nodeset(self, st, node, tag, ns):
        return self.I.models.exact_set(self.I, st, node, tag, tuple(avc(n) for n in ns), EMPTY)

    def external(self, st, node, dotted, fl, kwargs):
        if dotted.startswith('networkx.') and dotted != 'networkx.DiGraph' and fl:
            g = self.graph_of(st, fl[0])
            try:
                r = self.networkx(st, node, dotted.rsplit('.', 1)[-1], g, fl[1:], kwargs) if g is not None else None
            except KeyError:
                r = None
            if r is not None:
                return r
        return super().external(st, node, dotted, fl, kwargs)

    def networkx(self, st, node, name, g, fl, kwargs):
        I = self.I
        nodes, edges = g
        succ = {n: [b for a, b in edges if a == n] for n in nodes}
        seq = lambda tag, its: I.new(st, node, tag, 'iter', items=tuple(its), shape=(len(its),), facts=frozenset({'nonempty'} if its else ()))
        k = lambda v: I.models.known(I, st, v.single())
        if name in ('strongly_connected_components', 'condensation', 'number_strongly_connected_components', 'is_strongly_connected'):
            if kwargs or fl:
                return None
            cs = tarjan(nodes, succ)
            if name == 'strongly_connected_components':
                return seq('scc', [self.nodeset(st, node, ('scc', n), c) for n, c in enumerate(cs)])
            if name == 'number_strongly_connected_components':
                return avc(len(cs))
            if name == 'is_strongly_connected':
                return avc(len(cs) == 1)
            of = {x: n for n, c in enumerate(cs) for x in c}
            g = self.build(st, node, name, range(len(cs)), dict.fromkeys((of[a], of[b]) for a, b in edges if of[a] != of[b]))
            d = I.obj(st, g.oids()[0]).attrs['nodes*'].oids()[0]
            at = {n: self.attrdict(st, node, ('members', n), None, {'members': self.nodeset(st, node, ('members', n), c)}) for n, c in enumerate(cs)}
            st.heap[d] = I.obj(st, d).replace(attrs=at)
            return g
        if name == 'is_aperiodic' and not fl and not kwargs:
            return avc(aperiodic(nodes, succ))
        if name in ('descendants', 'ancestors') and len(fl) == 1 and not kwargs:
            x = k(fl[0])
            r = [n for n in nodes if n != x and (n in reach(succ, x) if name == 'descendants' else x in reach(succ, n))]
            return self.nodeset(st, node, name, r)
        if name == 'has_path' and len(fl) == 2:
            return avc(k(fl[0]) == k(fl[1]) or k(fl[1]) in reach(succ, k(fl[0])))
        if name in ('shortest_path_length', 'single_source_shortest_path_length') and len(fl) + len(kwargs) == 1:
            d = distances(succ, k(fl[0] if fl else kwargs.get('source', AV())))
            return I.new(st, node, name, 'dict', attrs={n: avc(x) for n, x in d.items()}, facts=frozenset({'nonempty'}))
        if name in ('selfloop_edges', 'number_of_selfloops') and not fl and not kwargs:
            loops = [(a, b) for a, b in edges if a == b]
            return avc(len(loops)) if name.startswith('number') else None
        return None

    def graph_method(self, st, node, oid, o, name, fl, kwargs):
        I = self.I
        g = self.graph_of(st, AV({('o', oid)}))
        try:
            r = self.graph_call(st, node, g, name, fl) if g is not None and not kwargs else None
        except KeyError:
            r = None
        return r if r is not None else super().graph_method(st, node, oid, o, name, fl, kwargs)

    def graph_item(self, st, node, oid, o, a):
        """the successors of a node"""
        g = self.graph_of(st, AV({('o', oid)}))
        try:
            x = self.I.models.known(self.I, st, a)
        except KeyError:
            return None
        if g is None or x not in g[0]:
            return None
        return self.I.new(st, node, ('successors', oid, x), 'iter', items=tuple(avc(b) for c, b in g[1] if c == x), shape=(None,))

    def graph_call(self, st, node, g, name, fl):
        I = self.I
        nodes, edges = g
        k = lambda v: I.models.known(I, st, v.single())
        if name in ('subgraph',):
            its = I.models.exact_items(I, st, fl[0])
            if its is None:
                raise Unknown
            keep = [k(x) for x in its]
            return self.build(st, node, name, [n for n in nodes if n in keep], [(a, b) for a, b in edges if a in keep and b in keep])
        if name in ('successors', 'neighbors', 'predecessors') and len(fl) == 1:
            x = k(fl[0])
            r = [avc(b) for a, b in edges if a == x] if name != 'predecessors' else [avc(a) for a, b in edges if b == x]
            return I.new(st, node, name, 'iter', items=tuple(r), shape=(len(r),), facts=frozenset({'nonempty'} if r else ()))
        if name in ('out_degree', 'in_degree', 'degree') and len(fl) == 1:
            x = k(fl[0])
            return avc(sum((a == x) * (name != 'in_degree') + (b == x) * (name != 'out_degree') for a, b in edges)) if x in nodes else None
        if name == 'has_edge' and len(fl) == 2:
            return avc((k(fl[0]), k(fl[1])) in edges)
        if name in ('number_of_nodes', 'order', 'number_of_edges') and not fl:
            return avc(len(edges if name == 'number_of_edges' else nodes))
        if name == 'has_node':
            return avc(k(fl[0]) in nodes)
        return None


def distances(succ, x):
    d, todo = {x: 0}, [x]
    for n in todo:
        for m in succ[n]:
            if m not in d:
                d[m] = d[n] + 1
                todo.append(m)
    return d


def reach(succ, x):
    """what is reached in one or more steps"""
    out, todo = [], [x]
    for n in todo:
        for m in succ[n]:
            if m not in out:
                out.append(m)
                todo.append(m)
    return out


def components(nodes, succ):
    r = {n: reach(succ, n) for n in nodes}
    out = []
    for n in nodes:
        if not any(n in c for c in out):
            out.append([m for m in nodes if m == n or m in r[n] and n in r[m]])
    return out


def tarjan(nodes, succ):
    """the components in the order networkx finds them: those that are reached come first"""
    cs = components(nodes, succ)
    of = {x: n for n, c in enumerate(cs) for x in c}
    out = []

    def visit(x, seen):
        seen.add(x)
        for y in succ[x]:
            if y not in seen:
                visit(y, seen)
        if of[x] not in out and all(m in seen for m in cs[of[x]]) and x == first[of[x]]:
            out.append(of[x])
    seen, first = set(), {}
    # the root of a component is its state that is found first
    def discover(x, seen):
        seen.add(x)
        first.setdefault(of[x], x)
        for y in succ[x]:
            if y not in seen:
                discover(y, seen)
    known = set()
    for n in nodes:
        if n not in known:
            discover(n, known)
    for n in nodes:
        if n not in seen:
            visit(n, seen)
    return [cs[n] for n in out]


def aperiodic(nodes, succ):
    """as networkx decides it"""
    d = distances(succ, nodes[0])
    g = 0
    for n in nodes:
        for m in succ[n]:
            if n in d and m in d:
                g = math.gcd(g, d[n] + 1 - d[m])
    rest = [n for n in nodes if n not in d]
    return g == 1 and (not rest or aperiodic(rest, {n: [m for m in succ[n] if m in rest] for n in rest}))


class Case(Trip):
    def __init__(self, ctx, short, pattern=None):
        self.short = short
        mod, cname, _ = next(x for x in MODEL_CLASSES if x[2] == short)
        self.ci = ctx.repo.cls(mod, cname)
        self.client = Structures()
        w = self.w = World(ctx.repo, self.client, None, 3_000_000)
        w.I.exact = w.I.cells = w.I.provenance = True
        w.I.undecided = 'undecided'
        w.I.caller = 'user'
        w.I.tokens = Tokens(True)
        self.client.setup(w)
        n, k = SHAPE[short]
        self.n, self.k = n, k
        self.succ = CHAINS[pattern] if short == 'mc' else HIDDEN
        self.states = tuple(w.I.tokens.label(f'state {i + 1}') for i in range(n))
        self.symbols = tuple(w.I.tokens.label(f'symbol {i + 1}') for i in range(k)) if k else ()
        w.keep_client = True
        w.zeros = {'p': {(i, j) for i in range(n) for j in range(n) if j not in self.succ[i]}}
        w.sizes = self.sizes()
        w.labels = {n: self.states}
        if k:
            w.zeros['e'] = {(i, j) for i in range(n) for j in range(k) if j not in EMISSIONS[i]}
            w.labels[k] = self.symbols
        self.model = w.model(self.ci, 'self', 'state:', sp=(n, k))
        self.count = 0

    def sizes(self):
        return {}

    # ------------------------------------------------------------ arguments
    def value(self, x):
        """the abstract value of nested lists of constants, labels and named numbers"""
        w = self.w
        if isinstance(x, AV):
            return x
        if isinstance(x, (list, tuple)):
            self.count += 1
            n = self.count
            its = tuple(self.value(y) for y in x)
            return w.new(('given', n), 'list' if isinstance(x, list) else 'tuple', items=its, shape=(len(its),), facts=frozenset({'nonempty'} if its else ()))
        return avc(x)

    def named(self, name, i=0, j=0):
        return AV({S('float', f'cell:{name}:{i}:{j}')})

    def array(self, name, *shape):
        import itertools
        self.count += 1
        cs = tuple(self.named(name, *ix) for ix in itertools.product(*[range(d) for d in shape]))
        return self.w.new(('array', self.count), 'ndarray', elem=joinall(cs), shape=tuple(shape), facts=frozenset({'nonempty', 'each', ('cells', cs)}))

    def at(self, m, i, j):
        return self.w.cell(m, i, j, self.n if m == 'p' else self.k)

    def name(self, m, i, j):
        """the elements a transition or emission probability stands for"""
        a = self.at(m, i, j)
        return parts_of(a)[0] or frozenset()

    def label(self, x):
        return describe(self, C(x)) or repr(x)

    # ------------------------------------------------------------ what is known of values
    def items(self, st, v):
        a = v.single()
        o = self.w.I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
        if o is None:
            return None
        if o.t == 'ndarray':
            c = cells_of(self.w.I, st, a[1])
            if c is None or not c[0]:
                return None
            if len(c[0]) == 1:
                return c[1]
            n = len(c[1]) // c[0][0] if c[0][0] else 0
            return tuple(tuple(c[1][i * n:(i + 1) * n]) for i in range(c[0][0])) if len(c[0]) == 2 else None
        return self.w.I.models.exact_items(self.w.I, st, v)

    def number(self, v, nums, dens=None, exact=None):
        """is this number computed from these elements (and from nothing else; denominators from some of dens)?  None: unknown, '': yes, or what it is"""
        a = v.single() if isinstance(v, AV) else v
        if a is None:
            return None
        if exact is not None:
            if a == exact or a[0] == exact[0] == 'c' and isinstance(a[2], (int, float)) and abs(a[2] - exact[2]) < 1e-9:
                return ''
            if a[0] == 'c' or parts_of(a) is not None or role(a) == 'lost':
                return self.say(a)
            return None
        p = parts_of(a)
        if p is None:
            return None
        rows = self.w.I.rows
        if p == (frozenset(), frozenset()) and nums and (a[2] == 1.0 and any(r <= nums for r in rows)):
            return ''
        if p[0] != nums and not (p[0] - nums and any(r <= nums for r in rows)) or dens is not None and not p[1] <= dens:
            return self.say(a)
        return ''

    def say(self, a):
        p = parts_of(a)
        if p is None or not (p[0] or p[1]):
            return describe(self, a) or 'something else'
        nice = lambda names: ', '.join('{}[{}, {}]'.format(*x.split(':')[1:]) if x.startswith('cell:') else x for x in sorted(names)) or 'constants'
        return 'computed from ' + nice(p[0]) + (f', relative to {nice(p[1])}' if p[1] else '')


class Verdict:
    def __init__(self, t, st):
        self.t, self.st = t, st
        self.bad, self.known, self.total = [], 0, 0

    def put(self, what, r):
        self.total += 1
        if r is None:
            return
        if r:
            self.bad.append(f'{what} is {r}')
        else:
            self.known += 1

    def const(self, what, v, want):
        c = v.single() if isinstance(v, AV) else None
        if c is None or c[0] != 'c':
            return self.put(what, None)
        same = c[2] == want and isinstance(c[2], bool) == isinstance(want, bool)
        self.put(what, '' if same else self.t.label(c[2]) if isinstance(c[2], str) else repr(c[2]))

    def labels(self, what, v, want, ordered=True):
        its = self.t.items(self.st, v)
        if its is None or any(x.single() is None or x.single()[0] != 'c' for x in its):
            return self.put(what, None)
        got = [x.single()[2] for x in its]
        same = got == list(want) if ordered else sorted(map(str, got)) == sorted(map(str, want))
        self.put(what, '' if same else '[' + ', '.join(self.t.label(x) for x in got) + '] instead of [' + ', '.join(self.t.label(x) for x in want) + ']')

    def model(self, v, states, entry, symbols=None, emission=None, ordered=False):
        """a model: its labels, and for each pair of labels the number it should have"""
        t = self.t
        p = parts(t, self.st, v)
        if p is None or p.get('states') is None or None in p['states']:
            return self.put('the model', None)
        got = p['states']
        name = lambda ls: '[' + ', '.join(t.label(x) for x in ls) + ']'
        for what, g, want in (('states', got, states),) + ((('symbols', p.get('symbols'), symbols),) if symbols is not None else ()):
            if g is None or None in g:
                return self.put(f'the {what}', None)
            same = list(g) == list(want) if ordered else sorted(g) == sorted(want)
            self.put(f'the list of the {what}', '' if same else f'{name(g)} instead of {name(want)}')
            if not same:
                return
        for m, cols, f in (('p', got, entry),) + ((('e', p['symbols'], emission),) if symbols is not None else ()):
            c = p.get(m)
            if c is None:
                self.put(f'the matrix {m}', None)
                continue
            if c[0] != (len(got), len(cols)):
                self.put(f'the shape of the matrix {m}', repr(c[0]))
                continue
            for n, x in enumerate(c[1]):
                i, j = divmod(n, len(cols))
                kw = f(got[i], cols[j])
                if kw is not None:
                    self.put(f'the probability from {t.label(got[i])} to {t.label(cols[j])}', t.number(x, **kw))

    def vector(self, what, v, wants):
        its = self.t.items(self.st, v)
        if its is None or not all(isinstance(x, AV) for x in its):
            return self.put(what, None)
        if len(its) != len(wants):
            return self.put(f'the length of {what}', str(len(its)))
        for n, (x, kw) in enumerate(zip(its, wants)):
            self.put(f'element {n} of {what}', self.t.number(x, **kw))


CASES = []


def case(name, op, short='mc', patterns=None):
    def f(fn):
        for p in patterns or (list(CHAINS) if short == 'mc' else [None]):
            CASES.append((name, short, p, op, fn))
        return fn
    return f


def exact(a):
    return {'nums': None, 'exact': a}


def selections(name, op, choices, short='mc', patterns=None):
    """the same case for several arguments"""
    def f(fn):
        for n, c in choices.items():
            case(f'{name} ({n})', op, short, patterns)(lambda t, c=c: fn(t, c))
        return fn
    return f


def whole(t, m='p'):
    states, cols = t.states, t.states if m == 'p' else t.symbols
    return lambda a, b: exact(t.at(m, states.index(a), cols.index(b)))


# ---------------------------------------------------------------- derived models
PICKS = {'one label': lambda t: [t.states[1]], 'labels in another order': lambda t: [t.states[3], t.states[1]], 'an index': lambda t: [2], 'indices in another order': lambda t: [2, 0]}


@selections('to_subchain', 'to_subchain', PICKS)
def _(t, pick):
    given = pick(t)
    idx = [x if isinstance(x, int) else t.states.index(x) for x in given]
    keep = sorted({i for x in idx for i in [x] + reach(t.succ, x)})

    def check(v, r):
        def entry(a, b):
            i, j = t.states.index(a), t.states.index(b)
            z = t.at('p', i, j)
            return exact(z) if z[0] == 'c' else {'nums': t.name('p', i, j), 'dens': frozenset().union(*(t.name('p', i, x) for x in range(t.n)))}
        r.model(v, [t.states[i] for i in keep], entry)
    return [given], check if len(keep) > 1 else None


@case('to_canonical_form', 'to_canonical_form')
def _(t):
    rec = [i for i in range(t.n) if all(i in reach(t.succ, j) for j in reach(t.succ, i))]
    order = [i for i in range(t.n) if i not in rec] + rec
    return [], lambda v, r: r.model(v, [t.states[i] for i in order], whole(t), ordered=True)


@selections('to_lazy_chain', 'to_lazy_chain', {'a number': False, 'one number for each state': True})
def _(t, many):
    w = [t.named('weight', i) if many else t.named('weight') for i in range(t.n)]

    def entry(a, b):
        i, j = t.states.index(a), t.states.index(b)
        x = parts_of(w[i].single())[0]
        return {'nums': (t.name('p', i, j) | x if t.at('p', i, j) != C(0.0) else frozenset()) | (x if i == j else frozenset())}
    return [list(w) if many else w[0]], lambda v, r: r.model(v, t.states, entry, ordered=True)


@selections('birth_death', 'birth_death', {'vectors': 0}, patterns=['mixed'])
def _(t, _how):
    p, q = [0.5, 0.25, 0.125, 0.0], [0.0, 0.375, 0.5, 0.75]

    def entry(a, b):
        i, j = int(a) - 1, int(b) - 1
        return exact(C(1.0 - p[i] - q[i] if j == i else p[i] if j == i + 1 else q[i] if j == i - 1 else 0.0))
    return [[AV({C(x)}) for x in p], [AV({C(x)}) for x in q]], lambda v, r: r.model(v, [str(i + 1) for i in range(t.n)], entry, ordered=True)


@case('merge_with', 'merge_with', patterns=['mixed'])
def _(t):
    gamma = t.named('gamma')
    init = t.ci.members['__init__']
    node = t.w.node
    w = t.w
    other = w.I.new(w.st, node, ('other',), 'inst', cls=t.ci)
    st = w.st
    vals = w.I.bind(init, [other, t.array('other', t.n, t.n), w.label_list(('otherstates',), t.n)], {}, st, node)
    w.I.merge_outcomes(w.I.run(init, vals, st, node), st)

    def check(v, r):
        p = parts(t, r.st, v)
        c = p and p.get('p')
        if not c:
            return r.put('the matrix', None)
        for n, x in enumerate(c[1]):
            i, j = divmod(n, t.n)
            g = frozenset({'cell:gamma:0:0'})
            r.put(f'the probability from state {i + 1} to {j + 1}', t.number(x, nums=t.name('p', i, j) | g | {f'cell:other:{i}:{j}'}))
    return [other, gamma], check


@selections('to_bounded_chain', 'to_bounded_chain', {'absorbing': 'absorbing', 'reflecting': 'reflecting', 'a number': None})
def _(t, kind):
    b = t.named('bound') if kind is None else kind
    x = {'absorbing': C(0.0), 'reflecting': C(1.0)}.get(kind)

    def entry(a, c):
        i, j = t.states.index(a), t.states.index(c)
        n = t.n
        if i not in (0, n - 1):
            return exact(t.at('p', i, j))
        if j == i or j == (1 if i == 0 else n - 2):
            return exact(C(float((kind == 'absorbing') == (i == j)))) if kind else {'nums': frozenset({'cell:bound:0:0'})}
        return exact(C(0.0))
    return [b], lambda v, r: r.model(v, t.states, entry, ordered=True)


@case('to_nth_order', 'to_nth_order')
def _(t):
    def entry(a, b):
        i, j = t.states.index(a), t.states.index(b)
        via = [k for k in t.succ[i] if j in t.succ[k]]
        return {'nums': frozenset().union(*(t.name('p', i, k) | t.name('p', k, j) for k in via)) if via else frozenset()}
    return [2], lambda v, r: r.model(v, t.states, entry, ordered=True)


@selections('lump', 'lump', {f'{what}{more}': (i, g) for i, what in enumerate(('labels', 'indices')) for more, g in (('', [[0], [1, 2], [3]]), (', three together', [[0], [1, 2, 3]]))})
def _(t, how):
    indices, groups = how

    def check(v, r):
        names = [','.join(t.states[i] for i in g) for g in groups]
        p = parts(t, r.st, v)
        if p is None or p.get('states') is None or None in p['states']:
            return r.put('the model', None)
        which = []
        for x in p['states']:
            s = sorted(c for c in x if c in t.states)
            which.append(next((g for g in groups if sorted(t.states[i] for i in g) == s), None))
        if None in which:
            return r.put('the list of the states', f'{[t.label(x) for x in p["states"]]}')

        def entry(a, b):
            A, B = which[p['states'].index(a)], which[p['states'].index(b)]
            return {'nums': frozenset().union(*(t.name('p', i, j) for i in A for j in B)), 'dens': frozenset()}
        r.model(v, p['states'], entry)
    return [[[i if indices else t.states[i] for i in g] for g in groups]], check


@selections('restrict', 'restrict', {'labels in another order': (0, 0), 'indices in another order': (1, 1), 'states only': (0, None), 'symbols only': (None, 0)}, 'hmm')
def _(t, how):
    si, yi = [2, 0], [3, 0]
    s = None if how[0] is None else si if how[0] else [t.states[i] for i in si]
    y = None if how[1] is None else yi if how[1] else [t.symbols[i] for i in yi]
    si, yi = si if s is not None else list(range(t.n)), yi if y is not None else list(range(t.k))

    def entry(m, cols, sel):
        def f(a, b):
            i, j = t.states.index(a), cols.index(b)
            z = t.at(m, i, j)
            if all(t.at(m, i, x) == C(0.0) for x in sel):
                return {'nums': frozenset(), 'dens': frozenset()}
            return exact(z) if z == C(0.0) else {'nums': t.name(m, i, j), 'dens': frozenset().union(*(t.name(m, i, x) for x in sel))}
        return f
    return [s, y], lambda v, r: r.model(v, [t.states[i] for i in si], entry('p', t.states, si), [t.symbols[i] for i in yi], entry('e', t.symbols, yi))


SEQ = (2, 0, 3, 3, 0, 2, 0, 3)
OUT = (1, 3, 0, 0, 3, 1, 2, 0)


def counted(seq, n, prior=0.0):
    m = [[prior] * n for _ in range(n)]
    for a, b in zip(seq, seq[1:]):
        m[a][b] += 1
    return [[x / sum(r) for x in r] if sum(r) else [1.0 / n] * n for r in m]


@selections('fit_sequence', 'fit_sequence', {'mle': ('mle', None, 0.0), 'mle with Laplace smoothing': ('mle', True, 0.001), 'map': ('map', None, 0.0), 'by indices': ('mle', False, 0.0)}, patterns=['mixed'])
def _(t, how):
    kind, param, prior = how
    m = counted(SEQ, t.n, prior)
    seq = [x if param is False else t.states[x] for x in SEQ]

    def entry(a, b):
        return exact(C(m[t.states.index(a)][t.states.index(b)]))
    return [kind, list(t.states), seq] + ([param] if param is not None else []), lambda v, r: r.model(v, t.states, entry, ordered=True)


OBSERVED = {'usual': ((2, 0, 0, 1, 0, 2), (3, 1, 0, 3, 1, 3)), 'a state that is met at the end only': ((1, 0, 1, 1, 0, 2), (3, 1, 0, 3, 1, 2)), 'one-way': ((0, 1, 1, 2, 2, 0, 0, 1), (3, 1, 0, 3, 2, 2, 1, 1)), 'a state that is not met': ((1, 0, 1, 1, 0, 1), (3, 1, 0, 3, 1, 2))}


@selections('estimate', 'estimate', {f'{what}, {k}': (i, o) for k, o in OBSERVED.items() for i, what in enumerate(('labels', 'indices'))}, 'hmm')
def _(t, how):
    indices, (hs, ys) = how
    p = [[0.0] * t.n for _ in range(t.n)]
    e = [[0.0] * t.k for _ in range(t.n)]
    for a, b in zip(hs, hs[1:]):
        p[a][b] += 1
    for a, b in zip(hs, ys):
        e[a][b] += 1
    norm = lambda m: [[x / sum(r) if sum(r) else 1.0 / len(r) for x in r] for r in m]
    p, e = norm(p), norm(e)
    args = [list(t.states), list(t.symbols), [x if indices else t.states[x] for x in hs], [x if indices else t.symbols[x] for x in ys]]
    return args, lambda v, r: r.model(v, t.states, lambda a, b: exact(C(p[t.states.index(a)][t.states.index(b)])), t.symbols, lambda a, b: exact(C(e[t.states.index(a)][t.symbols.index(b)])), ordered=True)


# ---------------------------------------------------------------- single probabilities
WAYS = {'labels': (False, False), 'indices': (True, True), 'a label and an index': (False, True)}


@selections('transition_probability', 'transition_probability', WAYS, patterns=['mixed', 'periodic'])
def _(t, how):
    i, j = 1, 0
    return [j if how[0] else t.states[j], i if how[1] else t.states[i]], lambda v, r: r.put('the result', t.number(v, **exact(t.at('p', i, j))))


@selections('transition_probability', 'transition_probability', WAYS, 'hmm')
def _(t, how):
    i, j = 1, 2
    return [j if how[0] else t.states[j], i if how[1] else t.states[i]], lambda v, r: r.put('the result', t.number(v, **exact(t.at('p', i, j))))


@selections('emission_probability', 'emission_probability', WAYS, 'hmm')
def _(t, how):
    i, j = 0, 1
    return [j if how[0] else t.symbols[j], i if how[1] else t.states[i]], lambda v, r: r.put('the result', t.number(v, **exact(t.at('e', i, j))))


@selections('conditional_probabilities', 'conditional_probabilities', {'a label': 0, 'an index': 1}, patterns=['mixed', 'ergodic'])
def _(t, index):
    i = 1
    return [i if index else t.states[i]], lambda v, r: r.vector('the result', v, [exact(t.at('p', i, j)) for j in range(t.n)])


@selections('sequence_probability', 'sequence_probability', {'labels': 0, 'indices': 1}, patterns=['mixed', 'ergodic', 'periodic'])
def _(t, indices):
    walk = [1]
    for _ in range(2):
        walk.append(t.succ[walk[-1]][-1])
    nums = frozenset().union(*(t.name('p', a, b) for a, b in zip(walk, walk[1:])))
    return [[x if indices else t.states[x] for x in walk]], lambda v, r: r.put('the result', t.number(v, nums=nums))


@selections('redistribute', 'redistribute', {'a label': 0, 'an index': 1, 'a distribution': 2}, patterns=['mixed', 'ergodic', 'absorbing'])
def _(t, how):
    i = 1
    start = [t.states[i], i, [t.named('start', k) for k in range(t.n)]][how]

    def want(j):
        if how < 2:
            return {'nums': t.name('p', i, j)} if t.at('p', i, j) != C(0.0) else exact(C(0.0))
        return {'nums': frozenset().union(*(t.name('p', k, j) | {f'cell:start:{k}:0'} for k in range(t.n) if j in t.succ[k])) if any(j in t.succ[k] for k in range(t.n)) else frozenset()}
    return [1, start, True], lambda v, r: r.vector('the result', v, [want(j) for j in range(t.n)])


@selections('expected_rewards', 'expected_rewards', {'one step': 1}, patterns=['mixed', 'periodic', 'ergodic'])
def _(t, steps):
    w = [t.named('reward', i) for i in range(t.n)]
    f = lambda i: frozenset({f'cell:reward:{i}:0'})
    return [steps, w], lambda v, r: r.vector('the result', v, [{'nums': f(i) | frozenset().union(*(f(j) | t.name('p', i, j) for j in t.succ[i]))} for i in range(t.n)])


@selections('first_passage_probabilities', 'first_passage_probabilities', {'a label': (0, None), 'an index': (1, None), 'labels and targets': (0, 0), 'indices and targets': (1, 1)}, patterns=['mixed', 'absorbing', 'periodic', 'ergodic'])
def _(t, how):
    i, targets = 1, [3, 0]
    want = frozenset().union(*(t.name('p', i, j) for j in targets))
    args = [1, i if how[0] else t.states[i]]
    if how[1] is None:
        def check(v, r):
            its = t.items(r.st, v)
            if its is None or not its or not isinstance(its[0], tuple):
                return r.put('the result', None)
            for j, x in enumerate(its[0]):
                r.put(f'element {j} of the first row', t.number(x, **exact(t.at('p', i, j))))
            for j, x in enumerate(its[1]):
                via = [k for k in t.succ[i] if k != j and j in t.succ[k]]
                r.put(f'element {j} of the second row', t.number(x, nums=frozenset().union(*(t.name('p', i, k) | t.name('p', k, j) for k in via)) if via else frozenset()))
        return [2] + args[1:], check
    return args + [targets if how[1] else [t.states[j] for j in targets]], lambda v, r: r.vector('the result', v, [{'nums': want}])


@selections('first_passage_reward', 'first_passage_reward', {'a label': (1, [0], 0), 'an index': (1, [0], 1), 'the last state': (3, [1], 0), 'a later target': (1, [3], 1), 'two targets': (2, [3, 0], 1)}, patterns=['mixed', 'absorbing', 'periodic', 'ergodic'])
def _(t, how):
    i, targets, indices = how
    w = [t.named('reward', k) for k in range(t.n)]
    via = [k for k in t.succ[i] if k not in targets]
    want = frozenset().union(*(t.name('p', i, k) | {f'cell:reward:{k}:0'} for k in via)) if via else frozenset()
    name = (lambda x: x) if indices else (lambda x: t.states[x])
    return [1, name(i), [name(x) for x in targets], w], lambda v, r: r.put('the result', t.number(v, nums=want))


@selections('expected_transitions', 'expected_transitions', {'one step': 1, 'two steps': 2}, patterns=['mixed', 'absorbing', 'periodic', 'ergodic'])
def _(t, steps):
    start = [t.named('start', k) for k in range(t.n)]
    own = lambda k: frozenset({f'cell:start:{k}:0'})

    def check(v, r):
        its = t.items(r.st, v)
        if its is None or not its or not isinstance(its[0], tuple):
            return r.put('the result', None)
        for i, row in enumerate(its):
            met = own(i) | (frozenset().union(*(own(k) | t.name('p', k, i) for k in range(t.n) if i in t.succ[k])) if steps > 1 else frozenset())
            for j, x in enumerate(row):
                r.put(f'the element of state {i + 1} and state {j + 1}', t.number(x, **({'nums': met | t.name('p', i, j)} if j in t.succ[i] else exact(C(0.0)))))
    return [steps, start], check


def job(ctx, c):
    name, short, pattern, op, fn = c
    t = Case(ctx, short, pattern)
    args, check = fn(t)
    fi = t.ci.members[op]
    if check is None:
        return None, '', 0, 0, fi.loc()
    vals = [t.value(a) for a in args]
    if fi.kind in ('method', 'property', 'cached'):
        vals.insert(0, t.model)
    try:
        outs = t.call(t.w.st, fi, vals)
    except Budget:
        return 'unknown', 'too large', 0, 1, fi.loc()
    res = []
    for st, v in outs:
        r = Verdict(t, st)
        check(v, r)
        res.append((st, r))
    if not res:
        raised = t.w.I.collectors[0]
        return ('violated' if raised else 'unknown'), 'there is never an answer' + (f' ({raised[0][1][0]})' if raised else ''), 0, 1, fi.loc()
    known, total = min(r.known for _, r in res), max(r.total for _, r in res)
    sure = [r for st, r in res if 'undecided' not in st.flags]
    if all(r.bad for _, r in res) or any(r.bad for r in sure):
        r = next(r for r in sure + [r for _, r in res] if r.bad)
        return 'violated', r.bad[0] + (f' (and {len(r.bad) - 1} more)' if len(r.bad) > 1 else ''), known, total, fi.loc()
    return ('ok' if known == total and not any(r.bad for _, r in res) else 'unknown'), '', known, total, fi.loc()


def attachment(ctx):
    ctx.rule = ('Operations that build models from models, or answer for labelled states and symbols, are interpreted on chains of four states in five patterns of positive transitions and on a hidden model of three states and four symbols, '
                'with opaque labels, opaque positive elements followed as the set of elements they are computed from, and arguments that list labels in other orders than the model: each label of the answer must carry the elements of that label.')
    res = pmap(lambda n: job(ctx, CASES[n]), list(range(len(CASES))), fallback=lambda why: ('unknown', why, 0, 0, ''))
    n = left = 0
    for (name, short, pattern, op, fn), (st, why, known, total, where) in zip(CASES, res):
        if st is None:
            left += 1
            continue
        cname = next(c for _, c, s in MODEL_CLASSES if s == short)
        what = f'{cname}.{name}' + (f', chain: {pattern}' if pattern else '')
        ctx.ob(what, st, why or f'{known} of {total} values')
        n += known
        if st == 'violated':
            ctx.violation(f'{short}:{name}:{pattern}', f'{what}: {why}', where)
    ctx.count('cases', len(CASES) - left)
    ctx.count('labels and values compared', n)
    ctx.floor('cases', len(CASES) - left, 90)
