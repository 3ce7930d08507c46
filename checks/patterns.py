"""C20: the classification of chains is the one of the graph of their positive transitions.

For every pattern of positive transitions of two and three states (and a selection of larger ones), a chain with opaque labels and opaque positive elements is handed to the interpreted
properties and predicates; numbers are known to be zero or positive only.  The answers are compared with those that the definitions give for the pattern."""
import itertools
import math
import random

from sa.cells import positive
from sa.interp import Budget
from sa.par import pmap
from sa.values import *
from sa.values import AV
from sa.world import MODEL_CLASSES
from . import attachment
from .attachment import Case, Verdict, components, distances, reach


def patterns(n):
    rows = [r for k in range(1, n + 1) for r in itertools.combinations(range(n), k)]
    return itertools.product(rows, repeat=n)


# larger chains: long ways, several periods, interleaved cyclic classes, several recurrent classes, transient classes with cycles
LARGER = (
    ((1,), (2,), (3,), (0,)), ((1,), (2,), (3,), (0, 3)), ((1,), (2,), (3,), (0, 1)), ((1,), (2,), (3,), (0, 2)), ((1, 3), (0, 2), (1, 3), (0, 2)), ((2, 3), (2, 3), (0, 1), (0, 1)),
    ((3,), (3,), (3,), (0, 1, 2)), ((1,), (0,), (3,), (2,)), ((1,), (0,), (0, 3), (2,)), ((0, 1), (2,), (1,), (0,)), ((0, 1), (2,), (3,), (1,)), ((1, 2), (0,), (3,), (2,)), ((0,), (0, 2), (1, 3), (3,)),
    ((0, 1), (1, 2), (2, 3), (3,)), ((0,), (0, 1), (1, 2), (2, 3)), ((1,), (0, 2), (1, 3), (2,)), ((1,), (0, 2), (1, 3), (3,)), ((0,), (2,), (1,), (1, 3)), ((2,), (3,), (0,), (1,)), ((0, 2), (3,), (0, 2), (1,)),
    ((0, 1, 2, 3), (2, 3), (0, 3), (1,)), ((3,), (0,), (1,), (2,)), ((2,), (0,), (3,), (1,)), ((0, 1), (0, 1), (1, 3), (2, 3)), ((0, 2), (0, 1, 3), (0, 2), (3,)), ((1, 2), (0, 3), (2, 3), (2, 3)),
    ((1,), (2,), (3,), (4,), (0,)), ((1,), (2,), (3,), (4,), (0, 4)), ((1,), (2,), (3,), (4,), (0, 1)), ((1,), (2,), (3,), (4,), (4,)), ((0,), (0,), (1,), (2,), (3,)), ((1, 4), (0,), (3,), (2,), (0,)),
    ((1,), (0,), (3,), (4,), (2,)), ((0, 1), (2,), (1,), (4,), (3,)), ((1,), (2,), (0,), (0, 4), (3,)), ((2, 4), (3,), (1,), (0,), (1,)), ((1, 3), (2, 4), (0,), (2, 4), (0,)), ((3, 4), (3, 4), (3, 4), (0, 1, 2), (0, 1, 2)),
    ((0, 1), (0, 2), (1, 3), (2, 4), (4,)), ((1,), (0, 2), (1, 3), (2, 4), (3,)), ((1,), (2,), (3,), (4,), (5,), (0,)), ((1,), (2,), (0,), (4,), (3,), (0, 3, 5)), ((1, 3), (2,), (0,), (4,), (5,), (0,)),
    ((1, 3), (2, 4), (3, 5), (0, 4), (1, 5), (0, 2)), ((2, 5), (0, 3), (1, 4), (2, 5), (0, 3), (1, 4)), ((1,), (0,), (3,), (4,), (5,), (2,)), ((1,), (0, 2), (3,), (4,), (5,), (2,)), ((0,), (0, 1, 2), (1, 3), (2, 4), (3, 5), (5,)),
)


def upto_order(n, seed):
    """one pattern of every kind of n states, the states in some order"""
    rng = random.Random(seed)
    seen, perms = set(), list(itertools.permutations(range(n)))
    for succ in patterns(n):
        if succ in seen:
            continue
        alike = {tuple(tuple(sorted(p[j] for j in succ[p.index(i)])) for i in range(n)) for p in perms}
        seen |= alike
        yield rng.choice(sorted(alike))


# how the probability of a row is distributed: evenly; nearly all of it on staying; nearly all of it on the first transition that leaves
SIZES = {'': (), 'sticky': ('^', ','), 'rare': ('^', '!')}


class Chain(Case):
    def __init__(self, ctx, succ, size=''):
        self.size = size
        attachment.CHAINS['this'] = succ
        attachment.SHAPE['mc'] = (len(succ), None)
        super().__init__(ctx, 'mc', 'this')

    def sizes(self):
        out = {}
        for i, row in enumerate(self.succ):
            if not self.size or len(row) < 2:
                continue
            main = i if self.size == 'sticky' and i in row else next(j for j in row if j != i)
            for j in row:
                out['p', i, j] = SIZES[self.size][j != main]
        return out


def cyclic(succ, states):
    """the period of a closed class, and its cyclic classes"""
    sub = {s: [x for x in succ[s] if x in states] for s in states}
    d = distances(sub, states[0])
    g = 0
    for a in states:
        for b in sub[a]:
            g = math.gcd(g, d[a] + 1 - d[b])
    g = g or 1
    out = {}
    for s in states:
        out.setdefault(d[s] % g, []).append(s)
    return g, list(out.values())


class Facts:
    """what the definitions say of a pattern"""

    def __init__(self, succ):
        n = self.n = len(succ)
        self.succ = succ
        nodes = list(range(n))
        self.reach = {i: set(reach(succ, i)) | {i} for i in nodes}
        self.classes = components(nodes, succ)
        self.closed = [c for c in self.classes if all(set(succ[i]) <= set(c) for i in c)]
        self.transient = [c for c in self.classes if c not in self.closed]
        self.absorbing = [i for i in nodes if tuple(succ[i]) == (i,)]
        self.period = {tuple(c): cyclic(succ, c)[0] for c in self.closed}
        self.irreducible = len(self.classes) == 1
        self.aperiodic = all(g == 1 for g in self.period.values())
        self.masked = not self.irreducible and not self.aperiodic
        self.ergodic = self.irreducible and self.aperiodic
        self.absorbs = bool(self.absorbing) and all(self.reach[i] & set(self.absorbing) for i in nodes)
        self.recurrent_states = sorted(i for c in self.closed for i in c)
        self.transient_states = sorted(i for c in self.transient for i in c)
        self.cyclic = cyclic(succ, nodes)[1] if self.irreducible else []


# what is answered for a reducible chain with a periodic class that goes unnoticed
HIDDEN = {'is_aperiodic': 'it is True', 'period': 'it is 1'}


def drawn(succ, size=''):
    return '; '.join(f'{i} -> ' + ' '.join(map(str, r)) for i, r in enumerate(succ)) + {'': '', 'sticky': ' (states are rarely left)', 'rare': ' (but for one, the transitions of a row have tiny probabilities)'}[size]


def nothing(f):
    """when measures are not defined"""
    unabsorbed = not f.absorbs or not f.transient_states
    return {
        'fundamental_matrix': unabsorbed, 'kemeny_constant': unabsorbed, 'mean_absorption_times': unabsorbed, 'absorption_probabilities': unabsorbed,
        'implied_timescales': not f.ergodic, 'mean_first_passage_times_to': not f.ergodic, 'mean_recurrence_times': not f.ergodic,
    }


def incidence(n):
    out = [[0] * (n * n) for _ in range(n)]
    for u in range(n):
        for v in range(n):
            if u != v:
                out[u][u * n + v] = out[v][u * n + v] = 1
    return out


ALWAYS_NONE = ('mixing_rate', 'relaxation_rate', 'spectral_gap')


def questions(t, f):
    """(name, what is asked, operation, arguments, check(value, verdict))"""
    n = f.n
    L = lambda ixs: [t.states[i] for i in ixs]

    def flag(want):
        return lambda v, r: r.truth('it', v, want)

    def labels(want):
        return lambda v, r: r.labels('it', v, L(want), ordered=False)

    def classes(want):
        return lambda v, r: r.classes('it', v, [L(c) for c in want])

    def matrix(want):
        def check(v, r):
            its = t.items(r.st, v)
            if its is None or len(its) != n or not all(isinstance(x, tuple) and len(x) == n for x in its):
                return r.put('it', None)
            for i in range(n):
                for j in range(n):
                    r.truth(f'element ({i}, {j})', its[i][j], want(i, j))
        return check
    yield 'adjacency_matrix', [], matrix(lambda i, j: j in f.succ[i])
    yield 'accessibility_matrix', [], matrix(lambda i, j: j in f.reach[i])
    yield 'communication_matrix', [], matrix(lambda i, j: j in f.reach[i] and i in f.reach[j])
    yield 'communicating_classes', [], classes(f.classes)
    yield 'recurrent_classes', [], classes(f.closed)
    yield 'transient_classes', [], classes(f.transient)
    yield 'cyclic_classes', [], classes(f.cyclic)
    yield 'absorbing_states', [], labels(f.absorbing)
    yield 'recurrent_states', [], labels(f.recurrent_states)
    yield 'transient_states', [], labels(f.transient_states)
    yield 'cyclic_states', [], labels(range(n) if f.irreducible else [])
    yield 'is_absorbing', [], flag(f.absorbs)
    yield 'is_aperiodic', [], flag(f.aperiodic)
    yield 'is_ergodic', [], flag(f.ergodic)
    yield 'is_irreducible', [], flag(f.irreducible)
    yield 'is_regular', [], flag(f.ergodic)
    yield 'is_canonical', [], flag(not f.transient_states or max(f.transient_states) < min(f.recurrent_states))
    if len(f.closed) > 1:
        yield 'is_reversible', [], flag(False)
    edges = sum(j != i for i in range(n) for j in f.succ[i])
    yield 'density', [], lambda v, r: r.number('it', v, edges / (n * (n - 1)))
    if n < 4:
        yield 'incidence_matrix', [], lambda v, r: r.cells('it', v, incidence(n))
    yield 'pi', [], lambda v, r: r.supports(v, f.closed, n)
    yield 'period', [], lambda v, r: r.const('it', v, math.lcm(*f.period.values()))
    for i in range(n):
        for x in (t.states[i], i):
            yield 'is_absorbing_state', [x], flag(i in f.absorbing)
            yield 'is_recurrent_state', [x], flag(i in f.recurrent_states)
            yield 'is_transient_state', [x], flag(i in f.transient_states)
            yield 'is_cyclic_state', [x], flag(f.irreducible)
        j = (i + 1) % n
        for a, b in ((t.states[i], t.states[j]), (j, i)):
            x, y = (i, j) if isinstance(a, str) else (j, i)
            # the target comes first
            yield 'is_accessible', [a, b], flag(x in f.reach[y])
            yield 'are_communicating', [a, b], flag(x in f.reach[y] and y in f.reach[x])
    for name, none in nothing(f).items():
        yield name, [], lambda v, r, none=none: r.none('it', v, none)
    for name in ('entropy_rate', 'entropy_rate_normalized'):
        yield name, [], lambda v, r: r.none('it', v, len(f.closed) > 1)
    for name in ALWAYS_NONE:
        if not f.ergodic:
            yield name, [], lambda v, r: r.none('it', v, True)
    # measures of two states: from either of them to the other one
    a, b = 0, n - 1
    for name, args, none in (('committor_probabilities', ['backward', [a], [b]], not f.ergodic), ('committor_probabilities', ['forward', L([b]), L([a])], not f.ergodic), ('mean_first_passage_times_to', [[a]], not f.ergodic),
                             ('mean_first_passage_times_between', [[a], L([b])], not f.ergodic), ('mean_first_passage_times_between', [L([b]), [a]], not f.ergodic), ('sensitivity', [a], not f.irreducible),
                             ('sensitivity', [t.states[b]], not f.irreducible), ('time_correlations', [[a, f.succ[a][0]]], len(f.closed) > 1), ('time_relaxations', [L([a, f.succ[a][0]])], len(f.closed) > 1)):
        yield name, args, lambda v, r, none=none: r.none('it', v, none)
    if not f.ergodic:
        yield 'mixing_time', [], lambda v, r: r.none('it', v, True)


class Answer(Verdict):
    def truth(self, what, v, want):
        a = v.single()
        if a is None or a[0] != 'c' or not isinstance(a[2], (bool, int, float)):
            return self.put(what, None)
        self.put(what, '' if bool(a[2]) == want and a[2] in (0, 1) else repr(a[2]))

    def number(self, what, v, want):
        a = v.single()
        if a is None or a[0] != 'c' or not isinstance(a[2], (int, float)):
            return self.put(what, None)
        self.put(what, '' if math.isclose(a[2], want) else repr(a[2]))

    def cells(self, what, v, want):
        its = self.t.items(self.st, v)
        if its is None or not all(isinstance(x, tuple) for x in its) or any(len(x) != len(its[0]) for x in its):
            return self.put(what, None)
        if (len(its), len(its[0])) != (len(want), len(want[0])):
            return self.put('the shape', f'{len(its)} x {len(its[0])}')
        for i, row in enumerate(want):
            for j, w in enumerate(row):
                self.const(f'element ({i}, {j})', its[i][j], w)

    def supports(self, v, closed, n):
        """a vector per closed class, zero outside of it"""
        its = self.t.items(self.st, v)
        if its is None:
            return self.put('it', None)
        if len(its) != len(closed):
            return self.put('the number of distributions', str(len(its)))
        got = []
        for x in its:
            row = self.t.items(self.st, x) if isinstance(x, AV) else x
            if row is None or len(row) != n or any(x.single() is None or x.single()[0] == 's' and not positive(x.single()) for x in row):
                return self.put('it', None)
            got.append([i for i in range(n) if row[i].single() is None or row[i].single()[0] != 'c' or row[i].single()[2] != 0])
        self.put('the list of the states with a probability', '' if sorted(got) == sorted(closed) else repr(got))

    def none(self, what, v, want):
        if not v.atoms or any(a[0] == 'u' for a in v.atoms):
            return self.put(what, None)
        if v.atoms == {NONE}:
            return self.put(what, '' if want else 'None')
        if NONE in v.atoms:
            return self.put(what, None)
        self.put(what, '' if not want else 'not None')

    def classes(self, what, v, want):
        its = self.t.items(self.st, v)
        subs = [self.t.items(self.st, x) for x in its] if its is not None else [None]
        if any(s is None or any(x.single() is None or x.single()[0] != 'c' for x in s) for s in subs):
            return self.put(what, None)
        got = [[x.single()[2] for x in s] for s in subs]
        key = lambda cs: sorted(sorted(map(str, c)) for c in cs)
        nice = lambda cs: '[' + ', '.join('[' + ', '.join(self.t.label(x) for x in c) + ']' for c in cs) + ']'
        self.put(what, '' if key(got) == key(want) else f'{nice(got)} instead of {nice(want)}')


def answer(t, fi, args, check):
    """(status, why)"""
    vals = [t.model] + [t.value(a) for a in args]
    try:
        outs = t.call(t.w.st, fi, vals)
    except Budget:
        return 'unknown', 'too large'
    if not outs:
        raised = t.w.I.collectors[0]
        return ('violated', f'it raises {raised[0][1][0]}') if raised else ('unknown', '')
    res = []
    for st, v in outs:
        r = Answer(t, st)
        check(v, r)
        res.append((st, r))
    sure = [r for st, r in res if 'undecided' not in st.flags]
    if all(r.bad for _, r in res) or any(r.bad for r in sure):
        return 'violated', next(r for r in sure + [r for _, r in res] if r.bad).bad[0]
    return ('ok', '') if all(r.known == r.total and not r.bad for _, r in res) else ('unknown', '')


def job(ctx, succs):
    out = {}
    for succ, size in succs:
        t = Chain(ctx, succ, size)
        f = Facts(succ)
        for op, args, check in questions(t, f):
            fi = t.ci.members[op]
            st, why = answer(t, fi, args, check)
            e = out.setdefault((op, fi.loc()), [0, 0, []])
            e[0] += 1
            e[1] += st != 'unknown'
            if st == 'violated':
                e[2].append((len(succ), succ, '(' + ', '.join(t.label(a) if isinstance(a, str) else str(a) for a in args) + ')' if args else '', why, size))
        # the periods stand in the order of the classes
        st, why, loc = periods(t, f)
        e = out.setdefault(('periods', loc), [0, 0, []])
        e[0] += 1
        e[1] += st != 'unknown'
        if st == 'violated':
            e[2].append((len(succ), succ, '', why, size))
    return out


def periods(t, f):
    cc, fi = t.ci.members['communicating_classes'], t.ci.members['periods']
    outs = t.call(t.w.st, cc, [t.model])
    if len(outs) != 1:
        return 'unknown', '', fi.loc()
    its = t.items(*outs[0])
    subs = [t.items(outs[0][0], x) for x in its] if its is not None else [None]
    if any(s is None or any(x.single() is None or x.single()[0] != 'c' or x.single()[2] not in t.states for x in s) for s in subs):
        return 'unknown', '', fi.loc()
    order = [tuple(sorted(t.states.index(x.single()[2]) for x in s)) for s in subs]

    def check(v, r):
        ps = t.items(r.st, v)
        if ps is None:
            return r.put('it', None)
        if len(ps) != len(order):
            return r.put('its length', str(len(ps)))
        for c, p in zip(order, ps):
            if c in f.period:
                r.const(f'the period of the class {c}', p, f.period[c])
            elif p.single() not in (C(1), C(cyclic(f.succ, c)[0])):
                # the period of a class that is left counts as 1, or is the one of its cycles
                r.const(f'the period of the class {c}', p, 1)
    return answer(t, fi, [], check) + (fi.loc(),)


def classification(ctx):
    ctx.rule = ('The properties and predicates that classify a chain are interpreted on every pattern of positive transitions of two and three states and on larger ones, numbers being known to be zero or positive only; '
                'classes, states, periods, reachability and the applicability of measures must be those that the definitions give for the graph of the pattern.')
    todo = [*patterns(2), *patterns(3), *LARGER]
    if ctx.tier == 'thorough':
        todo += upto_order(4, ctx.seed)
    todo = [(succ, size) for succ in todo for size in SIZES if not size or any(len(r) > 1 for r in succ)]
    width = 24
    chunks = [todo[i:i + width] for i in range(0, len(todo), width)]
    total = {}
    for part in pmap(lambda n: job(ctx, chunks[n]), list(range(len(chunks))), fallback=lambda why: {}):
        for k, (n, known, bad) in part.items():
            e = total.setdefault(k, [0, 0, []])
            e[0] += n
            e[1] += known
            e[2] += bad
    answers = 0
    for (op, loc), (asked, known, bad) in sorted(total.items()):
        answers += known
        ctx.ob(f'MarkovChain.{op}', 'violated' if bad else 'ok' if known == asked else 'unknown', f'{known} of {asked} answers known')
        # the answers recorded as known: a chain with a class of period above 1 counts as aperiodic if another class is found first
        hidden = [b for b in bad if op in HIDDEN and b[3] == HIDDEN[op] and Facts(b[1]).masked]
        if hidden:
            n, succ, args, why, size = min(hidden)
            ctx.violation(f'{op}:masked-period', f'MarkovChain.{op} of a chain with the transitions {drawn(succ, size)}: {why} ({len(hidden)} patterns in all)', loc)
        for n, succ, args, why, size in sorted(b for b in bad if b not in hidden)[:2]:
            ctx.violation(f'{op}:{succ}{size}', f'MarkovChain.{op}{args} of a chain with the transitions {drawn(succ, size)}: {why}' + (f' ({len(bad)} patterns or arguments in all)' if len(bad) > 1 else ''), loc)
    ctx.count('patterns of transitions (with the sizes of their probabilities)', len(todo))
    ctx.count('answers', answers)
    ctx.floor('operations', len(total), 25)
