"""C22: results have the documented number of states, rows, columns and elements.

Operations are interpreted on chains of several sizes and classifications and on arguments of several lengths; numbers stay opaque, shapes are followed exactly (slices, selections, concatenations, comprehensions).
The dimensions of what is returned are compared with those that are documented, as functions of the numbers of states, symbols, steps, parts and observations."""
from sa.interp import Budget
from sa.par import pmap
from sa.values import *
from . import attachment
from .attachment import Case
from .patterns import Chain, Facts, drawn

SCALAR = 'a single value'
NOTHING = 'None'


def arr(*dims):
    return ('array', dims)


def seq(n, elem=None):
    return ('sequence', n, elem)


def tup(*elems):
    return ('tuple', elems)


def mc(n):
    return ('chain', n)


def hmm(n, k):
    return ('hidden', n, k)


def opt(x):
    return ('optional', x)


def times(d):
    return ' x '.join('?' if x is None else str(x) for x in d) or 'none'


def dims(v):
    """the shape of an array as far as it is known"""
    return tuple(x if isinstance(x, int) else None for x in v.shape) if v.shape is not None else None


def length(o):
    return len(o.items) if o.items is not None else o.shape[0] if o.shape and len(o.shape) == 1 and isinstance(o.shape[0], int) else None


def fit(I, st, v, want, what):
    """'' : as documented; None: unknown; a text: what is wrong with it"""
    res = [fit1(I, st, a, want, what) for a in v.atoms]
    if not res or any(r is None for r in res):
        return None
    bad = sorted(r for r in res if r)
    return bad[0] if len(bad) == len(res) else None if bad else ''


def every(rs):
    rs = list(rs)
    return next((r for r in rs if r), None if any(r is None for r in rs) else '')


def fit1(I, st, a, want, what):
    if isinstance(want, tuple) and want[0] == 'optional':
        return '' if a == NONE else fit1(I, st, a, want[1], what)
    o = I.obj(st, a[1]) if a[0] == 'o' else None
    if a[0] == 'u' or a == () or not a:
        return None
    if want == NOTHING:
        return '' if a == NONE else f'{what} is not None' if a[0] == 'c' or o is not None else None
    if a == NONE:
        return f'{what} is None'
    if want == SCALAR:
        if o is None:
            return ''
        if o.t in ('list', 'tuple', 'dict', 'set', 'inst', 'graph'):
            return f'{what} is a {o.t}'
        d = dims(o) if o.t == 'ndarray' else None
        return f'{what} is an array of shape {times(d)}' if d and all(x not in (None, 1) for x in d) else None
    if o is None:
        return f'{what} is a single value' if a[0] in ('c', 's') and a[0] != 'u' else None
    kind = want[0]
    if kind == 'array':
        if o.t != 'ndarray':
            return None if o.t not in ('list', 'tuple', 'dict', 'set', 'inst', 'graph') else f'{what} is a {o.t}'
        d = dims(o)
        if d is None:
            return None
        if len(d) != len(want[1]) or any(x is not None and x != y for x, y in zip(d, want[1])):
            return f'the shape of {what} is {times(d)} instead of {times(want[1])}'
        return None if None in d else ''
    if kind == 'sequence':
        n = length(o)
        if o.t not in ('list', 'tuple'):
            return None if o.t not in ('ndarray', 'dict', 'set', 'inst', 'graph') else f'{what} is a {o.t}'
        if n is None:
            return None
        if n != want[1]:
            return f'{what} has {n} elements instead of {want[1]}'
        if want[2] is None:
            return ''
        return every(fit(I, st, x, want[2], f'element {i} of {what}') for i, x in enumerate(o.items)) if o.items is not None else None
    if kind == 'tuple':
        if o.t not in ('list', 'tuple') or o.items is None:
            return None
        if len(o.items) != len(want[1]):
            return f'{what} has {len(o.items)} elements instead of {len(want[1])}'
        return every(fit(I, st, x, y, f'element {i} of {what}') for i, (x, y) in enumerate(zip(o.items, want[1])))
    # models
    if o.t != 'inst':
        return f'{what} is a {o.t}'
    attrs = {k.split('__')[-1]: x for k, x in o.attrs.items() if isinstance(k, str)}
    n, k = want[1], want[2] if kind == 'hidden' else None
    parts = [('p', arr(n, n), 'the transition matrix'), ('states', seq(n), 'the list of the states')]
    if k is not None:
        parts += [('e', arr(n, k), 'the emission matrix'), ('symbols', seq(k), 'the list of the symbols')]
    return every(fit(I, st, attrs[x], y, f'{z} of {what}') if x in attrs else None for x, y, z in parts)


# ---------------------------------------------------------------- chains
ERGODIC = (
    ((0, 1), (0, 1)),
    ((0, 1, 2), (0, 1, 2), (0, 1, 2)),
    ((0, 1), (0, 2), (0, 1, 2)),
    ((0, 1, 2, 3), (2, 3), (0, 3), (1,)),
    ((0, 1, 4), (0, 2), (1, 3), (2, 4), (0, 3, 4)),
)
REDUCIBLE = (
    ((0,), (0, 1)), ((0,), (0, 1, 2), (2,)), ((0, 2), (0, 1, 3), (0, 2), (3,)), ((0,), (0, 1, 2), (2, 3, 0), (1, 3)), ((0,), (1,), (2,), (0, 1, 3, 4), (2, 3)), ((1, 2), (0, 3), (2, 3), (2, 3)),
    ((1,), (2,), (2,)), ((1,), (1,)), ((0, 1), (0, 1), (2,), (0, 2, 3, 4), (3, 4)), ((0, 1), (0, 1), (2, 3), (2, 3), (0, 2, 4)),
)


# the signs of the elements of the eigenvectors that aggregations split states by
SIGNS = ('+-', '-+', '++-', '+--', '+')


def split(t, signs):
    """calls are answered as before, except that eigenvectors have these signs"""
    I, before = t.w.I, type(t.client).ext_call

    def ext_call(st, node, d, args, kwargs):
        a = args[0].single() if args else None
        o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
        if d not in ('numpy.linalg.eig', 'numpy.linalg.eigh', 'scipy.linalg.eig', 'scipy.linalg.eigh') or o is None or not o.shape or not all(isinstance(x, int) for x in o.shape):
            return before(t.client, st, node, d, args, kwargs)
        n = o.shape[0]
        numbers = lambda cs: dict(elem=joinall(cs), facts=frozenset({'nonempty', 'each', ('cells', cs)}))
        values = tuple(avc(1.0 - i / 8) for i in range(n))
        vectors = tuple(avc((1.0 if signs[i % len(signs)] == '+' else -1.0) * (1 + i) / 8) for i in range(n) for _ in range(n))
        return I.new(st, node, 'pair', 'tuple', shape=(2,), items=(I.new(st, node, 'values', 'ndarray', shape=(n,), **numbers(values)), I.new(st, node, 'vectors', 'ndarray', shape=(n, n), **numbers(vectors))))
    t.client.ext_call = ext_call


def ask(t, f):
    """(operation, arguments, what is expected) for a chain"""
    n = f.n
    ixs = list(range(n))
    last = n - 1
    ergodic, irreducible = f.ergodic, f.irreducible
    one = len(f.closed) == 1
    rewards = lambda: t.array('r', n)
    dist = lambda: t.array('d', n)
    if ergodic:
        for a in range(min(n, 3)):
            yield 'conditional_probabilities', dict(state=a), arr(n)
        for steps in (1, 2, 4):
            yield 'expected_rewards', dict(steps=steps, rewards=rewards()), arr(n)
            yield 'expected_transitions', dict(steps=steps), arr(n, n)
            yield 'expected_transitions', dict(steps=steps, initial_distribution=dist()), arr(n, n)
            yield 'first_passage_probabilities', dict(steps=steps, initial_state=0), arr(steps, n)
            yield 'first_passage_probabilities', dict(steps=steps, initial_state=0, first_passage_states=[last]), arr(steps)
            yield 'first_passage_probabilities', dict(steps=steps, initial_state=last, first_passage_states=ixs[:-1]), arr(steps)
            yield 'redistribute', dict(steps=steps), arr(n)
            yield 'redistribute', dict(steps=steps, output_last=False), seq(steps + 1, arr(n))
            yield 'redistribute', dict(steps=steps, initial_status=last, output_last=False), seq(steps + 1, arr(n))
            yield 'redistribute', dict(steps=steps, initial_status=dist(), output_last=False), seq(steps + 1, arr(n))
            yield 'predict', dict(steps=steps, initial_state=0), opt(seq(steps + 1))
            yield 'predict', dict(steps=steps, initial_state=last, output_indices=True), opt(seq(steps + 1))
        for steps in (2, 3, 5):
            for kw in ({}, dict(output_indices=True), dict(initial_state=last), dict(initial_state=0, output_indices=True)):
                yield 'simulate', dict(steps=steps, **kw), seq(steps + 1)
        if n > 2:
            yield 'first_passage_reward', dict(steps=3, initial_state=0, first_passage_states=[last], rewards=rewards()), SCALAR
            yield 'first_passage_reward', dict(steps=2, initial_state=last, first_passage_states=[0], rewards=rewards()), SCALAR
        yield 'committor_probabilities', dict(committor_type='forward', states1=[0], states2=[last]), arr(n)
        yield 'committor_probabilities', dict(committor_type='backward', states1=[last], states2=[0]), arr(n)
        yield 'mean_first_passage_times_to', {}, arr(n, n)
        yield 'mean_first_passage_times_to', dict(targets=[last]), arr(n)
        if n > 2:
            yield 'mean_first_passage_times_to', dict(targets=ixs[:-1]), arr(n)
            yield 'committor_probabilities', dict(committor_type='forward', states1=ixs[:-1], states2=[last]), arr(n)
        yield 'mean_first_passage_times_between', dict(origins=[0], targets=[last]), SCALAR
        if n > 2:
            yield 'mean_first_passage_times_between', dict(origins=ixs[1:], targets=[0]), SCALAR
        yield 'mean_recurrence_times', {}, arr(n)
        yield 'sensitivity', dict(state=last), arr(n, n)
        yield 'mixing_time', {}, opt(SCALAR)
        for points in ([1], [1, 2], [0, 1, 2, 3]):
            walk = [0, f.succ[0][0]]
            while len(walk) < 6:
                walk.append(f.succ[walk[-1]][0])
            yield 'time_correlations', dict(sequence1=walk, time_points=points), seq(len(points), SCALAR)
            yield 'time_relaxations', dict(sequence=walk, time_points=points), seq(len(points), SCALAR)
            yield 'time_correlations', dict(sequence1=walk, sequence2=walk[:4], time_points=points), seq(len(points), SCALAR)
        yield 'time_correlations', dict(sequence1=walk, time_points=2), SCALAR
        yield 'time_relaxations', dict(sequence=walk, time_points=2), SCALAR
        yield 'to_nth_order', dict(order=2), mc(n)
        yield 'to_nth_order', dict(order=3), mc(n)
        yield 'to_bounded_chain', dict(boundary_condition='absorbing'), mc(n)
        yield 'to_bounded_chain', dict(boundary_condition='reflecting'), mc(n)
        yield 'to_bounded_chain', dict(boundary_condition=0.25), mc(n)
        yield 'to_lazy_chain', {}, mc(n)
        yield 'to_lazy_chain', dict(inertial_weights=dist()), mc(n)
        yield 'closest_reversible', dict(initial_distribution=dist(), weighted=False), mc(n)
        yield 'implied_timescales', None, arr(n)
        for other in (t.model,):
            yield 'merge_with', dict(other=other, gamma=0.25), mc(n)
        for s in range(2, n):
            for signs in SIGNS:
                yield 'aggregate', dict(s=s, method='spectral-bottom-up', signs=signs), mc(s)
                yield 'aggregate', dict(s=s, method='spectral-top-down', signs=signs), mc(s)
            yield 'aggregate', dict(s=s), mc(s)
        for k in range(2, n):
            yield 'lump', dict(partitions=[[i] for i in ixs[:k - 1]] + [ixs[k - 1:]]), mc(k)
            yield 'lump', dict(partitions=[ixs[:-(k - 1)]] + [[i] for i in ixs[-(k - 1):]]), mc(k)
    # depend on the classification
    for steps in (1, 2, 4):
        for a in range(min(n, 3)):
            yield 'predict', dict(steps=steps, initial_state=a), opt(seq(steps + 1))
            yield 'simulate', dict(steps=steps + 1, initial_state=a, output_indices=True), seq(steps + 2)
    yield 'accessibility_matrix', None, arr(n, n)
    yield 'adjacency_matrix', None, arr(n, n)
    yield 'communication_matrix', None, arr(n, n)
    yield 'incidence_matrix', None, arr(n, n * n)
    yield 'pi', None, seq(len(f.closed), arr(n))
    yield 'periods', None, seq(len(f.classes), SCALAR)
    yield 'hitting_probabilities', {}, arr(n)
    yield 'hitting_probabilities', dict(targets=[last]), arr(n)
    yield 'hitting_times', {}, arr(n)
    yield 'hitting_times', dict(targets=[last]), arr(n)
    if n > 2:
        yield 'hitting_probabilities', dict(targets=ixs[1:]), arr(n)
        yield 'hitting_times', dict(targets=ixs[:-1]), arr(n)
    yield 'mean_number_visits', {}, arr(n, n)
    yield 'to_matrix', {}, arr(n, n)
    yield 'to_canonical_form', {}, mc(n)
    if f.absorbs and f.transient_states:
        m = len(f.transient_states)
        yield 'fundamental_matrix', None, arr(m, m)
        yield 'mean_absorption_times', {}, arr(m)
        yield 'absorption_probabilities', {}, arr(n - m, m)
    for start in range(n):
        part = sorted(f.reach[start])
        if len(part) > 1:
            yield 'to_subchain', dict(states=[start]), mc(len(part))


def chain_job(ctx, succ):
    t = Chain(ctx, succ)
    f = Facts(succ)
    return [(f'MarkovChain.{op}', f'{shown(t, kw)} of a chain with the transitions {drawn(succ)}', *answer(t, t.ci.members[op], [t.model], kw, want)) for op, kw, want in ask(t, f)]


def shown(t, kw):
    def one(x):
        return t.label(x) if isinstance(x, str) and x in t.states + t.symbols else 'numbers' if isinstance(x, AV) else '[' + ', '.join(map(one, x)) + ']' if isinstance(x, (list, tuple)) else repr(x)
    return '' if kw is None else '(' + ', '.join(f'{k}={one(v)}' for k, v in kw.items()) + ')'


def answer(t, fi, first, kw, want):
    """(status, why, where)"""
    I = t.w.I
    base, t.w.st = t.w.st, t.w.st.fork()
    kw = dict(kw or {})
    signs = kw.pop('signs', None)
    if signs:
        split(t, signs)
    try:
        outs = t.call(t.w.st, fi, list(first), {k: t.value(v) for k, v in kw.items()})
    except (Budget, RecursionError):
        return 'unknown', 'too large', fi.loc()
    finally:
        t.w.st = base
        vars(t.client).pop('ext_call', None)
    if not outs:
        return 'unknown', 'it raises', fi.loc()
    res = [(fit(I, st, v, want, 'the result'), 'undecided' not in st.flags) for st, v in outs]
    bad = [r for r, _ in res if r]
    answers = [r for r, (st, v) in zip(res, outs) if not (want[0] == 'optional' and v.single() == NONE)]
    if bad and (len(bad) == len(answers) or any(r and sure for r, sure in res)):
        return 'violated', bad[0], fi.loc()
    return ('ok' if all(r == '' for r, _ in res) else 'unknown'), '', fi.loc()


# ---------------------------------------------------------------- generators
def labels(prefix, n):
    return [f'{prefix}{i}' for i in range(1, n + 1)]


def generated(t):
    """(operation, arguments, what is expected) for generators of chains"""
    for n in (2, 3, 5):
        for kw in ({}, dict(states=labels('L', n))):
            yield 'identity', dict(size=n, **kw), mc(n)
            yield 'random', dict(size=n, seed=0, **kw), mc(n)
            yield 'random', dict(size=n, zeros=1, seed=0, **kw), mc(n)
            yield 'from_matrix', dict(m=t.array('m', n, n), **kw), mc(n)
            for kind in ('adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'):
                yield 'approximation', dict(size=n, approximation_type=kind, alpha=0.0, sigma=1.0, rho=0.5, **kw), mc(n)
            yield 'dirichlet_process', dict(size=n, diffusion_factor=1, seed=0, **kw), mc(n)
            yield 'dirichlet_process', dict(size=n, diffusion_factor=n, diagonal_bias_factor=2.0, shift_concentration=True, seed=0, **kw), mc(n)
            yield 'birth_death', dict(p=[0.25] * (n - 1) + [0.0], q=[0.0] + [0.25] * (n - 1), **kw), mc(n)
            if n > 2:
                yield 'gamblers_ruin', dict(size=n, w=0.25, **kw), mc(n)
        yield 'fit_sequence', dict(fitting_type='mle', possible_states=labels('L', n), sequence=labels('L', n) + labels('L', n)), mc(n)
        yield 'fit_sequence', dict(fitting_type='mle', possible_states=labels('L', n), sequence=labels('L', 2)), mc(n)
        yield 'fit_sequence', dict(fitting_type='map', possible_states=labels('L', n), sequence=labels('L', n)), mc(n)
        for kind in ('gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule'):
            if kind != 'simpson-rule' or n % 2:
                yield 'fit_function', dict(quadrature_type=kind, possible_states=labels('L', n), f=t.w.rich('f', mc=False), quadrature_interval=(1.0, 2.0)), mc(n)
    for n in (1, 2, 4):
        for kw in ({}, dict(states=labels('L', 2 * n + 1))):
            yield 'urn_model', dict(model='ehrenfest', n=n, **kw), mc(2 * n + 1)
            yield 'urn_model', dict(model='bernoulli-laplace', n=n, **kw), mc(2 * n + 1)
    for n in (2, 3, 5):
        for kw in ({}, dict(states=labels('L', n + 1))):
            yield 'population_genetics_model', dict(model='moran', n=n, s=0.25, u=0.01, v=0.01, **kw), mc(n + 1)
            yield 'population_genetics_model', dict(model='wright-fisher', n=n, s=0.25, u=0.01, v=0.01, **kw), mc(n + 1)


def hidden_generated(t):
    for n, k in ((2, 3), (3, 2), (4, 4)):
        for kw in ({}, dict(states=labels('L', n), symbols=labels('M', k))):
            yield 'from_matrices', dict(mp=t.array('m', n, n), me=t.array('o', n, k), **kw), hmm(n, k)
            yield 'random', dict(n=n, k=k, seed=0, **kw), hmm(n, k)
            yield 'random', dict(n=n, k=k, p_zeros=1, e_zeros=1, seed=0, **kw), hmm(n, k)
        walk = (list(range(min(n, k))) * 3)[:5]
        yield 'estimate', dict(possible_states=labels('L', n), possible_symbols=labels('M', k), sequence_states=walk, sequence_symbols=walk), hmm(n, k)
        for kind in ('baum-welch', 'map', 'mle', 'viterbi'):
            yield 'fit', dict(fitting_type=kind, possible_states=labels('L', n), possible_symbols=labels('M', k), p_guess=t.array('m', n, n), e_guess=t.array('o', n, k), symbols=walk), hmm(n, k)


def hidden(t):
    n, k = t.n, t.k
    for m in (2, 3, 5):
        walk = [i % k for i in range(m)]
        for kw in ({}, dict(initial_status=n - 1), dict(initial_status=t.array('d', n))):
            yield 'decode', dict(symbols=walk, use_scaling=True, **kw), opt(tup(SCALAR, arr(n, m), arr(n, m + 1), arr(n, m + 1), arr(m + 1)))
            yield 'decode', dict(symbols=walk, use_scaling=False, **kw), opt(tup(SCALAR, arr(n, m), arr(n, m + 1), arr(n, m + 1), NOTHING))
            for kind in ('map', 'mle', 'viterbi'):
                for out in (True, False):
                    yield 'predict', dict(prediction_type=kind, symbols=walk, output_indices=out, **kw), opt(tup(SCALAR, seq(m)))
    for m in (2, 3, 5):
        for kw in ({}, dict(initial_state=0), dict(initial_state=n - 1, output_indices=True)):
            yield 'simulate', dict(steps=m, **kw), tup(seq(m + 1), seq(m + 1))
    for a in range(n):
        for out in (True, False):
            yield 'next', dict(initial_state=a, output_index=out), tup(SCALAR, SCALAR)
            yield 'next', dict(initial_state=a, target='state', output_index=out), SCALAR
            yield 'next', dict(initial_state=a, target='symbol', output_index=out), SCALAR
    yield 'to_matrices', {}, tup(arr(n, n), arr(n, k))
    # kept states emit kept symbols, and are left for kept states
    yield 'restrict', dict(states=list(t.states[:2])), hmm(2, k)
    yield 'restrict', dict(symbols=list(t.symbols[1:3])), hmm(n, 2)
    yield 'restrict', dict(states=list(t.states[:2]), symbols=list(t.symbols[:2])), hmm(2, 2)
    yield 'restrict', dict(states=list(t.states[1:]), symbols=list(t.symbols[:3])), hmm(2, 3)
    yield 'n', None, SCALAR
    yield 'k', None, SCALAR


def other_job(ctx, which):
    short, table = which
    t = Case(ctx, short, 'mixed' if short == 'mc' else None)
    own = table is hidden
    name = 'MarkovChain' if short == 'mc' else 'HiddenMarkovModel'
    out = []
    for op, kw, want in table(t):
        fi = t.ci.members[op]
        out.append((f'{name}.{op}', shown(t, kw) + (f' of a model with {t.n} states and {t.k} symbols' if own else ''), *answer(t, fi, [t.model] if own else [], kw, want)))
    return out


def shapes(ctx):
    ctx.rule = ('Operations are interpreted on chains of several sizes and classifications and on arguments of several lengths; shapes of arrays and lengths of lists are followed through slices, selections, concatenations and '
                'comprehensions, numbers stay opaque. The dimensions of each result must be the documented ones.')
    attachment.SHAPE['mc'] = (4, None)
    todo = [(other_job, ('hmm', hidden)), (other_job, ('mc', generated)), (other_job, ('hmm', hidden_generated))] + [(chain_job, s) for s in sorted(ERGODIC + REDUCIBLE, key=len, reverse=True)]

    def run(i):
        f, arg = todo[i]
        return f(ctx, arg)
    total = {}
    for part in pmap(run, range(len(todo)), fallback=lambda why: []):
        for name, args, status, why, loc in part:
            e = total.setdefault((name, loc), [0, 0, []])
            e[0] += 1
            e[1] += status == 'ok'
            if status == 'violated':
                e[2].append((args, why))
    answers = 0
    for (name, loc), (asked, known, bad) in sorted(total.items()):
        answers += asked
        ctx.ob(name, 'violated' if bad else 'ok' if known == asked else 'unknown', f'{known} of {asked} results known')
        if bad:
            args, why = min(bad, key=lambda x: len(x[0]))
            ctx.violation(name, f'{name}{args}: {why}' + (f' ({len(bad)} cases in all)' if len(bad) > 1 else ''), loc)
    ctx.count('results', answers)
    ctx.count('results known', sum(e[1] for e in total.values()))
    ctx.floor('operations', len(total), 60)
