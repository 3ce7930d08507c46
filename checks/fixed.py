"""C25: values that the definition of a measure or of a generated model fixes.

Measures that are relative to sets of states, and generated models of known structure, are interpreted with opaque labels and numbers; the elements whose value the definition fixes must have this value, whatever the others are."""
from sa.par import pmap
from sa.values import *
from sa.values import AV
from .attachment import exact, job

CASES = []


def case(name, op, choices, patterns=('mixed',)):
    """the same rule for several arguments and chains"""
    def f(fn):
        for n, c in choices.items():
            for p in patterns:
                CASES.append((f'{name} ({n})' if n else name, 'mc', p, op, lambda t, c=c: fn(t, c)))
        return fn
    return f


ZERO, UNIT = exact(C(0.0)), exact(C(1.0))


def fixed(r, what, its, wants):
    """single values; None: not fixed"""
    if its is None or len(its) != len(wants):
        return r.put(what, None)
    for n, (x, kw) in enumerate(zip(its, wants)):
        if kw is not None:
            r.put(f'element {n + 1} of {what}', r.t.number(x, **kw))


def vector(wants):
    return lambda v, r: fixed(r, 'the result', r.t.items(r.st, v), wants)


# ---------------------------------------------------------------- measures relative to states
SETS = {'labels': ([3], [0], False), 'indices': ([1], [3, 2], True), 'sets of two': ([2, 0], [1, 3], False), 'three targets': ([2], [0, 1, 3], False)}


def given(t, xs, indices):
    return [x if indices else t.states[x] for x in xs]


@case('committor_probabilities', 'committor_probabilities', {f'{k}, {n}': (k,) + c for k in ('forward', 'backward') for n, c in SETS.items()}, ('ergodic',))
def _(t, how):
    kind, a, b, indices = how
    one, zero = (b, a) if kind == 'forward' else (a, b)
    return [kind, given(t, a, indices), given(t, b, indices)], vector([UNIT if i in one else ZERO if i in zero else None for i in range(t.n)])


@case('mean_first_passage_times_to', 'mean_first_passage_times_to', {n: c for n, c in SETS.items()}, ('ergodic',))
def _(t, how):
    targets = how[1]
    return [given(t, targets, how[2])], vector([ZERO if i in targets else None for i in range(t.n)])


@case('hitting_probabilities', 'hitting_probabilities', {n: c for n, c in SETS.items()}, ('mixed', 'ergodic', 'absorbing', 'ordered', 'periodic'))
def _(t, how):
    targets = how[1]
    return [given(t, targets, how[2])], vector([UNIT if i in targets else None for i in range(t.n)])


# ---------------------------------------------------------------- generated models
def model(n, entry, names=None):
    """entry(i, j): what is fixed for the states i and j"""
    return lambda v, r: r.model(v, [names[i] if names else str(i + 1) for i in range(n)], lambda a, b: entry(*((names.index(a), names.index(b)) if names else (int(a) - 1, int(b) - 1))), ordered=True)


@case('identity', 'identity', {'four states': 4, 'two states': 2})
def _(t, n):
    return [n], model(n, lambda i, j: UNIT if i == j else ZERO)


@case('gamblers_ruin', 'gamblers_ruin', {'three states': 3, 'six states': 6, 'labels': 4})
def _(t, n):
    w = t.named('win')
    names = t.states if n == t.n else None

    def entry(i, j):
        if i in (0, n - 1):
            return UNIT if i == j else ZERO
        return {'nums': frozenset({'cell:win:0:0'})} if abs(i - j) == 1 else ZERO
    return [n, w] + ([list(names)] if names else []), model(n, entry, names)


@case('gamblers_ruin', 'gamblers_ruin', {'three wins in four rounds': 5})
def _(t, n):
    return [n, 0.75], model(n, lambda i, j: (UNIT if i == j else ZERO) if i in (0, n - 1) else exact(C(0.75 if j == i + 1 else 0.25 if j == i - 1 else 0.0)))


@case('urn_model', 'urn_model', {f'{k}, {n}': (k, n) for k in ('ehrenfest', 'bernoulli-laplace') for n in (1, 2, 3)})
def _(t, how):
    kind, n = how
    m = 2 * n

    def entry(i, j):
        if i in (0, m):
            return UNIT if j == (1 if i == 0 else m - 1) else ZERO
        if kind == 'ehrenfest':
            return exact(C(i / m if j == i - 1 else 1.0 - i / m if j == i + 1 else 0.0))
        return exact(C({-1: (i / m) ** 2, 0: 2.0 * i / m * (1.0 - i / m), 1: (1.0 - i / m) ** 2}.get(j - i, 0.0)))
    return [kind, n], model(m + 1, entry)


@case('population_genetics_model', 'population_genetics_model', {f'{k}, {n} individuals': (k, n) for k in ('moran', 'wright-fisher') for n in (2, 4)})
def _(t, how):
    kind, n = how

    def entry(i, j):
        if i in (0, n):
            return UNIT if i == j else ZERO
        return None if kind != 'moran' or abs(i - j) < 2 else ZERO
    return [kind, n] + [AV({C(x)}) for x in (0.25, 0.03125, 0.03125)], model(n + 1, entry)


def definitions(ctx):
    ctx.rule = ('Measures relative to sets of states, on chains of four states in several patterns of positive transitions, and generated models of several sizes are interpreted with opaque labels and positive elements; '
                'each element that the definition fixes (boundary values of committors, hitting probabilities and mean first passage times; ends and neighbours of generated models) must be assigned this value. '
                'A value taken from the solution of a linear system is fixed if its equation has no other unknown.')
    res = pmap(lambda n: job(ctx, CASES[n]), list(range(len(CASES))), fallback=lambda why: ('unknown', why, 0, 0, ''))
    n = 0
    for (name, _, pattern, op, _), (st, why, known, total, where) in zip(CASES, res):
        what = f'MarkovChain.{name}, chain: {pattern}'
        ctx.ob(what, st, why or f'{known} of {total} values')
        n += known
        if st == 'violated':
            ctx.violation(f'{name}:{pattern}', f'{what}: {why}', where)
    ctx.count('cases', len(CASES))
    ctx.count('values compared', n)
    ctx.floor('cases', len(CASES), 30)
    ctx.floor('values compared', n, 280)
