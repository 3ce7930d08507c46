"""Quantities that exist for some kinds of chain only: None exactly for the others."""
import ast

from sa.interp import Client
from sa.loader import AnalysisBroken
from sa.values import *
from sa.values import AV
from sa.world import entries, run_entry
from .effects import sweep, snap

# irreducible, aperiodic, absorbing, number of transient states, number of recurrent classes
KINDS = [
    ('ergodic', True, True, False, 0, 1),
    ('irreducible and periodic', True, False, False, 0, 1),
    ('absorbing with one absorbing state', False, True, True, 2, 1),
    ('absorbing with two absorbing states', False, True, True, 1, 2),
    ('absorbing without transient states', False, True, True, 0, 3),
    ('one recurrent class and transient states', False, True, False, 1, 1),
    ('two recurrent classes and no transient states', False, True, False, 0, 2),
    ('two recurrent classes and transient states', False, True, False, 1, 2),
    ('one periodic recurrent class and transient states', False, False, False, 1, 1),
    ('two periodic recurrent classes', False, False, False, 0, 2),
]
ERG = lambda i, a, b, t, r: i and a
IRR = lambda i, a, b, t, r: i
ABS = lambda i, a, b, t, r: b and t > 0
ONE = lambda i, a, b, t, r: r == 1
TRN = lambda i, a, b, t, r: t > 0
# operation -> (requirement, may the value be None for numerical reasons all the same)
NEEDS = {
    'entropy_rate': (ONE, False), 'entropy_rate_normalized': (ONE, False), 'fundamental_matrix': (ABS, False), 'implied_timescales': (ERG, False), 'kemeny_constant': (ABS, False),
    'mixing_rate': (ERG, True), 'relaxation_rate': (ERG, True), 'spectral_gap': (ERG, True), 'absorption_probabilities': (ABS, False), 'committor_probabilities': (ERG, False),
    'mean_absorption_times': (ABS, False), 'mean_first_passage_times_between': (ERG, False), 'mean_first_passage_times_to': (ERG, False), 'mean_recurrence_times': (ERG, False),
    'mixing_time': (ERG, True), 'sensitivity': (IRR, False), 'time_correlations': (ONE, False), 'time_relaxations': (ONE, False),
}


class Kind(Client):
    kind = None
    rejoins = True

    def __init__(self):
        self.read = set()

    def numeric_condition(self, st, cond):
        # one computed number compared with zero: no kind of chain decides it
        I = self.world.I
        if isinstance(cond, ast.Compare) and len(cond.ops) == 1 and isinstance(cond.ops[0], (ast.Is, ast.IsNot)):
            # None or a number: told apart by what made it None
            c = cond.comparators[0]
            if not isinstance(c, ast.Constant) or c.value is not None or not isinstance(cond.left, (ast.Name, ast.Attribute)):
                return False
            ts = [v for s, v in I.eval_multi(cond.left, st.fork())]
            return bool(ts) and all(NONE in v.atoms and all(a == NONE or a[0] in ('s', 'c', 'iv') and a[1] in ('float', 'npfloat') for a in v.atoms) for v in ts)
        if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
            pair = [cond.left, cond.comparators[0]]
        elif isinstance(cond, ast.Call) and len(cond.args) == 2 and getattr(cond.func, 'attr', getattr(cond.func, 'id', '')) == 'isclose':
            pair = cond.args
        else:
            return False
        zero = [x for x in pair if isinstance(x, ast.Constant) and type(x.value) in (int, float) and x.value == 0]
        other = [x for x in pair if not isinstance(x, ast.Constant)]
        if len(zero) != 1 or len(other) != 1 or not isinstance(other[0], (ast.Name, ast.Attribute)):
            return False
        ts = [v for s, v in I.eval_multi(other[0], st.fork())]
        return bool(ts) and all(v.atoms and all(a[0] in ('s', 'c', 'iv') and a[1] in ('float', 'npfloat') for a in v.atoms) for v in ts)

    def labels(self, st, node, tag, n):
        I = self.world.I
        return I.new(st, node, tag, 'list', items=tuple(AV({S('str', 'label:n')}) for _ in range(n)), shape=(n,), facts=frozenset({'nonempty'}) if n else EMPTY)

    def groups(self, st, node, tag, sizes, elem):
        I = self.world.I
        return I.new(st, node, tag, 'list', items=tuple(I.new(st, node, (tag, k), 'list', items=(elem,) * s, shape=(s,), facts=frozenset({'nonempty'})) for k, s in enumerate(sizes)), shape=(len(sizes),),
                     facts=frozenset({'nonempty'}) if sizes else EMPTY)

    def getattr(self, st, node, atom, name):
        I = self.world.I
        o = I.obj(st, atom[1]) if atom[0] == 'o' else None
        if o is None or o.t != 'inst' or o.cls is None or o.cls.name != 'MarkovChain':
            return None
        title, irr, ape, ab, tr, rec = self.kind
        n = name.split('__')[-1] if name.startswith('_') else name
        ix = av(S('int', 'idx:n'))
        lb = AV({S('str', 'label:n')})
        r = None
        if n == 'is_irreducible':
            r = avc(irr)
        elif n == 'is_aperiodic':
            r = avc(ape)
        elif n == 'is_absorbing':
            r = avc(ab)
        elif n == 'periods':
            k = rec + tr
            r = I.new(st, node, 'periods', 'list', items=tuple(avc(1 if ape or j >= rec else 2) for j in range(k)), shape=(k,), facts=frozenset({'nonempty'}))
        elif n == 'period':
            r = avc(1 if ape else 2)
        elif n in ('transient_states', 'transient_states_indices'):
            r = I.new(st, node, n, 'list', items=((lb if n == 'transient_states' else ix),) * tr, shape=(tr,), facts=frozenset({'nonempty'}) if tr else EMPTY)
        elif n in ('transient_classes', 'transient_classes_indices'):
            r = self.groups(st, node, n, [1] * tr, lb if n == 'transient_classes' else ix)
        elif n in ('recurrent_classes', 'recurrent_classes_indices', 'communicating_classes', 'communicating_classes_indices', 'classes_indices'):
            sizes = [2] * rec if not ab else [1] * rec
            if n.startswith(('comm', 'classes')):
                sizes = sizes + [1] * tr
            r = self.groups(st, node, n, sizes, ix if n.endswith('indices') else lb)
        elif n in ('absorbing_states', 'absorbing_states_indices'):
            k = rec if ab else 0
            r = I.new(st, node, n, 'list', items=((lb if n == 'absorbing_states' else ix),) * k, shape=(k,), facts=frozenset({'nonempty'}) if k else EMPTY)
        elif n in ('pi', 'stationary_distributions', 'steady_states'):
            r = I.new(st, node, n, 'list', items=tuple(I.new(st, node, (n, k), 'ndarray', elem=av(S('float')), shape=('n',), facts=frozenset({'nonempty'})) for k in range(rec)), shape=(rec,), facts=frozenset({'nonempty'}))
        if r is not None:
            self.read.add(n)
        return r


def partial(ctx):
    ctx.rule = ('Each operation is interpreted abstractly once for every kind of chain (irreducible, aperiodic, absorbing, with transient states, number of recurrent classes, in all consistent '
                'combinations). Where the documented requirement fails every path to a return must return None; where it holds no path may, and one must return a value.')
    found = 0
    for kind in KINDS:
        Kind.kind = kind
        title, irr, ape, ab, tr, rec = kind
        for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Kind, only=lambda e: e.short == 'mc' and (e.fi.name in NEEDS or e.fi.name == 'is_ergodic')):
            found += 1
            I = w.I
            nm = f'{e.name} of a chain that is {title}' if not title[0].isdigit() and title.split()[0] in ('ergodic', 'irreducible', 'absorbing') else f'{e.name} of a chain with {title}'
            if e.fi.name == 'is_ergodic':
                vs = set()
                for st, v in outs:
                    vs |= I.truth(st, v) or {True, False}
                bad = vs and vs == {not (irr and ape)}
                if bad:
                    ctx.violation(f'{e.fi.ident}:{title}', f'{nm} is {not (irr and ape)}', e.fi.loc())
                ctx.ob(nm, 'violated' if bad else 'ok' if vs == {irr and ape} else 'unknown')
                continue
            need, numeric = NEEDS[e.fi.name]
            ok = need(irr, ape, ab, tr, rec)
            none = value = 0
            snone = svalue = False      # reached without a condition on the chain that the analysis cannot decide
            for st, v in outs:
                none += NONE in v.atoms
                value += bool(v.atoms - {NONE})
                sure = not st.flags & {'undet', 'imprecise'}
                snone |= sure and NONE in v.atoms
                svalue |= sure and bool(v.atoms - {NONE})
            status, why = 'ok', ''
            if not outs:
                status, why = 'unknown', 'no normal return found'
            elif ok and not value:
                status, why = 'violated', f'{nm} is always None although the chain meets the requirement'
            elif ok and none and not numeric:
                status, why = 'violated' if snone else 'unknown', f'{nm} can be None although the chain meets the requirement'
            elif not ok and not none:
                status, why = 'violated', f'{nm} is a value although the chain does not meet the requirement'
            elif not ok and value:
                status, why = 'violated' if svalue else 'unknown', f'{nm} can be a value although the chain does not meet the requirement'
            if status == 'violated' and not c.read:
                status = 'unknown'
            if status == 'violated':
                ctx.violation(f'{e.fi.ident}:{title}', why, e.fi.loc())
            ctx.ob(nm, status, why)
    ctx.floor('operations for kinds of chain', found, 150)
