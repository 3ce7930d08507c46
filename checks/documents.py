"""C09: documents and dictionaries that describe no model are refused.

Documents in the documented layout, with opaque labels and abstract numbers, are given one defect each and read by the interpreted readers; each path must end in a refusal of a documented kind."""
import math
import xml.etree.ElementTree as ET

from sa.interp import Budget
from sa.par import pmap
from sa.values import *
from sa.values import AV
from .conversions import FORMATS, KEYS, MODEL_CLASSES, Number, Trip, document, entries_of

ABOVE, NEGATIVE = IV('float', 1.0, math.inf), IV('float', -math.inf, 0.0)
PART, LARGE = IV('float', 0.01, 0.9), IV('float', 0.6, 1.0)


def first(m, short):
    """the elements of the first row of the transition (p) or emission (e) matrix: a test of keys"""
    return lambda t, k: k[-2] == t.states[0] and (short == 'mc' or k[0] == m.upper())


# ---------------------------------------------------------------- defects of the entries: any format
def one(value):
    def f(t, es, row):
        at = next(n for n, (k, _) in enumerate(es) if row(t, k))
        return es[:at] + [(es[at][0], value)] + es[at + 1:]
    return f


def below(t, es, row):
    hit = [n for n, (k, _) in enumerate(es) if row(t, k)]
    return [(k, PART if n == hit[0] else C(0.0) if n in hit else v) for n, (k, v) in enumerate(es)]


def beyond(t, es, row):
    return [(k, LARGE if row(t, k) else v) for k, v in es]


def constants(*rows):
    """the first rows, with these elements"""
    def f(t, es, row):
        kind = next(k[:-2] for k, _ in es if row(t, k))
        out, count = [], {}
        for k, v in es:
            n = count[k[:-1]] = count.get(k[:-1], -1) + 1
            i = t.states.index(k[-2])
            out.append((k, C((rows[i] + (0.0,))[n]) if k[:-2] == kind and i < len(rows) else v))
        return out
    return f


VALUES = {'a probability above 1': one(ABOVE), 'a negative probability': one(NEGATIVE), 'a probability that is not a number (nan)': one(NAN), 'an infinite probability': one(C(math.inf)),
          'probabilities outside of 0 and 1 with the sum 1': constants((1.5, -0.5)), 'rows with the sums 0.75 and 1.25': constants((0.5, 0.25), (0.75, 0.5)),
          'a row with a sum below 1': below, 'a row with a sum above 1': beyond}


def renamed(old, new):
    def f(t, es):
        x = old(t)
        return [(tuple(new(t) if a == x else a for a in k), v) for k, v in es]
    return f


def single(t, es):
    return [(k, C(1.0) if k[-2] == k[-1] else v) for k, v in es if k[-2] == t.states[0] and (k[-1] == t.states[0] or t.short == 'hmm' and k[0] == 'E')]


def onesymbol(t, es):
    return [(k, C(1.0) if k[0] == 'E' else v) for k, v in es if k[0] == 'P' or k[-1] == t.symbols[0]]


def without_self(t, es):
    return [(k, v) for k, v in es if not (k[-2] == k[-1] == t.states[-1])]


def without_emissions(t, es):
    return [(k, v) for k, v in es if k[0] == 'P']


def without_pair(t, es):
    return es[:-1]


def badreference(t, es):
    return [(('X',) + k[1:] if n == len(es) - 1 else k, v) for n, (k, v) in enumerate(es)]


LABELS = {'a single state': (single, 'mc hmm', 'csv json txt xml dictionary'), 'a single symbol': (onesymbol, 'hmm', 'csv json txt xml dictionary'),
          'a state without an entry for itself': (without_self, 'mc hmm', 'json txt xml dictionary'), 'no emission probabilities': (without_emissions, 'hmm', 'json txt xml dictionary'),
          'all but one of the pairs': (without_pair, 'mc hmm', 'dictionary'),
          'an unknown reference': (badreference, 'hmm', 'json txt xml dictionary'), 'a label of a state that is blank': (renamed(lambda t: t.states[-1], lambda t: '  '), 'mc hmm', 'csv json xml dictionary'),
          'a label of a state that is empty': (renamed(lambda t: t.states[-1], lambda t: ''), 'mc hmm', 'csv json xml dictionary'),
          'a label of a symbol that is blank': (renamed(lambda t: t.symbols[-1], lambda t: '  '), 'hmm', 'csv json xml dictionary'),
          'a label of both a state and a symbol': (renamed(lambda t: t.symbols[-1], lambda t: t.states[-1]), 'hmm', 'csv json txt xml dictionary')}


# ---------------------------------------------------------------- defects of the documents
def item(change, at=-1):
    """a change of one of the items (lines, rows) of the document"""
    def f(x):
        x[at] = change(x[at])
        return x
    return f


def drop(x):
    return x[:-1]


def less(key):
    def f(d):
        return {k: v for k, v in d.items() if k != key}
    return f


def repeat_state(short):
    def f(x):
        # without the repetition, a model
        if short == 'mc':
            return [[x[0][1], x[0][1], x[0][2]], ['0', '1', '0'], ['0', '1', '0'], ['0', '0', '1']]
        return [[x[0][1]] + x[0][1:], ['0', '1', '1', '0', '0'], ['0', '1', '1', '0', '0']]
    return f


def repeat_symbol(x):
    return [x[0][:3] + [x[0][2]] + x[0][4:], ['1', '0', '0', '1', '0'], ['0', '1', '0', '1', '0']]


def noprefix(x):
    x[0] = [x[0][0]] + ['Q' + x[0][1][1:]] + x[0][2:]
    return x


def retag(root):
    root.tag = 'Model'
    return root


def child(name=None, drop=None, value=None, extra=None):
    def f(root):
        x = root[-1]
        if name:
            x.tag = name
        if drop:
            del x.attrib[drop]
        if value:
            x.attrib[value[0]] = value[1]
        if extra:
            x.attrib[extra] = '1'
        return root
    return f


def truth(x):
    """the last row is (0, ..., 0, true)"""
    key = list(x[-1])[-1]
    row = lambda d: list(d.values())[:-2]
    return [{**d, key: d is x[-1] or 0.0} if row(d) == row(x[-1]) else d for d in x]


def wrapped(x, value):
    return [{k: value if v is True else v for k, v in d.items()} for d in x]


def number(short):
    """the last state has a number instead of a name, everywhere"""
    def f(x):
        fields = KEYS[short][-3:-1]
        old = x[-1][fields[0]]
        return [{k: 1 if v == old and k in fields else v for k, v in d.items()} for d in x]
    return f


def layouts(short, fmt):
    keys = KEYS[short]
    if fmt == 'json':
        yield 'an object instead of an array', lambda x: {str(n): y for n, y in enumerate(x)}
        yield 'an array among the objects', item(lambda d: list(d.values()))
        for k in keys:
            yield f'an object without {k}', item(less(k))
        yield 'an object with another property', item(lambda d: {**d, 'other': 1.0})
        yield 'a probability that is a text', item(lambda d: {**d, keys[-1]: 'x1'})
        yield 'a probability that is the text of a number', lambda x: wrapped(truth(x), '1.0')
        yield 'a state that is a number', number(short)
        yield 'a probability that is true', truth
        yield 'a probability that is null', item(lambda d: {**d, keys[-1]: None})
        yield 'a label that is a number', item(lambda d: {**d, keys[-2]: 1})
        yield 'a label that is null', item(lambda d: {**d, keys[-2]: None})
        yield 'no entries', lambda x: []
    elif fmt == 'txt':
        yield 'a line without a field', item(lambda r: r[:-2] + r[-1:])
        yield 'a line with another field', item(lambda r: r + ['1'])
        yield 'a probability that is a text', item(lambda r: r[:-1] + ['x1'])
    elif fmt == 'csv':
        yield 'a short row', item(drop)
        yield 'a long row', item(lambda r: r + ['0.0'])
        yield 'a missing row', drop
        yield 'an additional row', lambda x: x + [x[-1]]
        yield 'a probability that is a text', item(lambda r: r[:-1] + ['x1'])
        yield 'a missing probability', item(lambda r: r[:-1] + [''])
        yield 'a repeated state', repeat_state(short)
        if short == 'hmm':
            yield 'a repeated symbol', repeat_symbol
        if short == 'hmm':
            yield 'a label without prefix', noprefix
    elif fmt == 'xml':
        yield 'another root element', retag
        yield 'another child element', child('Entry')
        for k in keys:
            yield f'an item without {k}', child(drop=k)
        yield 'an item with another attribute', child(extra='other')
        yield 'a probability that is a text', child(value=(keys[-1], 'x1'))
        yield 'a missing probability', child(value=(keys[-1], ''))


# ---------------------------------------------------------------- graphs
def graph(t, es, edit):
    """a directed graph of these entries; edit(nodes, edges) changes its attributes"""
    st, w = t.w.st, t.w
    seen = list(dict.fromkeys(k[-2] for k, _ in es)) + list(dict.fromkeys(k[-1] for k, _ in es if t.short == 'hmm' and k[0] == 'E'))
    nodes = {x: {'layer': int(x in t.states)} if t.short == 'hmm' else {} for x in seen}
    edges = {k[-2:]: {'weight': AV({v}), **({'type': k[0]} if t.short == 'hmm' else {})} for k, v in es if v != C(0.0)}
    if edit is not None:
        nodes, edges = edit(t, nodes, edges)
    g = t.client.external(st, w.node, 'networkx.DiGraph', [], {})
    lift = lambda d: {k: v if isinstance(v, AV) else avc(v) for k, v in d.items()}
    for x, d in nodes.items():
        t.client.graph_put(st, w.node, w.I.obj(st, g.oids()[0]), 'nodes*', x, lift(d))
    for x, d in edges.items():
        t.client.graph_put(st, w.node, w.I.obj(st, g.oids()[0]), 'edges*', x, lift(d))
    return g


def edge(at, **kw):
    """an edge with other attributes (None: without)"""
    def f(t, nodes, edges):
        k = list(edges)[at]
        d = {a: v for a, v in {**edges[k], **kw}.items() if v is not None}
        return nodes, {**edges, k: d}
    return f


def node(at, **kw):
    def f(t, nodes, edges):
        k = list(nodes)[at]
        return {**nodes, k: {a: v for a, v in {**nodes[k], **kw}.items() if v is not None}}, edges
    return f


def called(at, new):
    """a node with another name"""
    def f(t, nodes, edges):
        old = list(nodes)[at]
        r = lambda x: new if x == old else x
        return {r(k): v for k, v in nodes.items()}, {(r(a), r(b)): v for (a, b), v in edges.items()}
    return f


def only(keep):
    def f(t, nodes, edges):
        ns = {k: v for n, (k, v) in enumerate(nodes.items()) if keep(t, k, n)}
        return ns, {(a, b): v for (a, b), v in edges.items() if a in ns and b in ns}
    return f


def graphs(short):
    for at in (0, -1):
        where = 'the first edge' if at == 0 else 'the last edge'
        for what, v in {'an infinite weight': C(math.inf), 'a weight that is not a number (nan)': NAN, 'a negative weight': NEGATIVE, 'a text as weight': C('0.5'), 'a boolean as weight': C(True), 'no weight': None}.items():
            yield f'{what} at {where}', edge(at, weight=None if v is None else AV({v}))
        if short == 'hmm':
            yield f'an unknown type at {where}', edge(at, type='X')
            yield f'no type at {where}', edge(at, type=None)
            yield f'a number as type at {where}', edge(at, type=1)
    for at, what in ((0, 'state'), (-1, 'state' if short == 'mc' else 'symbol')):
        for name, new in {'a number': 7, 'blank': '  ', 'empty': ''}.items():
            yield f'a name of a {what} that is {name} (node {at})', called(at, new)
        if short == 'hmm':
            for layer in (2, -1, None, 'text', 0.5):
                yield f'layer {layer} of a {what}', node(at, layer=layer)
    yield 'no nodes', only(lambda t, k, n: False)
    yield 'a single state', only(lambda t, k, n: n == 0 or k in t.symbols)
    if short == 'hmm':
        yield 'a single symbol', only(lambda t, k, n: k in t.states or k == t.symbols[0])
        yield 'no symbols', only(lambda t, k, n: k in t.states)
        yield 'no states', only(lambda t, k, n: k in t.symbols)


def jobs():
    for short in ('mc', 'hmm'):
        for what, _ in graphs(short):
            for base in ('', 'certain'):
                yield short, 'graph', what, None, base
    for short in ('mc', 'hmm'):
        for fmt in FORMATS + ('dictionary',):
            for m in ('p', 'e') if short == 'hmm' else ('p',):
                for what in VALUES:
                    yield short, fmt, what, m, ''
            for base in ('', 'certain'):
                for what, (_, shorts, fmts) in LABELS.items():
                    if short in shorts.split() and fmt in fmts.split():
                        yield short, fmt, what, None, base
                for what, _ in layouts(short, fmt):
                    yield short, fmt, what, None, base


def certain(t, es):
    """only probabilities of 0 and 1; the last one is 0"""
    n = len(t.states)

    def value(k):
        i = t.states.index(k[-2])
        if k[0] == 'E':
            return k[-1] == t.symbols[i]
        return k[-1] == (t.states[(i + 1) % n] if t.short == 'mc' else t.states[i])
    return [(k, C(1.0 if value(k) else 0.0)) for k, _ in es]


ALLOWED = {'ValueError', 'ValidationError', 'OSError', 'UnicodeDecodeError', 'JSONDecodeError'}


def job(ctx, j):
    short, fmt, what, m, base = j
    try:
        t = Trip(ctx, short, fmt != 'txt')
        es, edit = entries_of(t), None
        if base:
            es = certain(t, es)
        if m:
            es = VALUES[what](t, es, first(m, short))
        elif fmt == 'graph':
            edit = dict(graphs(short))[what]
        elif what in LABELS:
            es = LABELS[what][0](t, es)
        else:
            edit = dict(layouts(short, fmt))[what]
        st = t.w.st
        if fmt == 'dictionary':
            args = [t.w.new(('given',), 'dict', attrs={k: AV({v}) for k, v in es}, facts=frozenset({'nonempty'} if es else ()))]
        elif fmt == 'graph':
            args = [graph(t, es, edit)]
        else:
            t.client.put(st, t.client.disk_id(), text=document(t, fmt, es, edit), encoding=avc('utf-8' if fmt == 'xml' else None), exists=True)
            args = [avc('/tmp/model.' + fmt)]
        fi = t.ci.members['from_' + (fmt if fmt in ('dictionary', 'graph') else 'file')]
        outs = t.call(st, fi, args)
    except Budget:
        return 'unknown', 'too large', ''
    refs = t.w.I.collectors[0]
    sure = [r for r in refs if not {'undecided', 'implicit'} & r[0].flags]
    if any('undecided' not in s.flags for s, _ in outs) or outs and not refs:
        return 'violated', 'it is accepted', fi.loc()
    wrong = [r for r in sure if not set(r[1]) & ALLOWED and '?' not in r[1]]
    if wrong:
        return 'violated', f'it ends in {wrong[0][1][0]}', f'{t.w.I.repo.rel(wrong[0][3]) if hasattr(t.w.I.repo, "rel") else fi.loc()}'
    return ('ok', '', '') if not outs else ('unknown', 'undecided conditions', '')


def sound(ctx, short):
    """the graph the defects are put into is read without a refusal"""
    t = Trip(ctx, short)
    return bool(t.call(t.w.st, t.ci.members['from_graph'], [graph(t, certain(t, entries_of(t)), None)]))


def documents(ctx):
    ctx.rule = ('Documents in the documented layouts and dictionaries, with opaque labels and numbers known by an interval, get one defect each (probabilities outside of 0 and 1, rows with other sums, missing, repeated or blank labels, '
                'unknown references, missing or additional fields, wrong kinds); the interpreted readers must end every path in a ValueError, ValidationError or OSError.')
    todo = list(jobs())
    res = pmap(lambda j: job(ctx, j), todo, fallback=lambda why: ('unknown', why, ''))
    n = 0
    for (short, fmt, what, m, base), (st, why, where) in zip(todo, res):
        cname = next(c for _, c, s in MODEL_CLASSES if s == short)
        op = f'{cname}.' + 'from_' + (fmt if fmt in ('dictionary', 'graph') else 'file')
        ctx.ob(f'{op} ({fmt}): {what}' + (f' ({m})' if m else '') + (', certain' if base else ''), st, why)
        n += st != 'unknown'
        if st == 'violated':
            ctx.violation(f'{cname}:{fmt}:{what}:{m}:{base}', f'{op}, given {what}' + (' in the emission matrix' if m == 'e' else '') + f' ({fmt}), does not refuse it: {why}', where)
    ctx.count('defects', len(todo))
    ctx.count('defects decided', n)
    ctx.floor('defects', len(todo), 400)
    ctx.floor('graphs without a defect that are read', sum(sound(ctx, s) for s in ('mc', 'hmm')), 2)
