"""The descriptor behind the cached properties, interpreted by itself: where it keeps values, under which key, and what it hands out."""
from sa.interp import Client, Budget
from sa.loader import AnalysisBroken
from sa.values import *
from sa.values import AV, AVU
from sa.world import World, entries

FUNCTION = 'cached.function'


def signature(I, st, v, depth=3):
    """the kind of structure a value is"""
    out = set()
    for a in v.atoms:
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        if o is None:
            out.add('value')
        elif o.t in ('list', 'tuple', 'dict', 'set') and depth:
            el = joinall([o.elem, *(o.items or ()), *(x for k, x in o.attrs.items() if isinstance(k, str))])
            out.add((o.t, tuple(sorted(signature(I, st, el, depth - 1), key=str))))
        else:
            out.add((o.t, ()))
    return frozenset(out)


def build(w, kind, key=()):
    """an object of this kind"""
    if kind == 'value':
        return AV({S('float')})
    t, inner = kind
    els = joinall([build(w, k, key + (i,)) for i, k in enumerate(inner)]) if inner else AV({S('float')}) if t in ('ndarray', 'graph', 'any') else BOT
    return w.new(('computed',) + key, t, elem=els, origin=frozenset({'computed'}), facts=frozenset({'notnone', 'nonempty'}))


class Calls(Client):
    def __init__(self, value):
        self.value = value
        self.stores = []        # (holder, key, location)
        self.mutinfo = (BOT, None, EMPTY)

    def ext_call(self, st, node, d, args, kwargs):
        if d == FUNCTION:
            return self.value
        if d in ('builtins.id', 'builtins.hash') and any('instance' in (self.world.I.obj(st, x).origin if self.world.I.obj(st, x) else ()) for v in self.world.I.flat(args) for x in v.oids()):
            return AV({S('int')}, frozenset({'identity'}))
        return None

    def carries(self, st, v):
        I = self.world.I
        return any('computed' in I.obj(st, x).origin for x in I.reachable(st, v) if I.obj(st, x) is not None) or any(a == S('float') for a in v.atoms)

    def mutate(self, st, node, oid, how, certain):
        I = self.world.I
        o = I.obj(st, oid)
        val, idx, dep = self.mutinfo
        if o is not None and certain and how in ('setitem', 'setdefault', 'update', 'append') and self.carries(st, val):
            self.stores.append((o.origin, idx, I.loc(node)))

    def setattr(self, st, node, oid, name, value):
        I = self.world.I
        o = I.obj(st, oid)
        if o is not None and self.carries(st, value):
            self.stores.append((o.origin, None, I.loc(node)))

    def store_global(self, st, node, what):
        self.stores.append((frozenset({'module:' + str(what)}), None, self.world.I.loc(node)))


def descriptor(repo):
    try:
        ci = repo.cls('decorators', 'cached_property')
    except AnalysisBroken:
        return None
    if ci.members.get('__get__') is None:
        raise AnalysisBroken('cached_property.__get__ not found')
    return ci


def run(repo, ci, kind, name):
    """reads a cached property twice; -> (client, [(what is handed out, what is kept is part of it)])"""
    c = Calls(None)
    w = World(repo, c)
    c.world = w
    I = w.I
    c.value = build(w, kind)
    member = lambda n: ci.members.get(n)
    me = w.new('descriptor', 'inst', cls=ci, attrs={'_func': AVU, '_func_name': avc(name), '_lock': AVU}, origin=frozenset({'descriptor'}))
    function = AV({('ext', FUNCTION)})
    for n, extra in (('__init__', (function,)), ('__set_name__', (AVU, avc(name)))):
        f = member(n)
        if f is not None:
            try:
                outs = w.run(f, {p: v for p, v in zip(f.params, (me,) + extra)} | {p: avc(None) for p in f.params[1 + len(extra):]})
            except (Budget, RecursionError):
                outs = []
            if outs:
                w.st = outs[0][0]
    oid = me.oids()[0]
    o = I.obj(w.st, oid)
    attrs = dict(o.attrs)
    for k, v in attrs.items():
        if isinstance(k, str) and 'func' in k and 'name' not in k and function.atoms & v.atoms == EMPTY and v == AVU:
            attrs[k] = function
    w.st.heap[oid] = o.replace(attrs=attrs, origin=o.origin | {'descriptor'})
    for v in attrs.values():
        for x in I.reachable(w.st, v):
            ob = I.obj(w.st, x)
            if ob is not None and ob.t != 'inst':
                w.st.heap[x] = ob.replace(origin=ob.origin | {'descriptor'})
    c.stores.clear()
    store = w.new('instdict', 'dict', origin=frozenset({'instance dict'}))
    inst = w.new('instance', 'any', attrs={'__dict__': store}, origin=frozenset({'instance'}), facts=frozenset({'notnone'}))
    get = member('__get__')
    vals = {p: v for p, v in zip(get.params, (me, inst, AVU))}
    res = []
    outs = w.run(get, vals)
    for st, v in outs[:8]:
        res.append((w, st, v))
    for st, _ in outs[:8]:
        w.st = st.fork()
        for s2, v2 in w.run(get, vals)[:8]:
            res.append((w, s2, v2))
    return c, res, inst


def shares(res):
    """is what is kept part of what is handed out?"""
    for w, st, v in res:
        for x in w.I.reachable(st, v):
            for o, cert in w.I.closure_objs(st, x, True).items():
                ob = w.I.obj(st, o)
                if cert and ob is not None and 'computed' in ob.origin and ob.t in ('list', 'dict', 'set', 'ndarray', 'graph'):
                    return True
    return False


def handing_out(repo, kind):
    """does the descriptor hand out an object of this kind, or a part of it, that it keeps?"""
    ci = descriptor(repo)
    if ci is None:
        return True
    c, res, _ = run(repo, ci, kind, 'x')
    return bool(c.stores or not res) and shares(res)


def numbers(res, idx):
    """is the key, or a part of it, a computed number? (in the descriptor: an identity or a hash)"""
    for w, st, _ in res[:1]:
        for v in (idx, *(x for o in idx.oids() if w.I.obj(st, o) is not None for x in (w.I.obj(st, o).items or ()))):
            if any(a == S('int') for a in v.atoms):
                return True
    return False


def keeping(repo):
    """[(what is wrong, where)] with the places where values are kept; and the number of stores seen"""
    ci = descriptor(repo)
    if ci is None:
        return [], 0
    bad, keys, n = {}, {}, 0
    for name in sorted({e.fi.name for e in entries(repo) if e.fi.kind == 'cached'}):
        c, res, inst = run(repo, ci, ('list', ('value',)), name)
        for origin, idx, loc in c.stores:
            n += 1
            if 'instance' in origin:
                continue
            if 'instance dict' in origin:
                a = idx.single() if idx is not None else None
                if a is not None and a[0] == 'c':
                    keys.setdefault((a[2]), {})[name] = loc
                continue
            if any(x == 'descriptor' or x.startswith('module:') for x in origin):
                if idx is not None and set(idx.oids()) & set(inst.oids()):
                    continue
                if idx is None or 'identity' in idx.dep or numbers(res, idx):
                    bad['outside'] = ('cached values are kept outside of the model, ' + ('by an identity number or a hash, which a later model can have as well' if idx is not None else 'for all models together'), loc)
    for key, names in keys.items():
        if len(names) > 1:
            a, b = sorted(names)[:2]
            bad['key'] = (f'the cached properties {a} and {b} are kept under the same key {key!r}', names[b])
    return sorted(bad.values()), n
