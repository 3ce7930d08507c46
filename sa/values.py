"""Abstract values, heap objects and states of the abstract interpreter."""
NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)
U = ('u',)
NAN = ('nan',)
EMPTY = frozenset()


def C(v):
    if isinstance(v, float) and v != v:
        return NAN
    return ('c', type(v).__name__, v)


def S(kind, role=None):
    return ('s', kind, role)


def IV(kind, lo, hi):
    return ('iv', kind, lo, hi)


class AV:
    __slots__ = ('atoms', 'dep', '_h')

    def __init__(self, atoms=EMPTY, dep=EMPTY):
        self.atoms = atoms if isinstance(atoms, frozenset) else frozenset(atoms)
        self.dep = dep if isinstance(dep, frozenset) else frozenset(dep)
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, AV) and self.atoms == o.atoms and self.dep == o.dep)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.atoms, self.dep))
        return self._h

    def __repr__(self):
        return 'AV(' + '|'.join(sorted(map(str, self.atoms))) + (f' ~{sorted(self.dep)}' if self.dep else '') + ')'

    def withdep(self, dep):
        if not dep or dep <= self.dep:
            return self
        return AV(self.atoms, self.dep | dep)

    def oids(self):
        return [a[1] for a in self.atoms if a[0] == 'o']

    def single(self):
        if len(self.atoms) == 1:
            return next(iter(self.atoms))
        return None

    def const(self):
        """The python constant if exactly one constant atom, else raises KeyError."""
        a = self.single()
        if a is not None and a[0] == 'c':
            return a[2]
        raise KeyError

    def consts(self):
        """set of constants if all atoms are constants, else None"""
        if self.atoms and all(a[0] == 'c' for a in self.atoms):
            return {a[2] for a in self.atoms}
        return None


BOT = AV()
AVU = AV({U})


def av(*atoms, dep=EMPTY):
    return AV(frozenset(atoms), dep)


def avc(v, dep=EMPTY):
    return AV(frozenset((C(v),)), dep)


KINDNAME = {'int': 'int', 'float': 'float', 'str': 'str', 'bool': 'bool', 'complex': 'complex', 'bytes': 'bytes'}


def norm_atoms(atoms, widen_from=None):
    n = 0
    for a in atoms:
        if a[0] == 'c':
            n += 1
    if n > 10 or widen_from is not None:
        by = {}
        for a in atoms:
            if a[0] == 'c' and a[1] in ('int', 'float'):
                by.setdefault(a[1], set()).add(a)
        out = set(atoms)
        for k, s in by.items():
            limit = 10 if widen_from is None else 1
            if len(s) > limit and (widen_from is None or not s <= widen_from):
                out -= s
                out.add(S(k))
        if n > 24:
            strs = {a for a in out if a[0] == 'c' and a[1] == 'str'}
            if len(strs) > 24:
                out -= strs
                out.add(S('str'))
        atoms = frozenset(out)
    return atoms


def join(a, b, widen=False):
    if a is b or a == b:
        return a
    if not a.atoms and not a.dep:
        return b
    if not b.atoms and not b.dep:
        return a
    atoms = a.atoms | b.atoms
    atoms = norm_atoms(atoms, a.atoms if widen else None)
    return AV(atoms, a.dep | b.dep)


def joinall(vs):
    r = BOT
    for v in vs:
        r = join(r, v)
    return r


class Obj:
    __slots__ = ('t', 'elem', 'items', 'attrs', 'origin', 'base', 'shape', 'dep', 'facts', 'cls', 'loc')
    FIELDS = ('t', 'elem', 'items', 'attrs', 'origin', 'base', 'shape', 'dep', 'facts', 'cls', 'loc')

    def __init__(self, t, elem=BOT, items=None, attrs=None, origin=EMPTY, base=EMPTY, shape=None, dep=EMPTY, facts=EMPTY, cls=None, loc=''):
        self.t = t
        self.elem = elem
        self.items = items
        self.attrs = attrs if attrs is not None else {}
        self.origin = origin
        self.base = base
        self.shape = shape
        self.dep = dep
        self.facts = facts
        self.cls = cls
        self.loc = loc

    def replace(self, **kw):
        d = {f: getattr(self, f) for f in Obj.FIELDS}
        d.update(kw)
        return Obj(**d)

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and all(getattr(self, f) == getattr(o, f) for f in Obj.FIELDS))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return f'<{self.t}{":" + self.cls.name if self.cls else ""} elem={self.elem} items={self.items} attrs={list(self.attrs)} origin={set(self.origin)} base={set(self.base)} shape={self.shape} facts={set(self.facts)} {self.loc}>'


def join_shape(a, b):
    if a == b:
        return a
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple(x if x == y else None for x, y in zip(a, b))


def keyelem(o):
    """what the keys of a dictionary that are not in its attributes may be; None if unknown"""
    for f in o.facts:
        if isinstance(f, tuple) and f[0] == 'keyelem':
            return f[1]
    return None if o.elem.atoms or o.origin else BOT


def join_obj(a, b, widen=False):
    if a is b or a == b:
        return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(join(x, y, widen) for x, y in zip(a.items, b.items))
    elem = join(a.elem, b.elem, widen)
    if items is None:
        for o in (a, b):
            if o.items is not None:
                elem = joinall([elem, *o.items])
    attrs = dict(a.attrs)
    for k, v in b.attrs.items():
        attrs[k] = join(attrs[k], v, widen) if k in attrs else v
    if a.t == 'graph':      # the nodes and edges, if these are known one by one
        attrs = {k: v for k, v in attrs.items() if not k.endswith('*') or k in a.attrs and k in b.attrs}
    maykeys = EMPTY
    if a.t == 'dict' and set(a.attrs) != set(b.attrs):
        maykeys = frozenset(('maykey', k) for k in set(a.attrs) ^ set(b.attrs))
    t = a.t if a.t == b.t else 'any'
    mayfacts = frozenset(f for f in a.facts | b.facts if isinstance(f, tuple) and f[0] in ('maykey', 'may'))
    facts = a.facts & b.facts
    if t == 'dict':
        ka, kb = keyelem(a), keyelem(b)
        if ka is not None and kb is not None and ka != kb:
            facts |= {('keyelem', join(ka, kb, widen))}
    return Obj(t, elem, items, attrs, a.origin | b.origin, a.base | b.base, join_shape(a.shape, b.shape), a.dep | b.dep,
               facts | mayfacts | maykeys, a.cls if a.cls is b.cls else None, a.loc)


class State:
    __slots__ = ('frames', 'heap', 'facts', 'flags', 'ctrl')

    def __init__(self, frames=None, heap=None, facts=None, flags=EMPTY, ctrl=EMPTY):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.flags = flags
        self.ctrl = ctrl

    def fork(self):
        return State(dict(self.frames), dict(self.heap), dict(self.facts), self.flags, self.ctrl)

    def become(self, o):
        self.frames, self.heap, self.facts, self.flags, self.ctrl = o.frames, o.heap, o.facts, o.flags, o.ctrl

    def get(self, fid, name):
        f = self.frames.get(fid)
        return None if f is None else f.get(name)

    def set(self, fid, name, v):
        f = dict(self.frames.get(fid, ()))
        f[name] = v
        self.frames[fid] = f

    def same(self, o):
        return self.frames == o.frames and self.facts == o.facts and self.flags == o.flags and self.heap == o.heap


UNBOUND = ('unbound',)


def join_states(a, b, widen=False):
    if a is b:
        return a
    frames = {}
    for fid in a.frames.keys() | b.frames.keys():
        fa, fb = a.frames.get(fid), b.frames.get(fid)
        if fa is fb:
            frames[fid] = fa
            continue
        if fa is None or fb is None:
            frames[fid] = fa if fb is None else fb
            continue
        f = {}
        for n in fa.keys() | fb.keys():
            va, vb = fa.get(n), fb.get(n)
            if va is vb:
                f[n] = va
            elif va is None or vb is None:
                v = va if vb is None else vb
                f[n] = AV(v.atoms | {UNBOUND}, v.dep)
            else:
                f[n] = join(va, vb, widen)
        frames[fid] = f
    heap = dict(a.heap)
    for oid, ob in b.heap.items():
        oa = heap.get(oid)
        if oa is None:
            heap[oid] = ob
        elif oa is not ob:
            heap[oid] = join_obj(oa, ob, widen)
    facts = {k: v for k, v in a.facts.items() if k in b.facts and b.facts[k] == v}
    return State(frames, heap, facts, a.flags | b.flags, a.ctrl | b.ctrl)
