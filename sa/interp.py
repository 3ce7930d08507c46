"""A flow- and path-sensitive abstract interpreter for the subset of Python the library uses."""
import ast
import os
import builtins as _b
import math

from .values import *
from .values import AV, UNBOUND
from . import cells
from .loader import AnalysisBroken, FuncInfo, Repo

PY_MUTATORS = {'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem',
               'pop', 'appendleft', 'popleft', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__iadd__',
               'fill', 'itemset', 'resize', 'put', 'partition', 'setflags', 'setfield', 'byteswap_inplace',
               'add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'remove_node', 'remove_nodes_from', 'remove_edge', 'remove_edges_from', 'add_weighted_edges_from', 'clear_edges'}
IMMUTABLE_T = {'tuple', 'range', 'frozenset', 'iter', 'file', 'slice'}

EXC_BASES = {
    'ValidationError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception', 'KeyError': 'LookupError',
    'IndexError': 'LookupError', 'LookupError': 'Exception', 'RuntimeError': 'Exception', 'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'IOError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'NotImplementedError': 'RuntimeError',
    'StopIteration': 'Exception', 'AssertionError': 'Exception', 'LinAlgError': 'ValueError', 'Exception': 'BaseException', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError', 'UnicodeError': 'ValueError', 'RecursionError': 'RuntimeError', 'PermissionError': 'OSError', 'UserWarning': 'Exception'}


def exc_isa(name, base):
    while name:
        if name == base:
            return True
        if name == 'BaseException':
            return False
        name = EXC_BASES.get(name, 'Exception' if name != 'Exception' else 'BaseException')
    return False


FAILURES = (IndexError, KeyError, TypeError, ValueError, AttributeError, AssertionError, ZeroDivisionError, OverflowError, StopIteration)
FAILED = {}     # constructs the interpreter failed on


class Unreachable(Exception):
    pass


class Budget(Exception):
    pass


class Flow:
    __slots__ = ('normal', 'ret', 'brk', 'cont')

    def __init__(self):
        self.normal, self.ret, self.brk, self.cont = [], [], [], []


class Frame:
    __slots__ = ('fid', 'fi', 'module', 'chain', 'cls', 'callnode', 'yields', 'retdep')

    def __init__(self, fid, fi, module, chain, cls, callnode):
        self.fid, self.fi, self.module, self.chain, self.cls, self.callnode = fid, fi, module, chain, cls, callnode
        self.yields = None
        self.retdep = EMPTY


class Client:
    """Hooks; every check subclasses it."""
    loopdep = False # does what a function returns depend on the conditions of its break and continue statements
    free = ()       # attributes whose value does not count as depending on the object

    def call_repo(self, st, node, fi, args, kwargs, selfatom):
        return None

    def ext_call(self, st, node, dotted, args, kwargs):
        return None

    def after_ext(self, st, node, dotted, args, kwargs, result):
        pass

    def method(self, st, node, oid, name, args, kwargs):
        return None

    def construct(self, st, node, ci, args, kwargs):
        return None

    def call_object(self, st, node, oid):
        pass

    def file_items(self, st, node, v):
        return None

    def getattr(self, st, node, atom, name):
        return None

    def mutate(self, st, node, oid, how, certain):
        pass

    def setattr(self, st, node, oid, name, value):
        pass

    def store_global(self, st, node, what):
        pass

    def raised(self, st, node, names, value):
        pass

    def unbound(self, st, node, name, definite):
        pass

    def index(self, st, node, oid, idx):
        pass

    def compare(self, st, node, op, left, right):
        return None

    def binop(self, st, node, op, left, right):
        pass

    def unordered_iter(self, st, node, oid, context):
        pass

    def sort(self, st, node, elem, key):
        pass

    def fmt(self, st, node, value):
        pass

    def with_item(self, st, node, ctxval):
        pass

    def branch(self, st, node, taken):
        pass

    rejoins = False

    def exhausted(self, st, loop, exits):
        """the states in which a loop ends because its condition fails or its items are used up"""
        return exits

    def open_condition(self, st, cond):
        """a condition that the analysis cannot decide, on one of the two ways on from it"""

    def numeric_condition(self, st, cond):
        """may the condition be taken to hold for some inputs and fail for others, whatever else is known about them?"""
        return False

    def undetermined(self, st, deps):
        pass


class Interp:
    MAXDEPTH = 14
    CAP = 12
    UNROLL = 12     # loops over that many known items are followed one by one

    def __init__(self, repo, client=None, summaries=None):
        self.repo = repo
        self.client = client or Client()
        self.summaries = summaries or {}
        self.frames = []
        self.collectors = []
        self.base_heap = {}
        self.globals_cache = {}
        self.closures = {}
        self.closure_fids = set()
        self._ids = {}
        self._idnames = []
        self.steps = 0
        self.max_steps = 3_000_000
        self.unmodelled = {}
        self.visited = set()
        self.calls_seen = set()
        self.loopdepth = 0
        self.iterpath = ()
        self.chains = {}
        self.caller = None      # name of the user's function that calls the library
        self.undecided = None   # flag for states behind an undecided condition
        self.node0 = ast.Pass(lineno=0, col_offset=0)
        self.rows = set()       # the elements of the rows of stochastic matrices (sa/cells.py)
        self.tokens = None      # opaque texts and numbers (sa/tokens.py)
        self.provenance = False # of numbers, only the elements they are computed from are followed
        self.cells = False      # arrays whose elements are known one by one (sa/cells.py)
        self.exact = False      # follow comprehensions and loops over few known items one by one
        self.copying_cached = True
        from . import models
        self.models = models
        self.hint = None     # the shape of the array that is being made

    # ---------------------------------------------------------------- basics
    def intern(self, key):
        r = self._ids.get(key)
        if r is None:
            r = len(self._idnames)
            self._ids[key] = r
            self._idnames.append(key)
        return r

    @property
    def fr(self):
        return self.frames[-1]

    def loc(self, node):
        f = self.frames[-1] if self.frames else None
        rel = f.module.relpath if f else '?'
        return f'{rel}:{getattr(node, "lineno", "?")}'

    def stackdesc(self):
        return ' > '.join(f.fi.ident if f.fi else f.module.name for f in self.frames if f.fi is not None)

    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.base_heap.get(oid)
        return o

    def canon(self, tag):
        # operand objects are replaced by their allocation site, so that chains of derived objects stay finite
        if isinstance(tag, tuple):
            if len(tag) == 2 and tag[0] == 'o' and isinstance(tag[1], int):
                k = self._idnames[tag[1]]
                return ('site', k[1] if len(k) > 2 else k[0])
            return tuple(self.canon(t) for t in tag)
        return tag

    def alloc(self, st, node, tag, obj):
        ctag = self.canon(tag)
        oid = self.intern((self.fr.fid if self.frames else -1, id(node), (ctag, self.iterpath) if self.iterpath else ctag))
        if not obj.loc:
            obj.loc = self.loc(node) if self.frames else ''
        if self.hint is not None and obj.t == 'ndarray':
            obj = self.models.dims.apply(obj, self.hint)
        old = st.heap.get(oid)
        if old is not None and (self.loopdepth or ctag != tag):
            obj = join_obj(old, obj)
        st.heap[oid] = obj
        return oid

    def new(self, st, node, tag, t, dep=EMPTY, **kw):
        oid = self.alloc(st, node, tag, Obj(t, dep=dep | st.ctrl, **kw))
        return AV(frozenset((('o', oid),)), dep | st.ctrl)

    def deepdep(self, st, v, depth=4, seen=None):
        d = set(v.dep)
        if depth <= 0:
            return d
        seen = set() if seen is None else seen
        for a in v.atoms:
            if a[0] == 'o' and a[1] not in seen:
                seen.add(a[1])
                o = self.obj(st, a[1])
                if o is None:
                    continue
                d |= o.dep
                d |= self.deepdep(st, o.elem, depth - 1, seen)
                for i in o.items or ():
                    d |= self.deepdep(st, i, depth - 1, seen)
                if o.t != 'inst':
                    for i in o.attrs.values():
                        d |= self.deepdep(st, i, depth - 1, seen)
                for b, _ in o.base:
                    if b not in seen:
                        d |= self.deepdep(st, av(('o', b)), depth - 1, seen)
            elif a[0] == 'bm' and a[2] is not None:
                pass
            elif a[0] in ('m',) and a[1] not in seen:
                d |= self.deepdep(st, av(('o', a[1])), depth - 1, seen)
        return d

    def alldeps(self, st, *vs):
        d = set()
        for v in vs:
            d |= self.deepdep(st, v)
        return frozenset(d)

    # ---------------------------------------------------------------- truth
    def truth_atom(self, st, a):
        if a[0] == 'c':
            return bool(a[2])
        if a[0] == 's':
            return None
        if a[0] == 'iv':
            lo, hi = a[2], a[3]
            if lo >= 0 or hi <= 0:
                return True
            return None
        if a[0] == 'nan':
            return True
        if a[0] == 'o':
            o = self.obj(st, a[1])
            if o is None:
                return None
            if o.t in ('list', 'tuple', 'dict', 'set'):
                if o.t == 'dict':
                    return True if 'nonempty' in o.facts or (o.attrs and not any(f[0] == 'maykey' for f in o.facts if isinstance(f, tuple))) else None
                if o.items is not None:
                    return len(o.items) > 0
                if 'nonempty' in o.facts:
                    return True
                return None
            if o.t in ('inst', 'graph', 'file', 'rng', 'iter'):
                return True
            return None
        if a[0] in ('fn', 'ext', 'cls', 'bm', 'm', 'b', 'clo', 'ms'):
            return True
        return None

    def truth(self, st, v):
        """set of possible truth values, certain only when a singleton"""
        out = set()
        for a in v.atoms:
            if a == UNBOUND:
                continue
            t = self.truth_atom(st, a)
            if t is None:
                return {True, False}
            out.add(t)
        return out or {True, False}

    # ---------------------------------------------------------------- names
    def lookup(self, st, name, node):
        fr = self.fr
        for i, fid in enumerate(fr.chain):
            v = st.get(fid, name)
            if v is not None:
                if UNBOUND in v.atoms:
                    self.client.unbound(st, node, name, len(v.atoms) == 1)
                    v = AV(v.atoms - {UNBOUND}, v.dep)
                    if not v.atoms:
                        v = AV({U}, v.dep)
                return v
        if fr.fi is not None and name in fr.fi.locals and fr.fi.node is not None and not isinstance(fr.fi.node, ast.Lambda):
            if fr.chain and fr.chain[0] == fr.fid:
                self.client.unbound(st, node, name, True)
                return AVU
        return self.global_value(st, fr.module, name, node)

    def global_value(self, st, module, name, node=None):
        key = (module.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        self.globals_cache[key] = AVU
        v = self._global_value(module, name)
        self.globals_cache[key] = v
        return v

    def _global_value(self, m, name):
        vals = []
        if name in m.functions:
            vals.append(av(('fn', m.functions[name])))
        if name in m.classes:
            vals.append(av(('cls', m.classes[name])))
        for imp in m.imports.get(name, ()):
            if imp[0] == 'ext':
                vals.append(av(('ext', imp[1])))
            else:
                tm = self.repo.modules.get(imp[1] or '__init__')
                if tm is not None:
                    vals.append(self.global_value(None, tm, imp[2]))
                else:
                    vals.append(AVU)
        exprs = []

        def scan(stmts):
            for s in stmts:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            exprs.append(s.value)
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts):
                            exprs.append(None)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    exprs.append(s.value)
                elif isinstance(s, (ast.Try, ast.If, ast.For, ast.While, ast.With)):
                    for f in ('body', 'orelse', 'finalbody'):
                        scan(getattr(s, f, []))
                    for h in getattr(s, 'handlers', []):
                        scan(h.body)
        scan(m.tree.body)
        for e in exprs:
            vals.append(self.eval_static(m, e, f'module:{m.name}.{name}'))
        if name == '__name__' and not vals:
            return avc('pydtmc.' + m.name)
        if not vals:
            if hasattr(_b, name):
                o = getattr(_b, name)
                if name in ('True', 'False', 'None'):
                    return avc(o)
                if isinstance(o, type) and issubclass(o, BaseException):
                    return av(('exccls', name))
                return av(('b', name))
            return AVU
        return joinall(vals)

    def eval_static(self, m, e, origin, cls=None):
        if e is None:
            return AVU
        st = State()
        fid = self.intern(('static', m.name, origin, id(e)))
        self.frames.append(Frame(fid, None, m, (fid,), cls, None))
        self.collectors.append([])
        sv = self.loopdepth
        self.loopdepth = 0
        try:
            v = self.eval(e, st)
        except Unreachable:
            v = AVU
        finally:
            self.loopdepth = sv
            self.frames.pop()
            self.collectors.pop()
        for oid, o in st.heap.items():
            if o.t not in ('tuple', 'range', 'frozenset', 'iter'):
                o = o.replace(origin=o.origin | {origin})
            self.base_heap[oid] = o
        return v

    # ---------------------------------------------------------------- blocks
    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget(f'step budget exceeded in {self.stackdesc()}')

    def sig(self, st):
        f = st.frames.get(self.fr.fid, {})
        toks = []
        for n, v in f.items():
            a = v.atoms
            if a and all(x[0] == 'c' and (x[2] is None or x[2] is True or x[2] is False) for x in a):
                toks.append((n, a))
        toks.sort(key=lambda x: x[0])
        return (tuple(toks), tuple(sorted(st.facts.items(), key=str)), st.flags - {'imprecise', 'undet', 'undecided'})

    def reduce(self, states):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.sig(s), []).append(s)
        if len(groups) > self.CAP:
            g2 = {}
            for (t, f, g), v in groups.items():
                g2.setdefault((f, g), []).extend(v)
            groups = g2
            if len(groups) > self.CAP:
                groups = {0: states}
        out = []
        for g in groups.values():
            s = g[0]
            for x in g[1:]:
                s = join_states(s, x)
            out.append(s)
        return out

    def merge(self, states):
        s = states[0]
        for x in states[1:]:
            s = join_states(s, x)
        return s

    def exec_block(self, stmts, states):
        flow = Flow()
        for s in stmts:
            nxt = []
            for st in states:
                self.step()
                self.visited.add(s)
                try:
                    f = self.exec_stmt(s, st)
                except Unreachable:
                    continue
                flow.ret += f.ret
                flow.brk += f.brk
                flow.cont += f.cont
                nxt += f.normal
            states = self.reduce(nxt)
            if not states:
                return flow
        flow.normal = states
        return flow

    def exec_stmt(self, s, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            f = Flow()
            f.normal = [st]
            return f
        return m(s, st)

    def normal(self, states):
        f = Flow()
        f.normal = states if isinstance(states, list) else [states]
        return f

    def x_Pass(self, s, st):
        return self.normal(st)

    def x_Expr(self, s, st):
        return self.normal([x for x, _ in self.eval_multi(s.value, st)])

    def x_Assign(self, s, st):
        out = []
        for st2, v in self.eval_multi(s.value, st):
            if st2.ctrl:
                v = v.withdep(st2.ctrl)
            try:
                for t in s.targets:
                    self.assign(t, v, st2, s)
            except Unreachable:
                continue
            out.append(st2)
        return self.normal(out)

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return self.normal(st)
        out = []
        for st2, v in self.eval_multi(s.value, st):
            if st2.ctrl:
                v = v.withdep(st2.ctrl)
            self.assign(s.target, v, st2, s)
            out.append(st2)
        return self.normal(out)

    def x_AugAssign(self, s, st):
        load = getattr(s, '_load', None)
        if load is None:
            load = s._load = ast.copy_location(_as_load(s.target), s.target)
        cur = self.eval(load, st)
        rhs = self.eval(s.value, st)
        res = self.inplace_op(s, s.op, cur, rhs, st)
        if isinstance(s.target, ast.Name):
            self.assign(s.target, res.withdep(st.ctrl), st, s)
        else:
            self.assign(s.target, res.withdep(st.ctrl), st, s, aug=True)
        return self.normal(st)

    def inplace_op(self, node, op, cur, rhs, st):
        out = []
        dep = self.alldeps(st, rhs) | st.ctrl
        self.client.binop(st, node, op, cur, rhs)
        for a in cur.atoms:
            if a[0] == 'o':
                o = self.obj(st, a[1])
                if o is not None and o.t in ('ndarray', 'list', 'set', 'dict', 'df', 'any'):
                    if o.t == 'list':
                        val = self.iter_elem(rhs, st, node)
                    elif o.t == 'ndarray':
                        val = self.models.binop_elem(self, st, o.elem, self.elem_or_self(rhs, st), op, dep)
                    else:
                        val = rhs
                    if o.t != 'any':
                        new = cells.inplace(self, st, node, a[1], op, rhs) if self.cells and o.t == 'ndarray' and len(cur.atoms) == 1 else None
                        self.mutate(st, node, a[1], 'augassign', val, dep)
                        cells.keep(self, st, new)
                    else:
                        self.mutate(st, node, a[1], 'augassign', val, dep, certain=False)
                    out.append(AV({a}, cur.dep | dep))
                    continue
            out.append(self.models.binop(self, st, node, AV({a}, cur.dep), op, rhs))
        return joinall(out).withdep(dep)

    def elem_or_self(self, v, st):
        out = []
        for a in v.atoms:
            if a[0] == 'o':
                out.append(self.elem_of(st, a[1]))
            else:
                out.append(AV({a}))
        r = joinall(out)
        return AV(r.atoms, r.dep | v.dep)

    def x_Return(self, s, st):
        f = Flow()
        if s.value is None:
            f.ret = [(st, avc(None).withdep(st.ctrl))]
        else:
            f.ret = [(x, v.withdep(x.ctrl)) for x, v in self.eval_multi(s.value, st)]
        return f

    def x_Raise(self, s, st):
        if s.cause is not None:
            self.eval(s.cause, st)
        if s.exc is None:
            self.collect(st, ('<reraise>',), AVU, s)
            raise Unreachable
        v = self.eval(s.exc, st)
        names = self.exc_names(st, v)
        self.client.raised(st, s, names, v)
        self.collect(st, names, v, s)
        raise Unreachable

    def exc_names(self, st, v):
        names = set()
        for a in v.atoms:
            if a[0] == 'exccls':
                names.add(a[1])
            elif a[0] == 'cls':
                names.add(a[1].name)
            elif a[0] == 'o':
                o = self.obj(st, a[1])
                if o is not None and o.t == 'exc':
                    names |= {f[1] for f in o.facts if isinstance(f, tuple) and f[0] == 'exc'}
                elif o is not None and o.t == 'inst' and o.cls is not None:
                    names.add(o.cls.name)
                else:
                    names.add('?')
            else:
                names.add('?')
        return tuple(sorted(names))

    def collect(self, st, names, v, node):
        if self.collectors:
            self.collectors[-1].append((st, names, v, node, tuple(f.fi.ident if f.fi else '' for f in self.frames)))

    def x_Break(self, s, st):
        f = Flow()
        f.brk = [st]
        return f

    def x_Continue(self, s, st):
        f = Flow()
        f.cont = [st]
        return f

    def x_Assert(self, s, st):
        t, e = self.branch(s.test, st)
        return self.normal(t)

    def x_If(self, s, st):
        ctrl0, flags0 = st.ctrl, st.flags
        mark = len(self.collectors[-1]) if self.collectors else 0
        ts, fs = self.branch(s.test, st)
        out = Flow()
        rets = False
        for states, body in ((ts, s.body), (fs, s.orelse)):
            if not states:
                continue
            if body:
                f = self.exec_block(body, self.reduce(states))
                out.ret += f.ret
                out.brk += f.brk
                out.cont += f.cont
                out.normal += f.normal
                if f.ret:
                    rets = True
            else:
                out.normal += states
        if rets and ts:
            self.fr.retdep = self.fr.retdep | ts[0].ctrl
        for x in out.normal:
            x.ctrl = ctrl0
        out.normal = self.reduce(out.normal)
        if self.client.rejoins and len(out.normal) == 1 and not (out.ret or out.brk or out.cont) and len(self.collectors[-1] if self.collectors else ()) == mark:
            # every way through the statement ends here: what it could not decide is no condition of what follows, as long as no variable tells the ways apart
            x = out.normal[0]
            if x.flags != flags0 and not any(NONE in v.atoms and len(v.atoms) > 1 for v in x.frames.get(self.fr.fid, {}).values()):
                x.flags = flags0 | (x.flags - {'undet'})
        return out

    def followed_while(self, s, st):
        """the loop, iteration by iteration, if it is always known whether there is another one"""
        out = Flow()
        ctrl0 = st.ctrl
        mark = len(self.collectors[-1]) if self.collectors else 0
        states, exits, path = [st.fork()], [], self.iterpath
        for n in range(2 * self.UNROLL):
            self.iterpath = path + (n,)
            try:
                nts = []
                for x in states:
                    ts, fs = self.branch(s.test, x)
                    if ts and fs:
                        if self.collectors:
                            del self.collectors[-1][mark:]
                        return None
                    nts += ts
                    exits += fs
                if not nts:
                    break
                fl = self.exec_block(s.body, nts)
            finally:
                self.iterpath = path
            out.ret += fl.ret
            out.brk += fl.brk
            states = self.reduce(fl.normal + fl.cont)
            if not states:
                break
        else:
            if self.collectors:
                del self.collectors[-1][mark:]
            return None
        normal = exits
        if s.orelse and normal:
            f2 = self.exec_block(s.orelse, self.reduce(normal))
            out.ret += f2.ret
            out.cont += f2.cont
            normal = f2.normal
            brk, out.brk = out.brk, f2.brk
        else:
            brk, out.brk = out.brk, []
        normal = normal + brk
        for x in normal:
            x.ctrl = ctrl0
        out.normal = self.reduce(normal)
        return out

    def x_While(self, s, st):
        if self.exact and self.cells and not self.loopdepth:
            r = self.followed_while(s, st)
            if r is not None:
                return r
        out = Flow()
        ctrl0 = st.ctrl
        cur = st
        exits = []
        self.loopdepth += 1
        mark = len(self.collectors[-1]) if self.collectors else 0
        try:
            for it in range(10):
                if self.collectors:
                    del self.collectors[-1][mark:]
                ts, fs = self.branch(s.test, cur.fork())
                exits = fs
                if not ts:
                    fl = Flow()
                    break
                fl = self.exec_block(s.body, self.reduce(ts))
                ends = fl.normal + fl.cont
                if not ends:
                    break
                e = self.merge(ends)
                e.ctrl = ctrl0
                new = join_states(cur, e, widen=it >= 1)
                if new.same(cur):
                    break
                cur = new
        finally:
            self.loopdepth -= 1
        out.ret += fl.ret
        normal = self.client.exhausted(st, s, list(exits))
        if s.orelse and normal:
            f2 = self.exec_block(s.orelse, self.reduce(normal))
            out.ret += f2.ret
            out.brk += f2.brk
            out.cont += f2.cont
            normal = f2.normal
        normal += fl.brk
        self.left(fl)
        for x in normal:
            x.ctrl = ctrl0
        out.normal = self.reduce(normal)
        return out

    def left(self, fl):
        if self.client.loopdep:
            for x in fl.brk + fl.cont:
                self.fr.retdep = self.fr.retdep | x.ctrl

    def x_For(self, s, st):
        out = Flow()
        it = self.eval(s.iter, st)
        self.note_iter(st, s.iter, it, s)
        ctrl0 = st.ctrl
        if self.definitely_empty(st, it):
            return self.exec_block(s.orelse, [st]) if s.orelse else self.normal([st])
        a = it.single()
        o = self.obj(st, a[1]) if a is not None and a[0] == 'o' else None
        known = o.items if o is not None and (o.items is not None or not self.cells) else None if o is None else self.models.exact_items(self, st, it)
        if known is not None and ('unroll' in o.facts or self.exact and len(known) <= self.UNROLL) and not self.loopdepth:
            return self.unrolled_for(s, st, known, ctrl0, a[1] if o.t == 'list' and self.exact else None)
        nonempty = self.definitely_nonempty(st, it)
        elem = self.iter_elem(it, st, s.iter)
        itdep = it.dep
        cur = st
        self.loopdepth += 1
        mark = len(self.collectors[-1]) if self.collectors else 0
        fl = Flow()
        ends = []
        try:
            for n in range(10):
                if self.collectors:
                    del self.collectors[-1][mark:]
                b = cur.fork()
                b.ctrl = ctrl0 | itdep
                el = self.iter_elem(it, b, s.iter) if n else elem
                try:
                    self.assign(s.target, el, b, s)
                except Unreachable:
                    break
                fl = self.exec_block(s.body, [b])
                ends = fl.normal + fl.cont
                if not ends:
                    break
                e = self.merge(ends)
                e.ctrl = ctrl0
                new = join_states(cur, e, widen=n >= 1)
                if new.same(cur):
                    break
                cur = new
        finally:
            self.loopdepth -= 1
        out.ret += fl.ret
        if nonempty:
            normal = [self.merge(ends)] if ends else []
        else:
            normal = [cur]
        normal = self.client.exhausted(st, s, normal)
        if s.orelse and normal:
            f2 = self.exec_block(s.orelse, normal)
            out.ret += f2.ret
            out.brk += f2.brk
            out.cont += f2.cont
            normal = f2.normal
        normal = normal + fl.brk
        self.left(fl)
        for x in normal:
            x.ctrl = ctrl0
        out.normal = self.reduce(normal)
        return out

    def unrolled_for(self, s, st, items, ctrl0, oid=None):
        out = Flow()
        states = [st]
        brk = []
        path = self.iterpath
        items = list(items)
        for n, i in enumerate(items):
            if self.exact:
                self.iterpath = path + (n,)
            try:
                for x in states:
                    self.assign(s.target, i, x, s)
                f = self.exec_block(s.body, states)
                if oid is not None:
                    # the list may have been modified
                    now = {y.items if y is not None else None for y in (self.obj(x, oid) for x in f.normal + f.cont)}
                    now = now.pop() if len(now) == 1 else None
                    if now is not None and len(now) <= 2 * self.UNROLL:
                        items[n + 1:] = now[n + 1:]
            finally:
                self.iterpath = path
            out.ret += f.ret
            brk += f.brk
            self.left(f)
            states = self.reduce(f.normal + f.cont)
            if not states:
                break
        if s.orelse and states:
            f = self.exec_block(s.orelse, states)
            out.ret += f.ret
            out.brk += f.brk
            out.cont += f.cont
            states = f.normal
        out.normal = self.reduce(states + brk)
        for x in out.normal:
            x.ctrl = ctrl0
        return out

    def note_iter(self, st, node, v, ctxnode):
        for a in v.atoms:
            if a[0] == 'o':
                o = self.obj(st, a[1])
                if o is not None and 'unordered' in o.facts:
                    self.client.unordered_iter(st, node, a[1], ctxnode)

    def definitely_nonempty(self, st, v):
        if not v.atoms:
            return False
        for a in v.atoms:
            if a[0] == 'c' and isinstance(a[2], str):
                if not a[2]:
                    return False
                continue
            if a[0] != 'o':
                return False
            o = self.obj(st, a[1])
            if o is None:
                return False
            if 'nonempty' in o.facts:
                continue
            if o.items is not None and len(o.items) > 0:
                continue
            if o.t == 'dict' and o.attrs and not any(isinstance(f, tuple) and f[0] == 'maykey' for f in o.facts):
                continue
            if o.shape and len(o.shape) >= 1 and (isinstance(o.shape[0], int) and o.shape[0] > 0 or isinstance(o.shape[0], str) and o.shape[0] in ('n', 'k')):
                continue
            return False
        return True

    def definitely_empty(self, st, v):
        if not v.atoms:
            return False
        for a in v.atoms:
            o = self.obj(st, a[1]) if a[0] == 'o' else None
            if o is None or not ('emptyiter' in o.facts or o.items == () and not o.elem.atoms and not o.origin and o.t in ('list', 'tuple')):
                return False
        return True

    def x_Try(self, s, st):
        out = Flow()
        ctrl0 = st.ctrl
        col = []
        self.collectors.append(col)
        snaps = []
        states = [st]
        fl = Flow()
        try:
            for b in s.body:
                if not states:
                    break
                snaps += [x.fork() for x in states]
                f = self.exec_block([b], states)
                fl.ret += f.ret
                fl.brk += f.brk
                fl.cont += f.cont
                states = f.normal
            snaps += [x.fork() for x in states]
            fl.normal = states
        finally:
            self.collectors.pop()
        explicit = col
        pend = []
        if s.handlers:
            implicit = None
            if snaps:
                implicit = self.merge(self.reduce(snaps))
            impl_alive = implicit is not None
            for h in s.handlers:
                hn = self.handler_names(h)
                hstates = []
                rest = []
                caughtnames = set()
                for r in explicit:
                    names = r[1]
                    caught = [n for n in names if n == '?' or n == '<reraise>' or any(exc_isa(n, b) for b in hn)]
                    if caught:
                        hstates.append((r[0], r[2]))
                        caughtnames |= set(caught)
                    un = [n for n in names if n not in caught]
                    if un:
                        rest.append((r[0], tuple(un)) + r[2:])
                explicit = rest
                if impl_alive:
                    x = implicit.fork()
                    x.facts = dict(x.facts)
                    if self.exact:
                        x.flags = x.flags | {'implicit'}
                    hstates.append((x, None))
                    if any(b in ('Exception', 'BaseException') for b in hn):
                        impl_alive = False
                groups = []
                for x, v in hstates:
                    x = x.fork()
                    if h.name:
                        ev = v if v is not None else self.new(x, h, 'exc', 'exc', facts=frozenset(('exc', n) for n in hn) | {'implicit'})
                        x.set(self.fr.fid, h.name, ev)
                    groups.append(x)
                if groups:
                    groups = self.reduce(groups) if len(groups) > 1 else groups
                    mark = len(self.collectors[-1]) if self.collectors else 0
                    f = self.exec_block(h.body, groups)
                    if self.collectors and caughtnames:
                        c = self.collectors[-1]
                        for i in range(mark, len(c)):
                            if c[i][1] == ('<reraise>',):
                                c[i] = (c[i][0], tuple(sorted(caughtnames))) + c[i][2:]
                    fl.ret += f.ret
                    fl.brk += f.brk
                    fl.cont += f.cont
                    pend += f.normal
        if s.orelse and fl.normal:
            f = self.exec_block(s.orelse, fl.normal)
            fl.ret += f.ret
            fl.brk += f.brk
            fl.cont += f.cont
            fl.normal = f.normal
        fl.normal = fl.normal + pend
        if s.finalbody:
            g = Flow()
            if fl.normal:
                f = self.exec_block(s.finalbody, self.reduce(fl.normal))
                g.normal += f.normal
                g.ret += f.ret
            for kind in ('brk', 'cont'):
                for x in getattr(fl, kind):
                    f = self.exec_block(s.finalbody, [x])
                    getattr(g, kind).extend(f.normal)
                    g.ret += f.ret
            for x, v in fl.ret:
                f = self.exec_block(s.finalbody, [x])
                for y in f.normal:
                    g.ret.append((y, v))
                g.ret += f.ret
            for r in explicit:
                f = self.exec_block(s.finalbody, [r[0]])
                for y in f.normal:
                    if self.collectors:
                        self.collectors[-1].append((y,) + r[1:])
                g.ret += f.ret
            explicit = []
            fl = g
        if self.collectors:
            self.collectors[-1].extend(explicit)
        for x in fl.normal:
            x.ctrl = ctrl0
        fl.normal = self.reduce(fl.normal)
        return fl

    x_TryStar = x_Try

    def handler_names(self, h):
        if h.type is None:
            return ['BaseException']
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in types:
            r = self.repo.resolve_expr(self.fr.module, t)
            if r is None:
                out.append('Exception' if not isinstance(t, (ast.Name, ast.Attribute)) else (t.id if isinstance(t, ast.Name) else t.attr))
            elif r[0] == 'class':
                out.append(r[1].name)
            else:
                out.append(str(r[1]).split('.')[-1])
        return out

    def x_With(self, s, st):
        for i in s.items:
            v = self.eval(i.context_expr, st)
            self.client.with_item(st, i.context_expr, v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.exec_block(s.body, [st])

    def x_FunctionDef(self, s, st):
        fi = getattr(s, '_fi', None)
        if fi is None:
            fi = FuncInfo(self.fr.module, s, s.name)
            s._fi = fi
        key = self.intern(('clo', self.fr.fid, id(s)))
        self.closures[key] = (fi, self.fr.chain)
        self.closure_fids.update(self.fr.chain)
        st.set(self.fr.fid, s.name, av(('clo', key)))
        return self.normal(st)

    def x_Import(self, s, st):
        for al in s.names:
            st.set(self.fr.fid, (al.asname or al.name).split('.')[0], av(('ext', al.name if al.asname else al.name.split('.')[0])))
        return self.normal(st)

    def x_ImportFrom(self, s, st):
        for al in s.names:
            r = self.repo._from(self.fr.module, s, al.name)
            if r[0] == 'ext':
                v = av(('ext', r[1]))
            else:
                tm = self.repo.modules.get(r[1] or '__init__')
                v = self.global_value(st, tm, r[2]) if tm else AVU
            st.set(self.fr.fid, al.asname or al.name, v)
        return self.normal(st)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.set(self.fr.fid, t.id, av(UNBOUND))
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval_index(t.slice, st)
                for a in b.atoms:
                    if a[0] == 'o':
                        o = self.obj(st, a[1])
                        if o is not None and o.t == 'dict' and i.single() and i.single()[0] == 'c':
                            at = dict(o.attrs)
                            at.pop(i.single()[2], None)
                            st.heap[a[1]] = o.replace(attrs=at)
                        self.mutate(st, s, a[1], 'del', BOT, i.dep)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                for a in b.atoms:
                    if a[0] == 'o':
                        self.client.setattr(st, s, a[1], t.attr, BOT)
        return self.normal(st)

    def x_Global(self, s, st):
        self.client.store_global(st, s, ','.join(s.names))
        return self.normal(st)

    def x_Nonlocal(self, s, st):
        return self.normal(st)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            fid = self.fr.fid
            fi = self.fr.fi
            if fi is not None and self.fr.chain[0] == fid and t.id not in fi.locals and not isinstance(fi.node, ast.Lambda) and len(self.fr.chain) > 1:
                for f in self.fr.chain[1:]:
                    if st.get(f, t.id) is not None:
                        fid = f
                        break
            elif fi is not None and t.id not in fi.locals and self.fr.chain[0] == fid and not isinstance(fi.node, ast.Lambda) and not getattr(self.fr, 'yields', None) == 'comp':
                if st.get(fid, t.id) is None and any(isinstance(x, ast.Global) and t.id in x.names for x in ast.walk(fi.node)):
                    self.client.store_global(st, node, t.id)
            st.set(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.assign_tuple(t.elts, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            name = self.mangled(t.attr)
            for a in b.atoms:
                if a[0] == 'o':
                    o = self.obj(st, a[1])
                    self.client.setattr(st, node, a[1], name, v)
                    if o is not None:
                        at = dict(o.attrs)
                        at[name] = v if len(b.atoms) == 1 and not self.loopdepth else join(at.get(name, BOT), v)
                        st.heap[a[1]] = o.replace(attrs=at)
                elif a[0] in ('cls', 'ext', 'fn', 'exccls', 'b', 'bm', 'clo'):
                    if a[0] == 'cls':
                        k = self.intern(('clsobj', a[1].ident))
                        co = st.heap.get(k) or Obj('clsobj')
                        st.heap[k] = co.replace(attrs={**co.attrs, name: v})
                    self.client.store_value = v
                    self.client.store_global(st, node, f'{a[1].ident if hasattr(a[1], "ident") else a[1]}.{name}')
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            dep = self.alldeps(st, i, v) | st.ctrl
            for a in b.atoms:
                if a[0] == 'o':
                    o = self.obj(st, a[1])
                    if o is None:
                        continue
                    self.client.index(st, t, a[1], i)
                    k = i.single()
                    new = cells.setitem(self, st, a[1], i, v) if self.cells and o.t == 'ndarray' and len(b.atoms) == 1 else None
                    self.mutate(st, node, a[1], 'setitem', v if o.t not in ('ndarray',) else self.elem_or_self(v, st), dep, key=k if o.t in ('dict', 'instdict') else None, idx=i, unique=len(b.atoms) == 1)
                    cells.keep(self, st, new)
                elif a[0] in ('ext',):
                    self.client.store_global(st, node, f'{a[1]}[...]')

    def assign_tuple(self, elts, v, st, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        parts = [BOT] * n
        got = False
        for a in v.atoms:
            if a[0] == 'o':
                o = self.obj(st, a[1])
                if o is not None and o.items is not None and not star:
                    if len(o.items) == n:
                        got = True
                        for i in range(n):
                            parts[i] = join(parts[i], o.items[i].withdep(o.dep))
                        continue
                    continue
            e = self.iter_elem(AV({a}, v.dep), st, node)
            got = True
            for i in range(n):
                parts[i] = join(parts[i], e if i not in star else self.new(st, node, ('star', i), 'list', elem=e))
        if not got:
            parts = [AVU] * n
        for i, e in enumerate(elts):
            self.assign(e, parts[i].withdep(v.dep), st, node)

    def mutate(self, st, node, oid, how, val, dep=EMPTY, key=None, idx=None, certain=True, unique=True, _seen=None):
        seen = _seen if _seen is not None else set()
        if oid in seen:
            return
        seen.add(oid)
        o = self.obj(st, oid)
        if o is None:
            return
        dep = dep | st.ctrl
        key = self.models.as_const(self, st, key)
        if _seen is None:
            if self.cells and o.t == 'ndarray':
                cells.drop(self, st, oid)
                o = self.obj(st, oid)
            self.client.mutinfo = (val, idx if idx is not None else (AV({key}) if key is not None else None), dep)
            self.client.mutate(st, node, oid, how, certain)
        kw = {}
        if o.t == 'dict' or o.t == 'instdict':
            if key is not None and key[0] == 'c' and how in ('setitem', 'setdefault'):
                at = dict(o.attrs)
                try:
                    at[key[2]] = v2 = val if unique and not self.loopdepth else join(at.get(key[2], BOT), val)
                except TypeError:
                    at = o.attrs
                kw['attrs'] = at
            elif how not in ('del', 'pop', 'clear'):
                kw['elem'] = join(o.elem, val)
                kv = idx if idx is not None else AV({key}) if key is not None else AVU
                if how in ('setitem', 'setdefault') and keyelem(o) is not None and kv.atoms:
                    kw['facts'] = frozenset(f for f in o.facts if not isinstance(f, tuple) or f[0] != 'keyelem') | {('keyelem', join(keyelem(o), kv))}
                elif how in ('setitem', 'setdefault', 'update'):
                    kw['facts'] = frozenset(f for f in o.facts if not isinstance(f, tuple) or f[0] != 'keyelem')
        elif o.t in ('list', 'set', 'iter', 'any', 'ndarray', 'df'):
            if how == 'append' and o.items is not None and unique and len(o.items) < 100 and not self.loopdepth:
                kw['items'] = o.items + (val,)
            elif how == 'setitem' and o.items is not None and idx is not None and idx.single() and idx.single()[0] == 'c' and isinstance(idx.single()[2], int) and -len(o.items) <= idx.single()[2] < len(o.items) and not self.loopdepth and unique:
                it = list(o.items)
                it[idx.single()[2]] = val
                kw['items'] = tuple(it)
            elif how == 'add' and o.t == 'set' and o.items is not None and unique and not self.loopdepth and val.single() is not None and val.single()[0] == 'c':
                if not any(i.single()[2] == val.single()[2] for i in o.items):
                    kw['items'] = o.items + (val,)
                    kw['facts'] = o.facts | {'nonempty'}
            else:
                if o.t == 'set':
                    kw['facts'] = frozenset(f for f in o.facts if not isinstance(f, tuple) and f != 'each')
                if o.items is not None:
                    kw['elem'] = joinall([o.elem, val, *o.items])
                    kw['items'] = None
                else:
                    kw['elem'] = join(o.elem, val)
                if how in ('append', 'extend', 'insert', 'add', 'pop', 'remove', 'clear', 'update', 'del') and o.shape is not None:
                    kw['shape'] = None
                facts = kw.get('facts', o.facts)
                if how in ('append', 'insert', 'add'):
                    kw['facts'] = facts | {'nonempty'}
                elif how in ('pop', 'remove', 'clear', 'del'):
                    kw['facts'] = facts - {'nonempty'}
                if how in ('sort',):
                    kw['facts'] = facts - {'unordered'}
        kw['dep'] = o.dep | dep
        st.heap[oid] = o.replace(**kw)
        for b, c in o.base:
            self.mutate(st, node, b, how, val, dep, certain=certain and c == 'def', _seen=seen)

    def closure_objs(self, st, oid, certain=True, seen=None):
        """oids reachable through view links: {oid: certain}"""
        seen = {} if seen is None else seen
        if oid in seen and (seen[oid] or not certain):
            return seen
        seen[oid] = seen.get(oid, False) or certain
        o = self.obj(st, oid)
        if o is not None:
            for b, c in o.base:
                self.closure_objs(st, b, certain and c == 'def', seen)
        return seen

    # ---------------------------------------------------------------- elements
    def elem_of(self, st, oid, seen=None):
        seen = set() if seen is None else seen
        if oid in seen:
            return BOT
        seen.add(oid)
        o = self.obj(st, oid)
        if o is None:
            return AVU
        r = o.elem
        if o.items is not None:
            r = joinall([r, *o.items])
        for b, _ in o.base:
            ob = self.obj(st, b)
            if ob is not None and ob.t == o.t:
                r = join(r, self.elem_of(st, b, seen))
        return r

    def iter_elem(self, v, st, node):
        out = []
        for a in v.atoms:
            if a[0] == 'o':
                o = self.obj(st, a[1])
                if o is None:
                    out.append(AVU)
                elif o.t in ('dict', 'instdict'):
                    ks = [self.models.key_av(self, st, node, k) for k in o.attrs]
                    kv = next((f[1] for f in o.facts if isinstance(f, tuple) and f[0] == 'keyelem'), None)
                    out.append(joinall(ks + ([kv] if kv is not None else [])).withdep(o.dep) if ks or kv is not None else AV({U}, o.dep))
                elif o.t == 'ndarray':
                    out.append(self.models.row_of(self, st, node, a[1], o))
                elif o.t == 'any':
                    out.append(AV({U} | ({('o', self.sub_any(st, node, a[1], o))} if o.origin else set()), o.dep))
                elif o.t in ('graph',):
                    out.append(o.elem.withdep(o.dep) if o.elem.atoms else AV({S('str', None)}, o.dep))
                elif o.t == 'file':
                    out.append(AV({S('str')}, o.dep))
                else:
                    r = o.elem
                    if o.items is not None:
                        r = joinall([r, *o.items])
                    extra = {x for x in o.dep if not x.startswith('len:')}
                    out.append(AV(r.atoms, r.dep | frozenset(extra)))
            elif a[0] == 'c' and isinstance(a[2], str):
                out.append(AV({S('str')}))
            elif a[0] == 's' and a[1] == 'str':
                out.append(AV({S('str')}))
            elif a[0] == 'u':
                out.append(AVU)
            elif a == NONE:
                continue
            else:
                out.append(AVU)
        r = joinall(out)
        if not r.atoms and v.atoms and all(a == NONE for a in v.atoms):
            return AVU
        return AV(r.atoms, r.dep | v.dep)

    def sub_any(self, st, node, oid, o):
        """an element of an object of unknown type: remembers where it came from"""
        k = self._idnames[oid]
        if k[0] == 'sub' and self._idnames[k[1]][0] == 'sub':
            return oid
        key = self.intern(('sub', oid))
        if key not in st.heap:
            st.heap[key] = Obj('any', origin=o.origin, dep=o.dep, loc=o.loc)
        return key

    # ---------------------------------------------------------------- branching
    def branch(self, e, st):
        """-> (states where e is true, states where e is false)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            return f, t
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            ts, fs = [st], []
            ctrl0, forced = st.ctrl, frozenset()
            for x in e.values:
                nt, nf = [], []
                for s in ts:
                    ctrl1 = s.ctrl
                    try:
                        a, b = self.branch(x, s)
                    except Unreachable:
                        continue
                    if not a or not b:
                        for q in a + b:
                            forced |= q.ctrl - ctrl1
                    if isand:
                        nt += a
                        nf += b
                    else:
                        nt += b
                        nf += a
                ts = self.reduce(nt)
                fs += nf
            fs = self.reduce(fs)
            if not ts or not fs:
                # the outcome is the same whatever the undecided parts are: no control dependence on these
                for s in ts + fs:
                    s.ctrl = ctrl0 | forced
            return (ts, fs) if isand else (fs, ts)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e, st)
            return self.branch(ast.copy_location(ast.Name(e.target.id, ast.Load()), e), st)
        if self.exact and isinstance(e, ast.Compare):
            if len(e.ops) > 1 and all(isinstance(x, (ast.Name, ast.Constant)) for x in e.comparators[:-1]):
                ls = [e.left] + e.comparators
                key = ('chain', id(e))
                if key not in self.chains:
                    self.chains[key] = (e, ast.copy_location(ast.BoolOp(ast.And(), [ast.copy_location(ast.Compare(a, [op], [b]), e) for a, op, b in zip(ls, e.ops, ls[1:])]), e))
                return self.branch(self.chains[key][1], st)
            self.split_interval(e, st)
        names = self.atomic_names(e)
        # atom-wise partition on a single multi-atom local
        if len(names) == 1:
            n = next(iter(names))
            fid = None
            for f in self.fr.chain:
                if st.get(f, n) is not None:
                    fid = f
                    break
            cur = st.get(fid, n) if fid is not None else None
            if cur is not None and 1 < len(cur.atoms) <= 30 and UNBOUND not in cur.atoms:
                ta, fa = set(), set()
                tst, fst = [], []
                ctrl = None
                for a in sorted(cur.atoms, key=repr):
                    s2 = st.fork()
                    s2.set(fid, n, AV({a}, cur.dep))
                    try:
                        outs = self.cond_outcomes(e, s2)
                    except Unreachable:
                        continue
                    for (tv, s3) in outs:
                        (ta if tv else fa).add(a)
                        (tst if tv else fst).append(s3)
                res = []
                for atoms, sts in ((ta, tst), (fa, fst)):
                    if not sts:
                        res.append([])
                        continue
                    groups = {}
                    for s in sts:
                        groups.setdefault(tuple(sorted(s.facts.items(), key=str)), []).append(s)
                    res.append([self.merge(g) for g in groups.values()])
                return res[0], res[1]
        outs = self.cond_outcomes(e, st)
        return [s for t, s in outs if t], [s for t, s in outs if not t]

    def split_interval(self, e, st):
        """a variable that is compared with a number and ranges over an interval around it: below, equal, above"""
        for x, y in ((e.left, e.comparators[0]), (e.comparators[0], e.left)):
            if not isinstance(x, ast.Name) or not isinstance(y, (ast.Name, ast.Constant, ast.UnaryOp)):
                continue
            fid = next((f for f in self.fr.chain if st.get(f, x.id) is not None), None)
            cur = st.get(fid, x.id) if fid is not None else None
            if cur is None or len(cur.atoms) > 8 or not any(a[0] == 'iv' for a in cur.atoms):
                continue
            c = self.eval(y, st).single()
            if c is None or c[0] != 'c' or isinstance(c[2], bool) or not isinstance(c[2], (int, float)):
                continue
            v = c[2]
            parts = set()
            for a in cur.atoms:
                if a[0] != 'iv' or not a[2] < v < a[3]:
                    parts.add(a)
                    continue
                parts |= {('iv', a[1], a[2], v), ('iv', a[1], v, a[3])}
                if a[1] == 'float' or v == int(v):
                    parts.add(('c', a[1], float(v) if a[1] == 'float' else int(v)))
            parts = {p for p in parts if p[0] != 'iv' or p[1] not in ('int', 'npint') or math.isinf(p[2]) or math.isinf(p[3]) or p[3] - p[2] > 1}
            if parts == set(cur.atoms):
                continue
            st.set(fid, x.id, AV(parts, cur.dep))
            return

    def cond_outcomes(self, e, st):
        """evaluate a non-boolean-operator condition: list of (bool, state)"""
        if isinstance(e, (ast.BoolOp,)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e, st)
            return [(True, s) for s in t] + [(False, s) for s in f]
        out = []
        for s, v in self.eval_multi(e, st):
            syms = [a for a in v.atoms if a[0] == 'sym']
            if syms and len(v.atoms) == 1:
                sym = syms[0][1]
                ctrl = s.ctrl | v.dep
                if sym in s.facts:
                    s.ctrl = ctrl
                    out.append((s.facts[sym], s))
                else:
                    self.client.undetermined(s, v.dep)
                    for tv in (True, False):
                        s2 = s.fork()
                        s2.facts[sym] = tv
                        s2.ctrl = ctrl
                        self.client.open_condition(s2, e)
                        if self.undecided:
                            s2.flags = s2.flags | {self.undecided}
                        if not any(d.startswith(('arg:', 'len:arg:')) for d in v.dep):
                            s2.flags = s2.flags | {'undet'}
                        out.append((tv, s2))
                continue
            tr = self.truth(s, v)
            ctrl = s.ctrl | v.dep
            for a in v.atoms:
                if a[0] == 'o':
                    ctrl |= self.alldeps(s, v)
                    break
            if len(tr) == 1:
                s.ctrl = ctrl
                out.append((next(iter(tr)), s))
            else:
                imprecise = any(a[0] == 'u' for a in v.atoms)
                self.client.undetermined(s, (ctrl - s.ctrl) | v.dep)
                for tv in (True, False):
                    s2 = s.fork()
                    s2.ctrl = ctrl
                    self.client.open_condition(s2, e)
                    if self.undecided:
                        s2.flags = s2.flags | {self.undecided}
                    if imprecise:
                        s2.flags = s2.flags | {'imprecise'}
                    if not any(d.startswith(('arg:', 'len:arg:')) for d in (ctrl - s.ctrl) | v.dep) and not self.client.numeric_condition(s, e):
                        s2.flags = s2.flags | {'undet'}
                    out.append((tv, s2))
        return out

    def atomic_names(self, e):
        names = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                fr = self.fr
                if fr.fi is None:
                    names.add(n.id)
                elif n.id in fr.fi.locals or len(fr.chain) > 1:
                    names.add(n.id)
            elif isinstance(n, (ast.Lambda, ast.Yield)):
                return set()
        # names bound by comprehensions inside the condition are not locals of interest
        for n in ast.walk(e):
            if isinstance(n, ast.comprehension):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        names.discard(t.id)
        return {n for n in names if self._is_var(n)}

    def _is_var(self, n):
        fr = self.fr
        if fr.fi is not None and n in fr.fi.locals:
            return True
        if fr.fi is None:
            return False
        p = fr.fi.parent
        while p is not None:
            if n in p.locals:
                return True
            p = p.parent
        return n not in fr.module.functions and n not in fr.module.imports and n not in fr.module.classes and not hasattr(_b, n)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st):
        self.step()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return AVU
        depth = len(self.frames), len(self.collectors), self.loopdepth
        try:
            return m(e, st)
        except FAILURES as ex:
            self.failed(e, st, ex, depth)
            return AVU

    def failed(self, e, st, ex, depth):
        """a construct the interpreter has no correct model for: its value is unknown, and so is what follows"""
        if os.environ.get('VERIF_STRICT'):
            raise ex
        FAILED[f'{self.loc(e)}: {type(ex).__name__}'] = FAILED.get(f'{self.loc(e)}: {type(ex).__name__}', 0) + 1
        del self.frames[depth[0]:]
        del self.collectors[depth[1]:]
        self.loopdepth = depth[2]
        st.flags = st.flags | {'undet', 'imprecise', 'undecided'}

    def eval_multi(self, e, st):
        depth = len(self.frames), len(self.collectors), self.loopdepth
        try:
            return self.eval_all(e, st)
        except FAILURES as ex:
            self.failed(e, st, ex, depth)
            return [(st, AVU)]

    def eval_all(self, e, st):
        if isinstance(e, ast.Call):
            return self.eval_call(e, st)
        if isinstance(e, ast.IfExp):
            ctrl0 = st.ctrl
            ts, fs = self.branch(e.test, st)
            out = []
            for states, x in ((ts, e.body), (fs, e.orelse)):
                for s in states:
                    try:
                        for s2, v in self.eval_multi(x, s):
                            v = v.withdep(s2.ctrl)
                            s2.ctrl = ctrl0
                            out.append((s2, v))
                    except Unreachable:
                        pass
            if not out:
                raise Unreachable
            return self.group_outcomes(out)
        if isinstance(e, ast.Attribute):
            return self.eval_attr_multi(e, st)
        return [(st, self.eval(e, st))]

    def merge_outcomes(self, outs, st):
        if not outs:
            raise Unreachable
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            s = join_states(s, s2)
            v = join(v, v2)
        if s is not st:
            st.become(s)
        return v

    def sigval(self, st, v, d=2):
        if v.atoms and all(a[0] == 'c' for a in v.atoms):
            cs = {a[2] for a in v.atoms}
            if cs <= {None, True, False} and not any(isinstance(c, (int, float)) and not isinstance(c, bool) for c in cs):
                return v.atoms
            return 'c'
        a = v.single()
        if a is not None and a[0] == 'o' and d > 0:
            o = self.obj(st, a[1])
            if o is not None and o.t == 'tuple' and o.items is not None:
                return tuple(self.sigval(st, i, d - 1) for i in o.items)
        return 'x' if NONE not in v.atoms else 'm'

    def group_outcomes(self, outs):
        if len(outs) <= 1:
            return outs
        groups = {}
        for s, v in outs:
            groups.setdefault((self.sigval(s, v), self.sig(s)), []).append((s, v))
        if len(groups) > self.CAP:
            g2 = {}
            for s, v in outs:
                g2.setdefault(self.sigval(s, v), []).append((s, v))
            groups = g2
        res = []
        for g in groups.values():
            s, v = g[0]
            for s2, v2 in g[1:]:
                s = join_states(s, s2)
                v = join(v, v2)
            res.append((s, v))
        return res

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return av(('c', 'ellipsis', Ellipsis))
        return av(C(e.value)) if not isinstance(e.value, (frozenset,)) else AVU

    def e_Name(self, e, st):
        return self.lookup(st, e.id, e)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_JoinedStr(self, e, st):
        dep = set()
        parts = []
        known = True
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                v = self.eval(p.value, st)
                self.client.fmt(st, p, v)
                dep |= self.alldeps(st, v)
                if self.tokens is not None and v.single() is not None and p.conversion in (-1, 115, 114):
                    t = self.models.token_text(self, st, v.single(), p)
                    if t is not None:
                        parts.append(t)
                        continue
                c = v.consts()
                if c is not None and len(c) == 1 and p.format_spec is None and p.conversion == -1:
                    parts.append(str(next(iter(c))))
                elif self.exact and c is not None and len(c) == 1 and p.conversion == -1 and all(isinstance(x, ast.Constant) for x in p.format_spec.values):
                    try:
                        parts.append(format(next(iter(c)), ''.join(x.value for x in p.format_spec.values)))
                    except (TypeError, ValueError):
                        known = False
                else:
                    known = False
            elif isinstance(p, ast.Constant):
                parts.append(str(p.value))
        if known:
            return avc(''.join(parts), frozenset(dep))
        return AV({S('str')}, frozenset(dep))

    def e_Tuple(self, e, st, t='tuple'):
        items = []
        exact = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                self.note_iter(st, x.value, v, e)
                its = None
                a = v.single()
                if a is not None and a[0] == 'o':
                    o = self.obj(st, a[1])
                    if o is not None and o.items is not None:
                        its = o.items
                if its is not None:
                    items.extend(its)
                else:
                    exact = False
                    items.append(('star', v))
            else:
                items.append(self.eval(x, st))
        dep = set()
        if exact:
            if t == 'set' and self.exact and not self.loopdepth:
                return self.models.exact_set(self, st, e, 'lit', tuple(items), frozenset().union(*(i.dep for i in items)))
            if t == 'set':
                oid = self.new(st, e, 'lit', t, elem=joinall(items), facts=frozenset({'unordered', 'nonempty'} if items else {'unordered'}))
                return oid
            return self.new(st, e, 'lit', t, items=tuple(items), shape=(len(items),), facts=frozenset({'nonempty'} if items else ()))
        elem = BOT
        shape = None
        facts = set()
        for i in items:
            if isinstance(i, tuple):
                elem = join(elem, self.iter_elem(i[1], st, e))
                dep |= i[1].dep
                a = i[1].single()
                o = self.obj(st, a[1]) if a is not None and a[0] == 'o' else None
                if o is not None:
                    dep |= o.dep
                    if len(items) == 1 and o.shape:
                        shape = (o.shape[0],)
                    facts |= {f for f in o.facts if f in ('nonempty', 'each', 'ordertaint') or isinstance(f, tuple) and f[0] == 'ord'}
                    if self.models.unstable(self, st, a[1], o):
                        facts.add('ordertaint')
            else:
                elem = join(elem, i)
                facts.add('nonempty')
        if t == 'set':
            facts.add('unordered')
        return self.new(st, e, 'lit', t, dep=frozenset(dep), elem=elem, shape=shape, facts=frozenset(facts))

    def e_List(self, e, st):
        return self.e_Tuple(e, st, 'list')

    def e_Set(self, e, st):
        return self.e_Tuple(e, st, 'set')

    def e_Dict(self, e, st):
        attrs = {}
        elem = BOT
        kel = BOT
        dep = set()
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                elem = join(elem, AVU)
                continue
            kk = self.eval(k, st)
            a = kk.single()
            if a is not None and a[0] == 'c':
                attrs[a[2]] = vv
            else:
                elem = join(elem, vv)
                kel = join(kel, kk)
        facts = frozenset({('keyelem', kel)}) if kel.atoms else EMPTY
        return self.new(st, e, 'lit', 'dict', elem=elem, attrs=attrs, facts=facts)

    def comp(self, e, st, elts):
        """common comprehension machinery -> (list of AV per elt, deps, shape, facts)"""
        fr = self.fr
        fid = self.intern(('comp', fr.fid, id(e)))
        nf = Frame(fid, fr.fi, fr.module, (fid,) + fr.chain, fr.cls, fr.callnode)
        dep = set()
        shape = None
        facts = set()
        results = [BOT for _ in elts]
        exact = None
        self.loopdepth += 1
        st.frames[fid] = {}
        iters = []

        def rec(gi, s):
            nonlocal shape, exact
            if gi == len(e.generators):
                for i, x in enumerate(elts):
                    results[i] = join(results[i], self.eval(x, s).withdep(s.ctrl if s.ctrl != ctrl0 else EMPTY))
                return [s]
            g = e.generators[gi]
            if gi == 0:
                self.frames.pop()
                it = self.eval(g.iter, s)
                self.frames.append(nf)
            else:
                it = self.eval(g.iter, s)
            self.note_iter(s, g.iter, it, e)
            iters.append(it)
            o = None
            a = it.single()
            if a is not None and a[0] == 'o':
                o = self.obj(s, a[1])
            if o is not None:
                dep.update(o.dep)
                if gi == 0 and len(e.generators) == 1 and not g.ifs and o.shape:
                    shape = (o.shape[0],)
                if 'each' in o.facts:
                    facts.add('each')
                if self.models.unstable(self, s, a[1], o):
                    facts.add('ordertaint')
            if self.definitely_nonempty(s, it) and not g.ifs and (gi == 0 or 'nonempty' in facts):
                facts.add('nonempty')
            elif gi > 0:
                facts.discard('nonempty')
            dep.update(it.dep)
            alts = self.alternatives(s, it, o, g.iter)
            outs = []
            for el in alts:
                s2 = s.fork() if len(alts) > 1 else s
                self.assign(g.target, el, s2, e)
                states = [s2]
                for c in g.ifs:
                    nxt = []
                    for q in states:
                        try:
                            t, f = self.branch(c, q)
                        except Unreachable:
                            continue
                        nxt += t
                    states = self.reduce(nxt)
                for q in states:
                    try:
                        outs += rec(gi + 1, q)
                    except Unreachable:
                        continue
            return outs
        ctrl0 = st.ctrl
        self.frames.append(nf)
        try:
            outs = rec(0, st)
        finally:
            self.frames.pop()
            self.loopdepth -= 1
        if outs:
            m = self.merge(outs)
            m.ctrl = ctrl0
            if m is not st:
                st.become(m)
        st.frames.pop(fid, None)
        if any(g.ifs for g in e.generators):
            facts.discard('nonempty')
        return results, frozenset(dep), shape, frozenset(facts)

    def comp_exact(self, e, st, elts):
        """the elements in order if every iterable has known items and every condition is decided, else None"""
        fr = self.fr
        fid = self.intern(('comp', fr.fid, id(e)))
        nf = Frame(fid, fr.fi, fr.module, (fid,) + fr.chain, fr.cls, fr.callnode)
        s = st.fork()
        s.frames[fid] = {}
        out = []
        ctrl0 = st.ctrl
        path = self.iterpath

        def rec(gi):
            if gi == len(e.generators):
                out.append([self.eval(x, s).withdep(s.ctrl - ctrl0) for x in elts])
                return len(out) <= 40
            g = e.generators[gi]
            if gi == 0:
                self.frames.pop()
                try:
                    it = self.eval(g.iter, s)
                finally:
                    self.frames.append(nf)
            else:
                it = self.eval(g.iter, s)
            items = self.models.exact_items(self, s, it)
            if items is None or len(items) > self.UNROLL:
                return False
            for n, x in enumerate(items):
                c0 = s.ctrl
                p0 = self.iterpath
                self.iterpath = p0 + (n,)
                try:
                    self.assign(g.target, x.withdep(it.dep), s, e)
                    keep = True
                    for c in g.ifs:
                        outs = self.cond_outcomes(c, s)
                        if len(outs) != 1:
                            return False
                        s.become(outs[0][1])
                        if not outs[0][0]:
                            keep = False
                            break
                    if keep and not rec(gi + 1):
                        return False
                finally:
                    self.iterpath = p0
                s.ctrl = c0
            return True
        self.frames.append(nf)
        try:
            ok = rec(0)
        finally:
            self.frames.pop()
            self.iterpath = path
        if not ok:
            return None
        s.frames.pop(fid, None)
        s.ctrl = ctrl0
        st.become(s)
        return out

    def alternatives(self, st, it, o, node):
        el = self.iter_elem(it, st, node)
        if o is not None and 'each' in o.facts:
            a = el.single()
            if a is not None and a[0] == 'o':
                eo = self.obj(st, a[1])
                if eo is not None and eo.t == 'tuple' and eo.items is not None:
                    for i, x in enumerate(eo.items):
                        if len(x.atoms) > 1:
                            out = []
                            for at in sorted(x.atoms, key=repr):
                                its = list(eo.items)
                                its[i] = AV({at}, x.dep)
                                noid = self.intern(('alt', a[1], at))
                                st.heap[noid] = eo.replace(items=tuple(its))
                                out.append(AV({('o', noid)}, el.dep))
                            return out
            if len(el.atoms) > 1:
                return [AV({at}, el.dep) for at in sorted(el.atoms, key=repr)]
        return [el]

    def e_ListComp(self, e, st):
        x = self.comp_exact(e, st, [e.elt]) if self.exact and not self.loopdepth else None
        if x is not None:
            return self.new(st, e, 'comp', 'list', items=tuple(v[0] for v in x), shape=(len(x),), facts=frozenset({'nonempty'} if x else ()))
        r, dep, shape, facts = self.comp(e, st, [e.elt])
        return self.new(st, e, 'comp', 'list', dep=dep, elem=r[0], shape=shape, facts=facts)

    def e_SetComp(self, e, st):
        x = self.comp_exact(e, st, [e.elt]) if self.exact and not self.loopdepth else None
        if x is not None:
            return self.models.exact_set(self, st, e, 'comp', tuple(v[0] for v in x), joinall([v[0] for v in x]).dep)
        r, dep, shape, facts = self.comp(e, st, [e.elt])
        return self.new(st, e, 'comp', 'set', dep=dep, elem=r[0], facts=(facts - {'ordertaint'}) | {'unordered'})

    def e_GeneratorExp(self, e, st):
        x = self.comp_exact(e, st, [e.elt]) if self.exact and not self.loopdepth else None
        if x is not None:
            return self.new(st, e, 'comp', 'iter', items=tuple(v[0] for v in x), shape=(len(x),), facts=frozenset({'nonempty'} if x else ()))
        r, dep, shape, facts = self.comp(e, st, [e.elt])
        return self.new(st, e, 'comp', 'iter', dep=dep, elem=r[0], shape=shape, facts=facts)

    def e_DictComp(self, e, st):
        x = self.comp_exact(e, st, [e.key, e.value]) if self.exact and not self.loopdepth else None
        if x is not None:
            try:
                return self.new(st, e, 'comp', 'dict', attrs={self.models.known(self, st, k.single()): v for k, v in x}, facts=frozenset({'nonempty'} if x else ()))
            except KeyError:
                pass
        r, dep, shape, facts = self.comp(e, st, [e.key, e.value])
        return self.new(st, e, 'comp', 'dict', dep=dep, elem=r[1], facts=(facts & {'nonempty', 'ordertaint'}) | {('keyelem', r[0])})

    def e_Lambda(self, e, st):
        fi = getattr(e, '_fi', None)
        if fi is None:
            fi = FuncInfo(self.fr.module, e, (self.fr.fi.qualname if self.fr.fi else '') + '.<lambda>')
            fi.parent = self.fr.fi
            e._fi = fi
        key = self.intern(('clo', self.fr.fid, id(e)))
        self.closures[key] = (fi, self.fr.chain)
        self.closure_fids.update(self.fr.chain)
        return av(('clo', key))

    def e_IfExp(self, e, st):
        return self.merge_outcomes(self.eval_multi(e, st), st)

    def e_BoolOp(self, e, st):
        # value semantics: short-circuit through branch for path sensitivity
        isand = isinstance(e.op, ast.And)
        ctrl0 = st.ctrl
        outs = []
        cur = [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                try:
                    if last:
                        v = self.eval(x, s)
                        outs.append((s, v.withdep(s.ctrl)))
                        continue
                    pure = isinstance(x, (ast.Compare, ast.Call, ast.UnaryOp, ast.BoolOp, ast.Name, ast.Attribute))
                    v = self.eval(x, s.fork())
                    t, f = self.branch(x, s)
                    stop, go = (f, t) if isand else (t, f)
                    keep = frozenset(a for a in v.atoms if self.truth_atom(s, a) in ((False, None) if isand else (True, None)))
                    for q in stop:
                        kv = AV(keep, v.dep) if keep else avc(not isand)
                        if kv.atoms and all(a[0] in ('s', 'sym') and (a[0] == 'sym' or a[1] == 'bool') for a in kv.atoms):
                            kv = avc(not isand, v.dep)
                        outs.append((q, kv.withdep(q.ctrl)))
                    nxt += go
                except Unreachable:
                    continue
            cur = self.reduce(nxt)
        for s, _ in outs:
            s.ctrl = ctrl0
        return self.merge_outcomes(outs, st)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            ctrl0 = st.ctrl
            t, f = self.branch(e.operand, st)
            outs = [(s, avc(False).withdep(s.ctrl)) for s in t] + [(s, avc(True).withdep(s.ctrl)) for s in f]
            for s, _ in outs:
                s.ctrl = ctrl0
            return self.merge_outcomes(outs, st)
        v = self.eval(e.operand, st)
        return self.models.unaryop(self, st, e, e.op, v)

    def e_BinOp(self, e, st):
        l = self.eval(e.left, st)
        r = self.eval(e.right, st)
        more = self.client.binop(st, e, e.op, l, r)
        v = self.models.binop(self, st, e, l, e.op, r)
        return v.withdep(more) if more else v

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        if len(e.ops) == 1:
            r = self.eval(e.comparators[0], st)
            return self.cmp(st, e, e.ops[0], l, r)
        # chained: conjunction
        res = None
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c, st)
            v = self.cmp(st, e, op, l, r)
            if res is None:
                res = v
            else:
                tv = self.truth(st, res)
                tv2 = self.truth(st, v)
                dep = res.dep | v.dep
                if tv == {False} or tv2 == {False}:
                    res = avc(False, dep)
                elif tv == {True} and tv2 == {True}:
                    res = avc(True, dep)
                else:
                    res = AV({S('bool')} | ({U} if U in res.atoms or U in v.atoms else set()), dep)
                    res = AV({a for a in res.atoms}, dep)
            l = r
        return res

    def cmp(self, st, node, op, l, r):
        o = self.client.compare(st, node, op, l, r)
        if o is not None:
            return o
        return self.models.compare(self, st, node, op, l, r)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else avc(None)
        if self.fr.yields is not None and self.fr.yields != 'comp':
            self.fr.yields.append(v)
        return AVU

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        if self.fr.yields is not None and self.fr.yields != 'comp':
            self.fr.yields.append(self.iter_elem(v, st, e))
        return AVU

    def e_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.eval(x, st)
        return av(('slice',))

    def eval_index(self, s, st):
        if isinstance(s, ast.Slice):
            dep = set()
            parts = []
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    v = self.eval(x, st)
                    dep |= self.alldeps(st, v)
                    c = v.single()
                    parts.append(c[2] if c is not None and c[0] == 'c' else '?')
                else:
                    parts.append(None)
            return AV({('slice',) + tuple(parts)}, frozenset(dep))
        if isinstance(s, ast.Tuple):
            items = tuple(self.eval_index(x, st) for x in s.elts)
            return self.new(st, s, 'idx', 'tuple', items=items, shape=(len(items),))
        return self.eval(s, st)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.eval_index(e.slice, st)
        return self.subscript(e, b, i, st)

    def subscript(self, e, b, i, st):
        out = []
        for a in b.atoms:
            if a[0] == 'o':
                o = self.obj(st, a[1])
                if o is None:
                    out.append(AVU)
                    continue
                self.client.index(st, e, a[1], i)
                out.append(self.models.getitem(self, st, e, a[1], o, i))
            elif a[0] in ('c', 's') and a[1] == 'str':
                k = i.single()
                if a[0] == 'c' and k is not None:
                    try:
                        if self.tokens is not None and self.tokens.has(a[2]):
                            j = k[2] if k[0] == 'c' else slice(*k[1:]) if k[0] == 'slice' and '?' not in k[1:] else None
                            out.append(AV({self.tokens.item(a[2], j)}))
                            continue
                        if k[0] == 'c':
                            out.append(avc(a[2][k[2]]))
                            continue
                        if k[0] == 'slice' and '?' not in k[1:]:
                            out.append(avc(a[2][slice(*k[1:])]))
                            continue
                    except (IndexError, TypeError):
                        pass
                out.append(AV({S('str')}))
            elif a == NONE:
                continue
            else:
                out.append(AVU)
        if not out:
            return AV({U}, b.dep | i.dep)
        r = joinall(out)
        return AV(r.atoms, r.dep | b.dep | self.alldeps(st, i))

    # ---------------------------------------------------------------- attributes
    def mangled(self, name):
        return Repo.mangle(self.fr.cls, name)

    def e_Attribute(self, e, st):
        outs = self.eval_attr_multi(e, st)
        return self.merge_outcomes(outs, st)  # raises Unreachable when no atom has the attribute

    def eval_attr_multi(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr_multi(e, b, self.mangled(e.attr), st)

    def getattr_multi(self, e, b, name, st):
        outs = []
        atoms = [a for a in b.atoms if a != UNBOUND]
        if not atoms:
            return [(st, AV({U}, b.dep))]
        if name in ('__module__', '__qualname__', '__name__', '__class__'):
            atoms.sort(key=repr)
        many = len(atoms) > 1
        for a in atoms:
            if a == NONE and many:
                continue
            s = st.fork() if many else st
            try:
                outs += [(x, v if name in self.client.free else v.withdep(b.dep)) for x, v in self.getattr_atom(e, a, name, s)]
            except Unreachable:
                continue
        return self.group_outcomes(outs)

    def getattr_atom(self, e, a, name, st):
        r = self.client.getattr(st, e, a, name)
        if r is not None:
            return r if isinstance(r, list) else [(st, r)]
        if a[0] == 'ext':
            return [(st, self.models.ext_attr(self, st, a[1], name))]
        if a[0] == 'o':
            o = self.obj(st, a[1])
            if o is None:
                return [(st, AVU)]
            if o.t == 'inst' and o.cls is not None:
                return self.inst_attr(e, a, o, name, st)
            if name in ('__module__', '__qualname__', '__name__', 'to_graph', 'size_of') and o.t in ('list', 'dict', 'tuple', 'set', 'ndarray', 'graph', 'multigraph', 'df', 'sparse', 'iter', 'range'):
                self.collect(st, ('AttributeError',), AVU, e)
                return []
            return [(st, self.models.obj_attr(self, st, e, a[1], o, name))]
        if a[0] == 'cls':
            ci = a[1]
            if name in ci.members:
                fi = ci.members[name]
                return [(st, av(('fn', fi)))]
            if name in ci.classattrs:
                return [(st, self.class_attr(ci, name, st))]
            if name in ('__name__', '__qualname__'):
                return [(st, avc(ci.name))]
            if name == '__module__':
                return [(st, avc('pydtmc.' + ci.module.name))]
            if name == '__bases__':
                its = []
                for b in ci.bases:
                    r = self.repo.resolve_expr(ci.module, b)
                    its.append(av(('cls', r[1])) if r and r[0] == 'class' else av(('ext', r[1])) if r and r[0] == 'ext' else AVU)
                return [(st, self.new(st, e, 'bases', 'tuple', items=tuple(its), shape=(len(its),)))]
            if name == '__class__':
                return [(st, AVU)]
            return [(st, AVU)]
        if a[0] == 'b':
            if name in ('__name__', '__qualname__'):
                return [(st, avc(a[1].split('.')[-1]))]
            if name == '__module__':
                return [(st, avc('builtins'))]
            if name == '__bases__':
                return [(st, self.new(st, e, 'bases', 'tuple', items=(av(('b', 'object')),), shape=(1,)))]
            return [(st, AVU)]
        if name in ('__module__', '__qualname__', '__name__', '__bases__') and (a[0] in ('c', 's', 'iv') and a[1] in ('int', 'float', 'bool', 'complex', 'str', 'bytes', 'NoneType') or a[0] == 'nan'):
            self.collect(st, ('AttributeError',), AVU, e)
            return []
        if a[0] in ('c', 's') and a[1] == 'str':
            return [(st, av(('b', 'str')) if name == '__class__' else av(('ms', a, name)))]
        if a[0] in ('c', 's', 'iv', 'nan'):
            return [(st, self.models.scalar_attr(self, st, a, name))]
        if a[0] == 'exc':
            return [(st, AVU)]
        return [(st, AVU)]

    def class_attr(self, ci, name, st=None):
        if st is not None:
            co = st.heap.get(self.intern(('clsobj', ci.ident)))
            if co is not None and name in co.attrs:
                return co.attrs[name]
        key = ('classattr', ci.ident, name)
        if key not in self.globals_cache:
            self.globals_cache[key] = self.eval_static(ci.module, ci.classattrs[name], f'module:{ci.ident}.{name}', ci)
        return self.globals_cache[key]

    def inst_attr(self, e, a, o, name, st):
        if name in o.attrs:
            return [(st, o.attrs[name].withdep(o.dep))]
        ci = o.cls
        fi = self.class_member(ci, name)
        if fi is not None:
            if fi.kind == 'property':
                return self.call_repo(fi, [AV({a})], {}, st, e, closure=None)
            if fi.kind == 'cached':
                key = ('cached', name)
                if key in o.attrs:
                    v = o.attrs[key]
                    return [(st, self.hand_out_cached(st, e, v))]
                outs = self.call_repo(fi, [AV({a})], {}, st, e, closure=None)
                res = []
                for s, v in outs:
                    oo = self.obj(s, a[1])
                    if oo is not None:
                        for oid in self.reachable(s, v):
                            x = self.obj(s, oid)
                            if x is not None and x.t not in ('inst',):
                                s.heap[oid] = x.replace(origin=x.origin | {f'state:cache {name}'} if any(t.startswith('state:') for t in oo.origin) else x.origin)
                        at = dict(oo.attrs)
                        at[key] = v
                        s.heap[a[1]] = oo.replace(attrs=at)
                    res.append((s, self.hand_out_cached(s, e, v)))
                return res
            if fi.kind == 'static':
                return [(st, av(('fn', fi)))]
            return [(st, av(('bm', fi, a[1])))]
        if name in ci.classattrs:
            return [(st, self.class_attr(ci, name, st))]
        if name == '__class__':
            return [(st, av(('cls', ci)))]
        if name == '__dict__':
            return [(st, self.new(st, e, 'instdict', 'instdict', facts=frozenset({('inst', a[1])})))]
        if name == '__module__':
            return [(st, avc('pydtmc.' + ci.module.name))]
        return [(st, AVU)]

    def class_member(self, ci, name):
        if name in ci.members:
            return ci.members[name]
        # aliases created by the class decorator
        al = self.aliases(ci)
        if name in al:
            return al[name]
        for b in ci.bases:
            r = self.repo.resolve_expr(ci.module, b)
            if r and r[0] == 'class':
                f = self.class_member(r[1], name)
                if f is not None:
                    return f
        return None

    def aliases(self, ci):
        if not hasattr(ci, '_aliases'):
            ci._aliases = {}
            for f in ci.members.values():
                for x in f.marks.get('aliases') or []:
                    ci._aliases[x] = f
        return ci._aliases

    def hand_out_cached(self, st, e, v):
        if not self.copying_cached:
            return v
        return self.deepcopy(st, e, v, 'cachedcopy')

    def deepcopy(self, st, node, v, tag, depth=6):
        if depth <= 0:
            return AV({U}, v.dep)
        atoms = set()
        for a in v.atoms:
            if a[0] == 'o':
                o = self.obj(st, a[1])
                if o is None or o.t in ('inst',):
                    atoms.add(a)
                    continue
                items = tuple(self.deepcopy(st, node, i, (tag, ('o', a[1]), n), depth - 1) for n, i in enumerate(o.items)) if o.items is not None else None
                elem = self.deepcopy(st, node, o.elem, (tag, ('o', a[1]), 'e'), depth - 1)
                attrs = {k: self.deepcopy(st, node, x, (tag, ('o', a[1]), 'a', str(k)), depth - 1) for k, x in o.attrs.items()}
                oid = self.alloc(st, node, (tag, ('o', a[1])), o.replace(items=items, elem=elem, attrs=attrs, origin=EMPTY, base=EMPTY, loc=self.loc(node)))
                atoms.add(('o', oid))
            else:
                atoms.add(a)
        return AV(frozenset(atoms), v.dep)

    def reachable(self, st, v, seen=None):
        seen = set() if seen is None else seen
        for a in v.atoms:
            if a[0] == 'o' and a[1] not in seen:
                seen.add(a[1])
                o = self.obj(st, a[1])
                if o is None:
                    continue
                self.reachable(st, o.elem, seen)
                for i in o.items or ():
                    self.reachable(st, i, seen)
                if o.t != 'inst':
                    for i in o.attrs.values():
                        self.reachable(st, i, seen)
                    for f in o.facts:
                        if isinstance(f, tuple) and f[0] == 'keyelem':
                            self.reachable(st, f[1], seen)
        return seen

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        return self.merge_outcomes(self.eval_call(e, st), st)

    def eval_call(self, e, st):
        f = self.eval(e.func, st)
        args, kwargs = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                a = v.single()
                o = self.obj(st, a[1]) if a is not None and a[0] == 'o' else None
                if o is not None and o.items is not None:
                    args.extend(o.items)
                else:
                    args.append(('*', self.iter_elem(v, st, x)))
            else:
                args.append(self.eval(x, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                a = v.single()
                o = self.obj(st, a[1]) if a is not None and a[0] == 'o' else None
                if o is not None and o.t == 'dict' and not o.elem.atoms:
                    for kk, vv in o.attrs.items():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        return self.call_value(f, args, kwargs, st, e)

    def call_value(self, f, args, kwargs, st, e):
        atoms = [a for a in f.atoms if a != UNBOUND and a != NONE] or [U]
        many = len(atoms) > 1
        outs = []
        for a in atoms:
            s = st.fork() if many else st
            try:
                outs += [(x, v.withdep(f.dep)) for x, v in self.call_atom(a, args, kwargs, s, e)]
            except Unreachable:
                continue
        if not outs:
            raise Unreachable
        return self.group_outcomes(outs) if len(outs) > 1 else outs

    def flat(self, args):
        return [x[1] if isinstance(x, tuple) else x for x in args]

    def call_atom(self, a, args, kwargs, st, e):
        k = a[0]
        if k == 'fn':
            fi = a[1]
            return self.call_repo(fi, args, kwargs, st, e)
        if k == 'bm':
            return self.call_repo(a[1], [AV({('o', a[2])})] + args, kwargs, st, e)
        if k == 'clo':
            fi, chain = self.closures[a[1]]
            return self.call_repo(fi, args, kwargs, st, e, closure=chain)
        if k == 'cls':
            r = self.client.construct(st, e, a[1], args, kwargs)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
            return self.construct(a[1], args, kwargs, st, e)
        if k == 'exccls':
            dep = self.alldeps(st, *self.flat(args))
            fl = self.flat(args)
            return [(st, self.new(st, e, 'exc', 'exc', dep=dep, items=tuple(fl), facts=frozenset({('exc', a[1])})))]
        fl = self.flat(args)
        if k == 'ext':
            r = self.client.ext_call(st, e, a[1], args, kwargs)
            if r is None:
                r = self.models.ext_call(self, st, e, a[1], args, kwargs)
            if isinstance(r, list):
                return r
            r2 = self.client.after_ext(st, e, a[1], args, kwargs, r)
            return [(st, r if r2 is None else r2)]
        if k == 'b':
            r = self.client.ext_call(st, e, 'builtins.' + a[1], args, kwargs)
            if r is None:
                r = self.models.builtin(self, st, e, a[1], args, kwargs)
            if isinstance(r, list):
                return r
            r2 = self.client.after_ext(st, e, 'builtins.' + a[1], args, kwargs, r)
            return [(st, r if r2 is None else r2)]
        if k == 'm':
            r = self.client.method(st, e, a[1], a[2], args, kwargs)
            if r is None:
                r = self.models.method(self, st, e, a[1], a[2], args, kwargs)
            return r if isinstance(r, list) else [(st, r)]
        if k == 'ms':
            return [(st, self.models.str_method(self, st, e, a[1], a[2], args, kwargs))]
        if k == 'mx':
            r = self.models.scalar_method(self, st, e, a[1], a[2], args, kwargs)
            return [(st, r)]
        if k == 'partial':
            return self.call_value(a[1], list(a[2]) + args, kwargs, st, e)
        # unknown callable (possibly user-supplied)
        dep = self.alldeps(st, *fl, *kwargs.values())
        if k == 'o':
            self.client.call_object(st, e, a[1])
        r = self.client.ext_call(st, e, '<unknown>', args, kwargs)
        return [(st, r if r is not None else AV({U}, dep))]

    def construct(self, ci, args, kwargs, st, e):
        if any(b == 'Exception' for b in [x.id if isinstance(x, ast.Name) else '' for x in ci.bases]):
            dep = self.alldeps(st, *self.flat(args))
            return [(st, self.new(st, e, 'exc', 'exc', dep=dep, items=tuple(self.flat(args)), facts=frozenset({('exc', ci.name)})))]
        inst = self.new(st, e, 'inst', 'inst', cls=ci)
        init = self.class_member(ci, '__init__')
        if init is None:
            return [(st, inst)]
        outs = self.call_repo(init, [inst] + args, kwargs, st, e)
        return [(s, inst) for s, _ in outs]

    def bind(self, fi, args, kwargs, st, node):
        vals = {}
        pos = list(args)
        params = fi.params
        i = 0
        star = None
        for x in pos:
            if isinstance(x, tuple):
                star = x[1]
                continue
            if star is not None:
                continue
            if i < len(params):
                vals[params[i]] = x
                i += 1
            elif fi.vararg:
                vals.setdefault('*', []).append(x)
            else:
                i += 1
        extra = {}
        kw = dict(kwargs)
        ss = kw.pop('**', None)
        for k, v in kw.items():
            if k in params or k in fi.kwonly:
                vals[k] = v
            else:
                extra[k] = v
        for p in params + fi.kwonly:
            if p not in vals:
                cand = []
                if star is not None:
                    cand.append(star)
                if ss is not None:
                    cand.append(AV({U}, ss.dep))
                if p in fi.defaults:
                    cand.append(self.default_value(fi, p))
                vals[p] = joinall(cand) if cand else AVU
        if fi.vararg:
            its = vals.pop('*', [])
            vals[fi.vararg] = self.new(st, node, ('varargs', fi.ident), 'tuple', items=tuple(its) if star is None else None, elem=star or BOT, shape=(len(its),) if star is None else None)
        if fi.kwarg:
            vals[fi.kwarg] = self.new(st, node, ('kwargs', fi.ident), 'dict', attrs=extra)
        vals.pop('*', None)
        return vals

    def default_value(self, fi, p):
        key = ('default', fi.ident, p, id(fi.node))
        if key not in self.globals_cache:
            self.globals_cache[key] = self.eval_static(fi.module, fi.defaults[p], f'default:{fi.ident}.{p}', fi.cls)
        return self.globals_cache[key]

    def call_repo(self, fi, args, kwargs, st, node, closure=None, force=False):
        self.calls_seen.add((self.fr.fi.ident if self.frames and self.fr.fi else '', getattr(node, 'lineno', 0), fi.ident))
        selfatom = None
        if not force:
            r = self.client.call_repo(st, node, fi, args, kwargs, selfatom)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
            s = self.summaries.get(fi.ident)
            if s is not None:
                r = s(self, st, node, fi, self.bind(fi, args, kwargs, st, node))
                if r is not None:
                    return r if isinstance(r, list) else [(st, r)]
        depth = len(self.frames)
        if depth > self.MAXDEPTH or sum(1 for f in self.frames if f.fi is fi) >= 2:
            dep = self.alldeps(st, *self.flat(args), *kwargs.values())
            return [(st, AV({U}, dep))]
        vals = self.bind(fi, args, kwargs, st, node)
        return self.run(fi, vals, st, node, closure)

    def run(self, fi, vals, st, node, closure=None):
        cur = self.fr.fid if self.frames else -1
        fid = self.intern(('call', cur, id(node), fi.ident, id(fi.node)))
        chain = (fid,) + (closure or ())
        fr = Frame(fid, fi, fi.module, chain, fi.cls, node)
        st.frames[fid] = dict(vals)
        ctrl0 = st.ctrl
        facts0 = dict(st.facts)
        sv = self.loopdepth
        self.frames.append(fr)
        gen = fi.is_generator
        if gen:
            fr.yields = []
        outs = []
        own = None
        if not self.collectors:
            self.collectors.append([])
            own = True
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, st)
                outs = [(st, v)]
            else:
                fl = self.exec_block(fi.node.body, [st])
                outs = fl.ret + [(s, avc(None)) for s in fl.normal]
            if outs:
                outs = self.group_outcomes(outs)
            retdep = fr.retdep - ctrl0
        finally:
            self.frames.pop()
            self.loopdepth = sv
            if own:
                self.last_collector = self.collectors.pop()
        if not outs:
            raise Unreachable
        res = []
        for s, v in outs:
            if fid not in self.closure_fids:
                s.frames.pop(fid, None)
            if retdep:
                v = v.withdep(retdep)
            s.ctrl = ctrl0
            if gen:
                v = self.new(s, node, ('gen', fi.ident), 'iter', elem=joinall(fr.yields))
            res.append((s, v))
        if len(res) > 1 and self.frames:
            g = {}
            out = []
            for s, v in res:
                g.setdefault((self.sigval(s, v), self.sig(s)), []).append((s, v))
            for grp in g.values():
                s, v = grp[0]
                for s2, v2 in grp[1:]:
                    s = join_states(s, s2)
                    v = join(v, v2)
                out.append((s, v))
            res = out
        return res


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2
