"""Every loop and every recursion has a reason to end that can be read off the source."""
import ast
import math

from sa.loader import AnalysisBroken
from sa.values import AV, AVU, C, IV
from .effects import Rec, snap, sweep

GROW = {'append', 'add', 'extend', 'insert', 'update', 'appendleft', 'put', 'setdefault', 'push', 'extendleft', 'put_nowait'}
SHRINK = {'pop', 'popleft', 'remove', 'discard', 'popitem', 'clear', 'get', 'get_nowait', 'difference_update', 'intersection_update'}
COPIES = {'tuple', 'list', 'set', 'frozenset', 'sorted', 'deque', 'dict', 'copy', 'deepcopy', 'array', 'reversed', 'asarray', 'unique'}
SIZES = {'size', 'len', 'count_nonzero', 'qsize', 'empty', 'cardinality'}
NUMERIC = {'abs', 'fabs', 'absolute', 'amax', 'max', 'amin', 'min', 'allclose', 'isclose', 'sum', 'mean', 'norm', 'dot', 'sqrt', 'log', 'exp', 'array_equal', 'any', 'all', 'linalg', 'square', 'maximum',
           'minimum', 'round', 'diff', 'var', 'std', 'trace', 'isfinite', 'isnan', 'gcd', 'lcm', 'prod', 'floor', 'ceil', 'fmod', 'remainder', 'mod', 'divmod', 'pow', 'power', 'cumsum', 'matrix_rank', 'eig', 'eigvals', 'solve', 'inv', 'det', 'matmul', 'ptp', 'equal'}
DRAWS = {'random', 'choice', 'integers', 'uniform', 'normal', 'randint', 'rand', 'dirichlet', 'multinomial', 'permutation', 'shuffle', 'sample', 'standard_normal', 'random_sample', 'binomial', 'poisson', 'beta'}
UNIONS = {'union', 'union1d', 'append', 'concatenate', 'hstack', 'vstack', 'chain'}
MINUS = {'difference', 'setdiff1d'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
LOOPS = (ast.For, ast.While)


def inner(node):
    """every node below, without entering nested functions"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, FUNCS):
            stack.extend(ast.iter_child_nodes(n))


def body_nodes(loop):
    for s in loop.body:
        yield s
        yield from inner(s)


def fname(call):
    f = call.func
    return f.attr if isinstance(f, ast.Attribute) else f.id.lstrip('_') if isinstance(f, ast.Name) else ''


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)
    else:
        yield t


def constant(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)):
        return -e.operand.value if isinstance(e.op, ast.USub) else e.operand.value
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    return None


def ident(e):
    """the storage an expression names: a variable, or an attribute of self"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return f'{e.value.id}.{e.attr}'
    return None


class Loop:
    def __init__(self, fi, node, infinite=False):
        self.fi = fi
        self.node = node
        self.infinite = infinite
        self.writes = {}        # name -> [(statement, value expression or None, how)]
        self.grown = {}         # name -> [statement or call]
        self.shrunk = {}
        for n in body_nodes(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            for x in targets(a):
                                self.write(x, n, b, 'set' if x is a else 'part')
                    else:
                        for x in targets(t):
                            self.write(x, n, n.value, 'set' if x is t else 'part')
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.write(n.target, n, n.value, 'set')
            elif isinstance(n, ast.AugAssign):
                self.write(n.target, n, n, 'aug')
            elif isinstance(n, ast.NamedExpr):
                self.write(n.target, n, n.value, 'set')
            elif isinstance(n, ast.For):
                for x in targets(n.target):
                    self.write(x, n, n.iter, 'iter')
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        for x in targets(i.optional_vars):
                            self.write(x, n, i.context_expr, 'part')
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    b = t.value if isinstance(t, ast.Subscript) else t
                    if ident(b):
                        self.shrunk.setdefault(ident(b), []).append(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ident(n.func.value):
                v = ident(n.func.value)
                if n.func.attr in GROW:
                    self.grown.setdefault(v, []).append(n)
                elif n.func.attr in SHRINK:
                    self.shrunk.setdefault(v, []).append(n)
        if isinstance(node, ast.For):
            for x in targets(node.target):
                self.write(x, node, node.iter, 'iter')
        for d in (self.grown, self.shrunk):
            for m in fi.module.repo_aliases & set(d):
                del d[m]

    def write(self, t, stmt, value, how):
        if isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if ident(b):
                self.grown.setdefault(ident(b), []).append(stmt)
            return
        v = ident(t)
        if v is None:
            return
        self.writes.setdefault(v, []).append((stmt, value, how))
        e = value
        if how == 'aug' and (isinstance(value.op, ast.BitOr) or isinstance(value.op, ast.Add) and self.listlike(v, value.value)):
            self.grown.setdefault(v, []).append(stmt)
        elif how == 'aug' and isinstance(value.op, (ast.Sub, ast.BitAnd)) and constant(value.value) is None and (isinstance(value.op, ast.BitAnd) or self.setlike(value.value) or self.listlike(v, value.value)):
            self.shrunk.setdefault(v, []).append(stmt)
        elif how == 'set' and isinstance(e, ast.Call) and fname(e) in UNIONS and v in {ident(a) for a in e.args} | {ident(e.func.value) if isinstance(e.func, ast.Attribute) else None} | \
                {ident(x) for a in e.args if isinstance(a, (ast.Tuple, ast.List)) for x in a.elts}:
            self.grown.setdefault(v, []).append(stmt)
        elif how == 'set' and isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.Add)) and v in (ident(e.left), ident(e.right)) and constant(e.left) is None and constant(e.right) is None:
            self.grown.setdefault(v, []).append(stmt)
        elif how == 'set' and isinstance(e, ast.Call) and fname(e) == 'delete' and e.args and ident(e.args[0]) == v:
            self.shrunk.setdefault(v, []).append(stmt)
        elif how == 'set' and isinstance(e, ast.Subscript) and ident(e.value) == v and isinstance(e.slice, ast.Slice):
            self.shrunk.setdefault(v, []).append(stmt)

    # -- paths ------------------------------------------------------------------------------------------------------------------------------------------------------------
    def always(self, pred):
        """does every path from the head of the loop back to it pass a statement satisfying the predicate?"""
        back = []

        def flow(stmts, state):
            for s in stmts:
                if not state:
                    return state
                if pred(s):
                    state = {True}
                if isinstance(s, (ast.Return, ast.Raise)):
                    return set()
                if isinstance(s, ast.Break):
                    out[-1] |= state
                    return set()
                if isinstance(s, ast.Continue):
                    cont[-1] |= state
                    return set()
                if isinstance(s, ast.If):
                    t = truth(s.test)
                    a = flow(s.body, set(state)) if t is not False else set()
                    b = flow(s.orelse, set(state)) if t is not True else set()
                    state = a | b
                elif isinstance(s, LOOPS):
                    cont.append(set())
                    out.append(set())
                    st = set(state)
                    r = flow(s.body, set(state))
                    st |= r | cont.pop()
                    if isinstance(s, ast.While) and truth(s.test) is True:
                        st = set()
                    st = flow(s.orelse, st) if s.orelse else st
                    state = st | out.pop()
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    state = flow(s.body, state)
                elif isinstance(s, ast.Try):
                    a = flow(s.body, set(state))
                    h = set()
                    for x in s.handlers:
                        h |= flow(x.body, state | a)
                    a = flow(s.orelse, a) if s.orelse else a
                    state = a | h
                    if s.finalbody:
                        state = flow(s.finalbody, state)
            return state
        cont, out = [set()], [set()]
        end = flow(self.node.body, {False})
        back = end | cont[0]
        return False not in back

    def exits(self):
        """[(expression, value of it that ends the loop, guard statement or None)]"""
        r = []
        if isinstance(self.node, ast.While) and truth(self.node.test) is not True:
            r += self.split(self.node.test, False, None)

        def leaves(stmts, depth):
            """does the block certainly leave this loop?"""
            for s in stmts:
                if isinstance(s, (ast.Return, ast.Raise)):
                    return True
                if isinstance(s, ast.Break):
                    return depth == 0
                if isinstance(s, ast.Continue):
                    return False
                if isinstance(s, ast.If) and leaves(s.body, depth) and leaves(s.orelse, depth):
                    return True
                if isinstance(s, ast.With) and leaves(s.body, depth):
                    return True
            return False

        def walk(stmts, depth):
            for s in stmts:
                if isinstance(s, ast.If):
                    if leaves(s.body, depth):
                        r.extend(self.split(s.test, True, s))
                    if leaves(s.orelse, depth):
                        r.extend(self.split(s.test, False, s))
                    walk(s.body, depth)
                    walk(s.orelse, depth)
                elif isinstance(s, LOOPS):
                    walk(s.body, depth + 1)
                    walk(s.orelse, depth)
                elif isinstance(s, ast.Try):
                    for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                        walk(b, depth)
                elif isinstance(s, ast.With):
                    walk(s.body, depth)
        walk(self.node.body, 0)
        return r

    def split(self, e, value, guard):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.split(e.operand, not value, guard)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) is not value:
            return [x for o in e.values for x in self.split(o, value, guard)]
        if isinstance(e, ast.Call) and fname(e) == 'bool' and len(e.args) == 1:
            return self.split(e.args[0], value, guard)
        return [(e, value, guard)]

    # -- reasons to end ---------------------------------------------------------------------------------------------------------------------------------------------------
    def counter(self, e, value, guard):
        """None: not a counter; otherwise (proved, text)"""
        if not isinstance(e, ast.Compare) or len(e.ops) != 1:
            return None
        a, b, op = e.left, e.comparators[0], type(e.ops[0])
        for v, bound, o in ((a, b, op), (b, a, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op))):
            v = ident(v)
            ws = self.writes.get(v)
            if v is None or not ws:
                continue
            steps = [self.step(v, val, how) for _, val, how in ws]
            if not any(s is not None for s in steps):
                continue
            if any(s is None for s in steps):
                return False, f'{v} is also set to something else in the loop'
            if len({s > 0 for s in steps}) > 1 or 0 in steps:
                return False, f'{v} is counted both up and down'
            moving = [x for x in names(bound) if x in self.writes or x in self.grown]
            if moving:
                q = self.collections(bound)
                if steps[0] < 0 or q is None or q != set(moving) or any(x in self.shrunk or x in self.writes for x in q):
                    return None
                rs = [self.search(x, 'set') for x in sorted(q)]
                if None in rs:
                    return None
                if not all(r[0] for r in rs):
                    return next(r for r in rs if not r[0])
            up = steps[0] > 0
            # the operator that holds when the loop ends
            neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            end = o if value else neg.get(o)
            good = {ast.Gt, ast.GtE} if up else {ast.Lt, ast.LtE}
            if end is ast.Eq:
                if any(abs(s) != 1 for s in steps) or len(steps) > 1:
                    return None
            elif end not in good:
                return False, f'{v} moves away from the bound'
            stmts = [s for s, _, _ in ws]
            if not self.always(lambda s: s in stmts or isinstance(s, ast.Expr) and s.value in stmts):
                return False, f'{v} is not advanced on every path'
            if guard is not None and not self.always(lambda s: s is guard):
                return False, f'the test of {v} is not reached in every round'
            return True, f'{v} is advanced in every round towards {ast.unparse(bound)}'
        return None

    def step(self, v, value, how):
        if how == 'aug' and isinstance(value.op, (ast.Add, ast.Sub)):
            c = constant(value.value)
            return None if c is None else c if isinstance(value.op, ast.Add) else -c
        if how == 'set' and isinstance(value, ast.BinOp) and isinstance(value.op, (ast.Add, ast.Sub)):
            if ident(value.left) == v:
                c = constant(value.right)
                return None if c is None else c if isinstance(value.op, ast.Add) else -c
            if ident(value.right) == v and isinstance(value.op, ast.Add):
                return constant(value.left)
        return None

    def collections(self, e, seen=()):
        """the collections whose emptiness, size or truth decides the expression"""
        v = ident(e)
        if isinstance(e, ast.Attribute) and e.attr in SIZES and ident(e.value):
            return self.collections(e.value, seen)
        if isinstance(e, ast.Call):
            if fname(e) in SIZES | {'any', 'bool'} and e.args and ident(e.args[0]):
                return self.collections(e.args[0], seen)
            if isinstance(e.func, ast.Attribute) and e.func.attr in SIZES and ident(e.func.value):
                return self.collections(e.func.value, seen)
            return None
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and ident(e.value.value):
            return self.collections(e.value.value, seen)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = e.left, e.comparators[0]
            for x, y in ((a, b), (b, a)):
                if constant(y) is not None and isinstance(constant(y), int) and not isinstance(x, ast.Constant):
                    return self.collections(x, seen)
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.collections(e.operand, seen)
        if v is None or v in seen:
            return None
        if v in self.grown or v in self.shrunk:
            return {v}
        ws = self.writes.get(v, ())
        r = set()
        for s, val, how in ws:
            if how != 'set':
                return None
            if isinstance(val, (ast.List, ast.Tuple, ast.Set, ast.ListComp, ast.SetComp)) or isinstance(val, ast.Call) and fname(val) in COPIES or isinstance(val, ast.BinOp) and \
                    isinstance(val.op, (ast.Sub, ast.BitAnd, ast.BitOr)) and constant(val.right) is None and self.setlike(val):
                r.add(v)
                continue
            c = self.collections(val, (*seen, v))
            if c is None:
                return None
            r |= c
        return r or None

    def fills(self, e, value):
        """does the loop end when a collection is large enough?  None | (collection, bound)"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            op = type(e.ops[0])
            for a, b, o in ((e.left, e.comparators[0], op), (e.comparators[0], e.left, flip.get(op, op))):
                sized = isinstance(a, ast.Call) and fname(a) in SIZES or isinstance(a, ast.Attribute) and a.attr in SIZES
                c = self.collections(a) if sized else None
                end = o if value else neg.get(o)
                if c and len(c) == 1 and (end in (ast.Gt, ast.GtE) or end is ast.Eq and constant(b) != 0 or end is ast.NotEq and constant(b) == 0):
                    return next(iter(c)), b
            return None
        c = self.collections(e) if value else None
        return (next(iter(c)), None) if c and len(c) == 1 else None

    def setlike(self, e):
        return any(isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and fname(n) in ('set', 'frozenset') for n in ast.walk(e)) or \
            any(self.initial(x, lambda q: isinstance(q, (ast.Set, ast.SetComp)) or isinstance(q, ast.Call) and fname(q) in ('set', 'frozenset')) for x in names(e))

    def listlike(self, v, e):
        def made(x):
            return isinstance(x, (ast.List, ast.Tuple, ast.ListComp, ast.Set, ast.SetComp)) or isinstance(x, ast.Call) and fname(x) in ('list', 'tuple', 'sorted', 'deque', 'set', 'frozenset')
        return made(e) or self.initial(v, made)

    def tabular(self, v):
        """a collection, not an array of numbers"""
        def made(x):
            return isinstance(x, (ast.Dict, ast.DictComp)) or isinstance(x, ast.Call) and fname(x) in ('dict', 'defaultdict', 'fromkeys')
        for s in [*self.grown.get(v, ()), *self.shrunk.get(v, ())]:
            if not isinstance(s, (ast.Assign, ast.AugAssign)) or v in {ident(t) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])}:
                return True
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, bool):
                return True
        return self.initial(v, made)

    def initial(self, v, pred):
        for n in inner(self.fi.node):
            if isinstance(n, ast.Assign) and any(ident(t) == v for t in n.targets) and pred(n.value):
                return True
        return False

    def flag(self, e):
        v = ident(e)
        ws = self.writes.get(v)
        if v and ws and any(h == 'set' and isinstance(x, ast.Constant) and isinstance(x.value, bool) for _, x, h in ws):
            return v
        return None

    def fresh(self, m):
        """is the collection emptied in every round?"""
        ws = [(s, x) for s, x, h in self.writes.get(m, ()) if h == 'set' and (isinstance(x, (ast.List, ast.Set, ast.Dict)) and not getattr(x, 'elts', getattr(x, 'keys', None)) or isinstance(x, ast.Call) and not x.args and
                                                                         fname(x) in ('set', 'list', 'dict', 'deque'))]
        return bool(ws)

    def controls(self, stmt):
        """conditions under which a statement of the loop is executed"""
        n = stmt
        while n is not self.node:
            p = n._parent
            if isinstance(p, ast.If) and n is not p.test:
                yield p.test
            if isinstance(p, ast.comprehension):
                yield from p.ifs
            if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in p.generators:
                    yield from g.ifs
            if isinstance(p, ast.IfExp) and n is not p.test:
                yield p.test
            if isinstance(p, ast.BoolOp):
                yield from [x for x in p.values if x is not n]
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    for s in b[:b.index(n)]:
                        if isinstance(s, ast.If) and any(isinstance(x, (ast.Continue, ast.Break)) for x in [*s.body, *s.orelse]):
                            yield s.test
            n = p

    def loops_over(self, stmt):
        n = stmt
        while n is not self.node:
            p = n._parent
            if isinstance(p, ast.For) and n is not p.iter:
                yield p.iter
            n = p

    def excludes(self, e, own, it=False, seen=()):
        """does the expression leave out what a collection that grows in this loop already holds? None when that is not visible (a call of the library)"""
        good = {m for m in self.grown if not self.fresh(m) and (m not in own or m not in self.shrunk and not any(h == 'set' for _, _, h in self.writes.get(m, ())))}
        unknown = False

        def walk(x, it, seen):
            nonlocal unknown
            v = ident(x)
            if v is not None:
                if v in good and not it:
                    return True
                if v not in seen:
                    for s, val, how in self.writes.get(v, ()):
                        if how == 'aug':
                            val = val.value
                        if walk(val, it or how == 'iter', (*seen, v)):
                            return True
                return isinstance(x, ast.Attribute) and walk(x.value, it, seen)
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub):
                return walk(x.left, it, seen) or walk(x.right, False, seen)
            if isinstance(x, ast.Call):
                n = fname(x)
                if n in MINUS:
                    args = list(x.args)
                    first = x.func.value if isinstance(x.func, ast.Attribute) and n == 'difference' else args.pop(0) if args else None
                    return (first is not None and walk(first, it, seen)) or any(walk(a, False, seen) for a in args)
                if self.library(x):
                    unknown = True
                    return any(walk(a, False, seen) for a in x.args)
                if n == 'filter' and x.args:
                    return walk(x.args[0], False, seen) or any(walk(a, it, seen) for a in x.args[1:])
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in x.generators:
                    if any(walk(c, False, seen) for c in g.ifs) or walk(g.iter, True, seen):
                        return True
                return False
            if isinstance(x, ast.Lambda):
                return walk(x.body, it, seen)
            return any(walk(c, it, seen) for c in ast.iter_child_nodes(x) if isinstance(c, ast.expr))
        if walk(e, it, seen):
            return True
        return None if unknown else False

    def library(self, call):
        """the function of the library a call refers to"""
        f = call.func
        if isinstance(f, ast.Name):
            q = f.id
            for o in self.fi.module.repo_functions:
                if o.node.name == q if isinstance(o.node, ast.FunctionDef) else False:
                    return o
            return self.fi.module.repo_lookup(q)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls'):
            for o in self.fi.module.repo_functions:
                if isinstance(o.node, ast.FunctionDef) and o.node.name == f.attr:
                    return o
        return None

    def search(self, v, what, value=None):
        """a collection that is worked off, or a flag that says that something new was found"""
        ups = []
        seen = set()

        def gather(x):
            if x in seen:
                return
            seen.add(x)
            ups.extend(self.grown.get(x, ()))
            for s, val, how in self.writes.get(x, ()):
                if what == 'flag':
                    if how == 'set' and isinstance(val, ast.Constant):
                        if bool(val.value) is value:
                            ups.append(s)
                    else:
                        ups.append(s)
                elif how == 'set':
                    if isinstance(val, (ast.List, ast.Tuple, ast.Set, ast.Dict)) and not getattr(val, 'elts', getattr(val, 'keys', None)) or isinstance(val, ast.Call) and fname(val) in COPIES and not val.args:
                        continue
                    inner_ = val.args[0] if isinstance(val, ast.Call) and fname(val) in COPIES and val.args else val
                    if ident(inner_) and ident(inner_) != x:
                        gather(ident(inner_))
                    elif s not in self.shrunk.get(x, ()) and s not in self.grown.get(x, ()):
                        ups.append(s)
                elif how == 'part':
                    ups.append(s)
        gather(v)
        if what == 'flag' and not ups:
            return True, f'{v} is never set again'
        if what == 'set' and not ups:
            sh = self.shrunk.get(v, ())
            if sh and self.always(lambda s: any(x is s or any(y is x for y in inner(s) if not isinstance(s, (ast.If, ast.Try) + LOOPS)) for x in sh)):
                return True, f'{v} shrinks in every round'
            return None
        own = seen if what == 'set' else {v}
        sure = True
        for u in ups:
            val = None
            if isinstance(u, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
                val = u.value
            elif isinstance(u, ast.Call):
                val = ast.Tuple(elts=list(u.args), ctx=ast.Load())
            got = [self.excludes(c, own) for c in self.controls(u)]
            got += [self.excludes(i, own, True) for i in self.loops_over(u)]
            if val is not None:
                got.append(self.excludes(val, own))
            if True in got:
                continue
            if None in got:
                sure = False
                continue
            return False, f'what {v} depends on can be found again and again (line {u.lineno}): nothing that grows in the loop rules it out'
        return (True, f'{v} only takes in what was not met before') if sure else None

    def fixpoint(self, e):
        """sizes of one collection in successive rounds"""
        if not isinstance(e, ast.Compare) or len(e.ops) != 1:
            return None
        vs = [ident(e.left), ident(e.comparators[0])]
        roots = set()
        for v in vs:
            for s, val, how in self.writes.get(v, ()):
                if how != 'set':
                    return None
                if ident(val) in vs:
                    continue
                c = self.collections(val)
                if isinstance(val, ast.Attribute) and val.attr in SIZES and ident(val.value):
                    c = {ident(val.value)}
                elif isinstance(val, ast.Call) and fname(val) in SIZES and val.args and ident(val.args[0]):
                    c = {ident(val.args[0])}
                if not c:
                    return None
                roots |= c
        return bool(roots) or None

    def kind(self, e, seen=()):
        """numeric | random | still | unknown: what an exit condition is computed from"""
        r = set()

        def walk(x, seen):
            if isinstance(x, ast.Constant):
                if isinstance(x.value, float):
                    r.add('numeric')
                return
            if isinstance(x, ast.Name) or ident(x):
                v = ident(x)
                if v in seen:
                    return
                for s, val, how in self.writes.get(v, ()):
                    r.add('moves')
                    if how != 'iter':
                        walk(val.value if how == 'aug' else val, (*seen, v))
                if (v in self.grown or v in self.shrunk) and self.tabular(v):
                    r.update(('moves', 'set'))
                if isinstance(x, ast.Attribute):
                    if x.attr in SIZES:
                        r.add('set')
                    walk(x.value, seen)
                return
            if isinstance(x, ast.Subscript):
                walk(x.value, seen)
                return
            if isinstance(x, ast.BinOp):
                r.add('set' if isinstance(x.op, (ast.BitOr, ast.BitAnd)) else 'arith')
            if isinstance(x, (ast.SetComp, ast.ListComp, ast.Set)):
                r.add('set')
            if isinstance(x, ast.Call):
                n = fname(x)
                lib = self.library(x)
                if lib is not None:
                    r.add('moves')
                    if self.numeric_callee(lib):
                        r.add('numeric')
                    else:
                        r.add('opaque')
                elif n in UNIONS | MINUS | SIZES | {'set', 'frozenset', 'unique', 'flatnonzero', 'nonzero', 'argwhere', 'intersect1d', 'in1d', 'isin'}:
                    r.add('set')
                elif n in DRAWS:
                    r.add('random')
                elif n in NUMERIC:
                    r.add('numeric')
                elif n not in COPIES and n not in SIZES and n not in ('float', 'int', 'bool', 'range', 'zip', 'enumerate', 'transpose', 'ravel', 'reshape', 'ones', 'zeros', 'diag', 'eye'):
                    r.add('opaque')
            for c in ast.iter_child_nodes(x):
                if isinstance(c, ast.expr):
                    walk(c, seen)
        walk(e, ())
        if 'random' in r:
            return 'random'
        if 'set' in r:
            return 'unknown'
        if 'numeric' in r or 'arith' in r and any(isinstance(n, ast.Constant) and isinstance(n.value, float) for n in ast.walk(e)):
            return 'numeric'
        if 'moves' not in r and 'opaque' not in r:
            return 'still'
        return 'unknown'

    def numeric_callee(self, fi, depth=3):
        body = fi.node.body if isinstance(fi.node.body, list) else [fi.node.body]
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and fname(n) in ('allclose', 'isclose', 'abs', 'fabs', 'norm', 'amax', 'log', 'sqrt', 'array_equal'):
                    return True
                if isinstance(n, ast.Compare) and any(isinstance(c, ast.Constant) and isinstance(c.value, float) for c in [n.left, *n.comparators]):
                    return True
        return False

    def decide(self):
        """(status, text)"""
        ex = self.exits()
        if not ex:
            for n in body_nodes(self.node):
                if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Yield, ast.YieldFrom, ast.Await)):
                    return 'unknown', 'left without a condition that the analysis can see'
                if isinstance(n, ast.Try):
                    return 'unknown', 'left by an exception'
            return 'violated', 'there is no way out of the loop'
        why, unknown = [], False
        for e, value, guard in ex:
            c = self.counter(e, value, guard)
            if c is not None:
                if c[0]:
                    return 'ok', c[1]
                why.append(c[1])
                continue
            q = self.fills(e, value)
            if q is not None:
                c, bound = q
                g = self.grown.get(c, ())
                ups = [s for s in g if isinstance(s, ast.Call) and s.func.attr in ('append', 'appendleft', 'insert', 'put', 'push')]
                if bound is not None and ups and c not in self.shrunk and c not in self.writes and not any(x in self.writes or x in self.grown for x in names(bound)) and \
                        self.always(lambda s: any(isinstance(s, ast.Expr) and s.value is u for u in ups)) and (guard is None or self.always(lambda s: s is guard)):
                    return 'ok', f'{c} grows in every round until it has {ast.unparse(bound)} elements'
                if not g and c not in self.writes:
                    why.append(f'{c} has to grow for the loop to end, and does not')
                else:
                    unknown = True
                continue
            f = self.flag(e)
            cols = None if f else self.collections(e)
            s = None
            if f:
                s = self.search(f, 'flag', not value)
            elif cols and (guard is None or self.always(lambda x: x is guard)):
                rs = [self.search(v, 'set') for v in sorted(cols)]
                s = None if None in rs else (all(r[0] for r in rs), '; '.join(r[1] for r in rs if r[0] is all(q[0] for q in rs)))
            if s is not None:
                if s[0]:
                    return 'ok', s[1]
                why.append(s[1])
                continue
            if f or cols:
                unknown = True
                continue
            if self.fixpoint(e):
                return 'ok', f'{ast.unparse(e)}: the successive sizes of one collection'
            ks = [self.kind(o) for o in e.values] if isinstance(e, ast.BoolOp) else [self.kind(e)]
            k = next((x for x in ks if x in ('numeric', 'random')), 'still' if set(ks) == {'still'} else 'unknown')
            if k == 'unknown':
                unknown = True
            else:
                why.append({'numeric': f'{ast.unparse(e)} is a numerical condition that may never be met', 'random': f'{ast.unparse(e)} waits for a random draw',
                            'still': f'{ast.unparse(e)} does not change in the loop'}[k])
        if unknown:
            return 'unknown', '; '.join(why) or 'no reason found'
        return 'violated', '; '.join(dict.fromkeys(why))


def truth(e):
    return bool(e.value) if isinstance(e, ast.Constant) else None


def endless(it):
    """an iterator without end"""
    if not isinstance(it, ast.Call):
        return False
    n = fname(it)
    if n in ('enumerate', 'zip', 'map', 'iter') and it.args:
        return endless(it.args[-1] if n == 'map' else it.args[0]) and (n != 'zip' or all(endless(a) for a in it.args))
    root = it.func
    while isinstance(root, ast.Attribute):
        root = root.value
    std = isinstance(root, ast.Name) and root.id.lstrip('_') in ('it', 'itertools', n)
    return std and (n in ('count', 'cycle') or n == 'repeat' and len(it.args) == 1 and not it.keywords)


def recursion(fi, call):
    """(status, text) for a call by which a function calls itself"""
    node = fi.node
    args = {p: a for p, a in zip(fi.params, call.args)}
    args.update({k.arg: k.value for k in call.keywords if k.arg})
    moved = {}
    for p, a in args.items():
        if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Add, ast.Sub)) and ident(a.left) == p and constant(a.right) is not None:
            c = constant(a.right)
            moved[p] = c if isinstance(a.op, ast.Add) else -c
        elif ident(a) == p:
            moved[p] = 0
        else:
            moved[p] = None
    base = []
    for n in inner(node):
        if isinstance(n, (ast.If, ast.IfExp)):
            inside = [any(c is call for s in (b if isinstance(b, list) else [b]) for c in [s, *inner(s)]) for b in (n.body, n.orelse)]
            ends = isinstance(n, ast.If) and any(isinstance(s, (ast.Return, ast.Raise)) for s in n.body) and not inside[0] and n.lineno < call.lineno
            if True in inside or ends:
                base.append((n.test, inside[0] if True in inside else False))
    if not base:
        return 'violated', 'no condition stops the recursion'
    texts = []
    for t, when in base:
        ps = names(t) & set(fi.params)
        for p in ps:
            m = moved.get(p)
            if m is None:
                return 'unknown', f'{p} changes in a way the analysis does not follow'
            if m == 0:
                texts.append(f'{p} is passed on unchanged')
                continue
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and ident(t.left) == p and constant(t.comparators[0]) is not None:
                op = type(t.ops[0])
                neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
                end = neg.get(op) if when else op
                if end is ast.Eq:
                    return ('ok', f'{p} is passed on by steps of {m}', p, constant(t.comparators[0]), m) if abs(m) == 1 else ('unknown', f'{p} may step over the last value')
                if end in ({ast.Lt, ast.LtE} if m < 0 else {ast.Gt, ast.GtE}):
                    return 'ok', f'{p} is passed on by steps of {m}'
                texts.append(f'{p} moves away from the value that ends the recursion')
            else:
                return 'unknown', f'the recursion ends on {ast.unparse(t)}'
        if not ps:
            loc = names(t)
            if loc:
                return 'unknown', f'the recursion ends on {ast.unparse(t)}'
    return 'violated', '; '.join(texts) or 'no condition on the arguments stops the recursion'


class Depth(Rec):
    """the values with which a recursive function is entered from outside"""
    target = None

    def __init__(self):
        super().__init__()
        self.seen = []

    def call_repo(self, st, node, fi, args, kwargs, selfatom):
        I = self.world.I
        if fi is self.target[0]:
            if not any(x.fi is fi for x in I.frames):
                p = self.target[1]
                v = kwargs.get(p) if isinstance(kwargs, dict) and p in kwargs else args[fi.params.index(p)] if len(args) > fi.params.index(p) else None
                if v is not None:
                    self.seen.append((I.loc(node), v, st))
            return [(st, AVU)]
        return None


def entered(ctx, fi, param, last, step):
    """is the recursion entered with a value on the right side of the one that ends it?"""
    names_ = {fi.node.name}
    while True:
        new = {f.node.name for f in ctx.repo.all_functions if isinstance(f.node, ast.FunctionDef) and f.node.name not in names_ and
               any(isinstance(n, ast.Name) and n.id.lstrip('_') in {x.lstrip('_') for x in names_} or isinstance(n, ast.Attribute) and n.attr in names_ or isinstance(n, ast.FunctionDef) and n.name in names_
                   for n in ast.walk(f.node) if n is not f.node)}
        for m in ctx.repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.alias) and n.asname and n.name in names_ and n.asname not in names_:
                    new.add(n.asname)
        if not new:
            break
        names_ |= new
    Depth.target = (fi, param)
    good = bad = unk = 0

    for atom in (lambda k: IV(k, -math.inf, last) if step < 0 else IV(k, last, math.inf)), (lambda k: C(last + step if k == 'int' else float(last + step))):
        def number(w, f, p):
            a = f.node.args
            ann = next((x.annotation for x in [*a.posonlyargs, *a.args, *a.kwonlyargs] if x.arg == p), None)
            if isinstance(ann, ast.Name) and ann.id in ('int', 'float'):
                return AV({atom(ann.id)}, frozenset({'arg:' + p}))
            return w.rich(p)
        for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Depth, arg=number, only=lambda e: e.fi.node.name in names_):
            for where, v, st in c.seen:
                for a in v.atoms:
                    if a[0] == 'iv' and st.flags & {'undet', 'imprecise'} or a[0] not in ('c', 'iv') or a[0] == 'c' and not isinstance(a[2], (int, float)):
                        unk += 1
                    elif (a[-1] < last or a[0] == 'iv' and a[-1] <= last) if step < 0 else (a[2] > last or a[0] == 'iv' and a[2] >= last):
                        bad += 1
                        ctx.violation(f'{fi.ident}:entry', f'{e.name} enters {fi.qualname} at {where} with {param} {"below" if step < 0 else "above"} {last}, the only value that ends its recursion', fi.loc())
                    else:
                        good += 1
    ctx.ob(f'{fi.qualname} is entered with values of {param} from which {last} is reached', 'violated' if bad else 'unknown' if unk else 'ok', f'{good} known, {unk} unknown')


def termination(ctx):
    ctx.rule = ('Every loop without a fixed range and every function that calls itself is given a reason to end, read off its control flow and its loop-carried dependences: a counter that every path back to the head '
                'advances towards a bound that the loop leaves alone and that is tested in every round; a collection that is worked off and takes in only what a growing collection rules out having met; a flag set under '
                'such a condition; the successive sizes of one collection. A loop whose only ways out are numerical or random conditions, a counter that some path does not advance, or a search that may come '
                'back to what it met is a violation; a loop whose conditions the analysis cannot follow is counted as undecided.')
    repo = ctx.repo
    for m in repo.modules.values():
        m.repo_aliases = {(a.asname or a.name).split('.')[0] for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        m.repo_functions = [f for f in repo.all_functions if f.module is m]

        def lookup(q, m=m):
            try:
                r = repo.resolve_name(m, q)
            except AnalysisBroken:
                raise
            except Exception:
                return None
            if r is None:
                return None
            for x in (r if isinstance(r, tuple) else (r,)):
                if hasattr(x, 'qualname') and hasattr(x, 'node'):
                    return x
            return None
        m.repo_lookup = lookup
    loops = rec = ranges = 0
    for fi in repo.all_functions:
        if not isinstance(fi.node, ast.FunctionDef):
            continue
        for n in inner(fi.node):
            if isinstance(n, ast.While) or isinstance(n, ast.For) and endless(n.iter):
                loops += 1
                lp = Loop(fi, n, isinstance(n, ast.For))
                status, text = lp.decide()
                key = f'{fi.ident}:{"while" if isinstance(n, ast.While) else "for"}'
                ctx.ob(f'{fi.loc(n)} {fi.qualname}: {text}', status, text)
                if status == 'violated':
                    ctx.violation(key, f'the loop in {fi.qualname} has no bound: {text}', fi.loc(n))
            elif isinstance(n, ast.For):
                ranges += 1
                v = ident(n.iter)
                if v and '.' not in v:
                    lp = Loop(fi, n)
                    if any(isinstance(g, ast.Call) and ident(g.func.value) == v for g in lp.grown.get(v, ())) and not any(h == 'set' for _, _, h in lp.writes.get(v, ())):
                        s = lp.search(v, 'set')
                        st = 'unknown' if s is None else 'ok' if s[0] else 'violated'
                        if st == 'violated' and any(isinstance(x, (ast.Break, ast.Return)) for x in body_nodes(n)):
                            st = 'unknown'
                        ctx.ob(f'{fi.loc(n)} {fi.qualname}: {v} grows while it is iterated', st)
                        if st == 'violated':
                            ctx.violation(f'{fi.ident}:for {v}', f'{fi.qualname} iterates {v} while {s[1]}', fi.loc(n))
            elif isinstance(n, ast.Call) and isinstance(fi.node, ast.FunctionDef):
                own = isinstance(n.func, ast.Name) and n.func.id == fi.node.name or isinstance(n.func, ast.Attribute) and n.func.attr == fi.node.name and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self'
                if own and fi.cls is not None and isinstance(n.func, ast.Name):
                    own = False
                if own:
                    rec += 1
                    r = recursion(fi, n)
                    ctx.ob(f'{fi.loc(n)} {fi.qualname} calls itself: {r[1]}', r[0], r[1])
                    if len(r) > 2:
                        entered(ctx, fi, *r[2:])
                    if r[0] == 'violated':
                        ctx.violation(f'{fi.ident}:recursion', f'{fi.qualname} calls itself without an end: {r[1]}', fi.loc(n))
    ctx.count('loops over a fixed range', ranges)
    ctx.count('loops', loops)
    ctx.count('recursive calls', rec)
    ctx.floor('loops', loops + ranges, 150)
