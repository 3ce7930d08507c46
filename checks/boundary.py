"""The library's boundary: files, processes, process-wide settings, figures, exceptions."""
import ast
import re

from sa.interp import Client
from sa.loader import AnalysisBroken
from sa.values import *
from sa.values import AV
from sa.world import World, entries
from .effects import sweep, snap

OUTPUT = {'builtins.print': 'prints', 'builtins.input': 'reads from the terminal', 'builtins.exec': 'executes text', 'builtins.eval': 'executes text', 'builtins.breakpoint': 'stops in a debugger'}
SETTINGS = ('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings', 'numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.set_string_function',
            'matplotlib.use', 'matplotlib.rc', 'matplotlib.rcdefaults', 'matplotlib.rc_file', 'matplotlib.style.use', 'matplotlib.pyplot.rc', 'matplotlib.pyplot.rcdefaults', 'matplotlib.pyplot.style',
            'matplotlib.pyplot.switch_backend', 'matplotlib.pyplot.set_cmap', 'matplotlib.pyplot.xkcd', 'pandas.set_option', 'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.environ', 'locale.setlocale',
            'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile', 'sys.setswitchinterval', 'gc.disable', 'gc.enable', 'gc.collect', 'gc.freeze', 'signal.', 'atexit.', 'logging.basicConfig', 'logging.disable',
            'decimal.setcontext', 'socket.setdefaulttimeout', 'scipy.special.seterr', 'csv.field_size_limit', 'csv.register_dialect', 'random.seed', 'numpy.random.seed', 'numpy.random.set_state',
            'numpy.random.mtrand._rand.seed', 'numpy.random.mtrand._rand.set_state', 'faulthandler.', 'tracemalloc.', 'importlib.reload', 'xml.etree.ElementTree.register_namespace')
FILES = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs', 'os.truncate', 'os.open', 'os.symlink', 'os.link', 'os.chmod', 'os.chown', 'os.utime', 'os.mkfifo',
         'shutil.', 'tempfile.', 'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt', 'numpy.memmap', 'io.open', 'io.FileIO', 'codecs.open', 'pickle.', 'shelve.', 'sqlite3.', 'dbm.', 'gzip.open',
         'zipfile.', 'tarfile.', 'matplotlib.pyplot.savefig', 'matplotlib.pyplot.imsave', 'networkx.write_', 'networkx.drawing.nx_pydot.write_dot', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromfile', 'pandas.read_', 'networkx.read_')
PROCESS = ('subprocess.', 'os.system', 'os.popen', 'os.spawn', 'os.exec', 'os.fork', 'os.kill', 'os.abort', 'os._exit', 'sys.exit', 'builtins.exit', 'builtins.quit', 'multiprocessing.', 'pty.', 'ctypes.', 'webbrowser.')
NETWORK = ('socket.', 'urllib.request', 'http.', 'requests.', 'ftplib.', 'smtplib.', 'asyncio.', 'ssl.')
FILE_METHODS = {'to_csv', 'to_excel', 'to_pickle', 'to_hdf', 'to_feather', 'to_parquet', 'tofile', 'savefig', 'write_text', 'write_bytes', 'unlink', 'mkdir', 'rmdir', 'touch', 'rename', 'symlink_to', 'hardlink_to', 'dump'}
SETTING_STORES = ('numpy.', 'matplotlib.', 'os.environ', 'sys.', 'warnings.', 'networkx.', 'scipy.', 'builtins.')


class Boundary(Client):
    def __init__(self):
        self.ev = {}
        self.opens = {}
        self.calls = 0
        self.managed = set()

    def where(self, node):
        I = self.world.I
        f = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        return I.loc(node), (f.ident if f else '?'), tuple(x.fi.ident for x in I.frames if x.fi is not None)

    def note(self, node, what, name):
        self.ev.setdefault((what, name) + self.where(node), node)

    def ext_call(self, st, node, d, args, kwargs):
        I = self.world.I
        self.calls += 1
        fl = I.flat(args)
        if d in OUTPUT:
            self.note(node, OUTPUT[d], d)
        elif d.startswith(SETTINGS):
            if not any('catch_warnings' in x for x in self.managed):
                self.note(node, 'changes a process-wide setting', d)
        elif d.startswith(FILES) and not d.startswith('os.path'):
            self.note(node, 'touches files outside the import and export operations', d)
        elif d.startswith(NETWORK):
            self.note(node, 'uses the network', d)
        elif d.startswith(PROCESS):
            if not (d in ('subprocess.call', 'subprocess.run', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen') and self.probe(st, fl, kwargs)):
                if d not in ('subprocess.PIPE', 'subprocess.DEVNULL'):
                    self.note(node, 'starts a program or ends the process', d)
        elif d in ('builtins.open', 'io.open'):
            mode = kwargs.get('mode', fl[1] if len(fl) > 1 else avc('r'))
            path = fl[0] if fl else kwargs.get('file', BOT)
            self.opens.setdefault((self.where(node), tuple(sorted(map(str, mode.atoms)))), (mode, I.alldeps(st, path), node))
        return None

    def probe(self, st, fl, kwargs):
        """the availability test of Graphviz: a constant command line whose program is dot"""
        I = self.world.I
        if not fl or 'shell' in kwargs and kwargs['shell'].atoms != {FALSE}:
            return False
        for a in fl[0].atoms:
            if a[0] != 'o':
                return a == C('dot')
            o = I.obj(st, a[1])
            if o is None or o.items is None or not o.items or o.items[0].atoms != {C('dot')}:
                return False
        return True

    def with_item(self, st, node, v):
        self.managed |= {a[1] for a in v.atoms if a[0] == 'ext'}
        if isinstance(node, ast.Call):
            f = ast.unparse(node.func)
            self.managed.add(f)
        for oid in v.oids():
            o = self.world.I.obj(st, oid)
            if o is not None and o.t == 'file':
                st.flags = st.flags - {('open', oid)}

    def after_ext(self, st, node, d, args, kwargs, r):
        if d == 'builtins.open':
            for oid in r.oids():
                st.flags = st.flags | {('open', oid)}

    def method(self, st, node, oid, name, args, kwargs):
        I = self.world.I
        o = I.obj(st, oid)
        if o is None:
            return None
        if o.t == 'file' and name == 'close':
            # a close that an exception can skip leaves the file open
            if in_finally(node) or ('opened-managed', oid) in st.flags:
                st.flags = st.flags - {('open', oid)}
            else:
                st.flags = (st.flags - {('open', oid)}) | {('skip', oid)}
        elif name in FILE_METHODS and o.t in ('ndarray', 'df', 'series', 'any', 'figure') and o.t != 'file':
            self.note(node, 'touches files outside the import and export operations', f'{o.t}.{name}')
        return None

    def store_global(self, st, node, what):
        if what.startswith(SETTING_STORES):
            self.note(node, 'changes a process-wide setting', what)


def in_finally(node):
    p, c = getattr(node, '_parent', None), node
    while p is not None:
        if isinstance(p, ast.Try) and any(c is x for x in p.finalbody):
            return True
        p, c = getattr(p, '_parent', None), p
    return False


def import_time(ctx):
    """what importing the package does: the calls and stores outside functions"""
    n = 0
    for m in ctx.repo.modules.values():
        stack = list(m.tree.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                stack.extend(x.decorator_list if not isinstance(x, ast.Lambda) else [])
                continue
            if isinstance(x, ast.Call):
                n += 1
                r = ctx.repo.resolve_expr(m, x.func)
                d = None if r is None else r[1] if r[0] == 'ext' else f'builtins.{r[1]}' if r[0] == 'builtin' else None
                if d and (d in OUTPUT or d.startswith(SETTINGS + NETWORK + PROCESS) or d == 'builtins.open' or d.startswith(FILES) and not d.startswith('os.path')):
                    ctx.violation(f'{m.name}:import:{d}', f'importing {m.name} calls {d}', f'{m.relpath}:{x.lineno}')
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r = ctx.repo.resolve_expr(m, x.value)
                if r is not None and r[0] == 'ext' and (r[1] + '.').startswith(SETTING_STORES):
                    ctx.violation(f'{m.name}:import:{r[1]}', f'importing {m.name} changes {r[1]}', f'{m.relpath}:{x.lineno}')
            stack.extend(ast.iter_child_nodes(x))
    ctx.count('import-time calls', n)
    ctx.ob('importing the package has no side effect', 'violated' if any(':import:' in k for k in ctx.findings) else 'ok')


def confined(ctx):
    import_time(ctx)
    ctx.rule = ('Every external call reachable from a public operation is enumerated by abstract interpretation and compared with tables of calls that print, change process-wide settings, '
                'touch files, start programs or use the network. Files may be opened by an operation that takes a path only, with that path, to read in an import and to write or probe in an '
                'export, and must be closed on every path (with statement or finally).')
    nopen = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Boundary):
        bad = 0
        prm = list(e.fi.params) + e.fi.kwonly
        for (what, name, loc, fn, stack), node in c.ev.items():
            bad += 1
            ctx.violation(f'{fn}:{name}', f'{e.name} {what} ({name})', loc, stack)
        for ((loc, fn, stack), _), (mode, deps, node) in c.opens.items():
            nopen += 1
            if not any(d.startswith('arg:') for d in deps) or 'file_path' not in prm and not any(p.endswith('path') for p in prm):
                bad += 1
                ctx.violation(f'{fn}:open', f'{e.name} opens a file that its caller did not name', loc, stack)
                continue
            ms = mode.consts()
            for m in ms or ():
                if not isinstance(m, str):
                    continue
                reading = not any(x in m for x in 'wax+')
                if e.fi.name.startswith('from_') and not reading:
                    bad += 1
                    ctx.violation(f'{fn}:mode:{m}', f'{e.name} opens the file to import in mode {m!r}', loc, stack)
                elif 'a' in m:
                    bad += 1
                    ctx.violation(f'{fn}:mode:{m}', f'{e.name} opens the file to export in mode {m!r}: what was in the file stays there', loc, stack)
        I = w.I
        for flags, what in [(st.flags, 'return') for st, v in outs] + [(r[0].flags, 'exception') for r in raised]:
            for f in flags:
                if isinstance(f, tuple) and f[0] in ('open', 'skip'):
                    bad += 1
                    k = I._idnames[f[1]]
                    how = f'is still open after {"a return" if what == "return" else "an exception"}' if f[0] == 'open' else 'stays open when an exception is raised before it is closed'
                    o = I.obj(outs[0][0], f[1]) if outs else None
                    ctx.violation(f'{e.fi.ident}:leak', f'{e.name}: the file opened at {o.loc if o is not None else "?"} {how}', o.loc if o is not None else e.fi.loc())
        ctx.count('external calls classified', c.calls)
        ctx.ob(f'{e.name} has no undocumented side effect', 'violated' if bad else 'ok')
    ctx.count('file openings', nopen)
    ctx.floor('file openings', nopen, 12)
    ctx.assumptions.append('external functions that are in none of the tables of effects (the tables are in checks/boundary.py) are taken not to have one')


# ---------------------------------------------------------------- plotting
class Plots(Boundary):
    inter = None

    def ext_call(self, st, node, d, args, kwargs):
        I = self.world.I
        fl = I.flat(args)
        name = d.rsplit('.', 1)[-1]
        if not d.startswith('matplotlib'):
            return None
        if name in ('isinteractive', 'is_interactive'):
            self.calls += 1
            if 'switched' in st.flags:
                return avc(False)
            return avc(self.inter, dep=frozenset({'mplmode'}))
        if name in ('interactive', 'ion', 'ioff'):
            self.calls += 1
            v = fl[0] if name == 'interactive' and fl else avc(name == 'ion')
            if name == 'ioff' and self.managing(node):
                return None
            same = v.atoms == {C(self.inter)} if v.consts() is not None else 'mplmode' in v.dep
            st.flags = st.flags - {'switched'} if same else st.flags | {'switched'}
            return avc(None)
        if name == 'show':
            st.flags = st.flags | {'shown'}
            b = kwargs.get('block', fl[0] if fl else None)
            if b is None or FALSE not in b.atoms:
                st.flags = st.flags | {'blocked'}
            return avc(None)
        if name == 'subplots':
            n = [x for x in fl[:2]] + [kwargs[k] for k in ('nrows', 'ncols') if k in kwargs]
            fig = I.new(st, node, 'figure', 'figure')
            ax = I.new(st, node, 'axes', 'axes') if not n else AV(I.new(st, node, 'axesarr', 'ndarray', elem=I.new(st, node, 'axes', 'axes'), facts=frozenset({'nonempty'})).atoms | I.new(st, node, 'axes', 'axes').atoms)
            return I.new(st, node, 'figax', 'tuple', items=(fig, ax), shape=(2,))
        if name == 'figure':
            return I.new(st, node, 'figure', 'figure')
        if name in ('gca', 'axes', 'subplot', 'add_subplot'):
            return I.new(st, node, 'axes', 'axes')
        return None

    def managing(self, node):
        p = getattr(node, '_parent', None)
        return isinstance(p, ast.withitem)

    def method(self, st, node, oid, name, args, kwargs):
        I = self.world.I
        o = I.obj(st, oid)
        if o is not None and o.t == 'figure':
            if name in ('gca', 'add_subplot', 'add_axes'):
                return I.new(st, node, 'axes', 'axes')
            if name == 'subplots':
                return I.new(st, node, 'axes', 'axes')
            return AVU
        if o is not None and o.t == 'axes':
            return AVU
        return None

    def with_item(self, st, node, v):
        pass

    def after_ext(self, st, node, d, args, kwargs, r):
        pass


class PlotsOn(Plots):
    inter = True


class PlotsOff(Plots):
    inter = False


def kinds_of(I, st, v):
    out = set()
    for a in v.atoms:
        o = I.obj(st, a[1]) if a[0] == 'o' else None
        out.add('None' if a == NONE else o.t if o is not None and o.t in ('figure', 'axes', 'tuple') else 'array' if o is not None and o.t in ('ndarray', 'list') else '?')
    return out


def plots(ctx):
    ctx.rule = ('Every plotting function is interpreted abstractly twice, with matplotlib interactive and not. On every path to a normal return the interactive mode must be the one found '
                '(typestate of the calls that switch it), an interactive run must show the figure without blocking and return nothing, and the other must show nothing and return figure and axes.')
    n = 0
    for client in (PlotsOn, PlotsOff):
        for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=client, only=lambda e: e.short == 'plotting'):
            n += 1
            I = w.I
            on = client.inter
            bad = 0
            for st, v in outs:
                if 'switched' in st.flags:
                    bad += 1
                    ctx.violation(f'{e.fi.ident}:mode', f'{e.name} returns with the interactive mode of matplotlib switched (it was {"on" if on else "off"})', e.fi.loc())
                ks = kinds_of(I, st, v)
                if on:
                    if 'shown' not in st.flags:
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:show', f'{e.name} does not show the figure in interactive mode', e.fi.loc())
                    if 'blocked' in st.flags:
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:block', f'{e.name} blocks in interactive mode', e.fi.loc())
                    if ks & {'figure', 'axes', 'tuple'}:
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:value', f'{e.name} returns a value in interactive mode', e.fi.loc())
                else:
                    if 'shown' in st.flags:
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:shown', f'{e.name} shows the figure outside the interactive mode', e.fi.loc())
                    if 'None' in ks:
                        bad += 1
                        ctx.violation(f'{e.fi.ident}:none', f'{e.name} returns None outside the interactive mode', e.fi.loc())
                    for a in v.atoms:
                        o = I.obj(st, a[1]) if a[0] == 'o' else None
                        if o is not None and o.t == 'tuple' and o.items is not None:
                            if len(o.items) != 2:
                                bad += 1
                                ctx.violation(f'{e.fi.ident}:arity', f'{e.name} returns {len(o.items)} values instead of figure and axes', e.fi.loc())
                            elif kinds_of(I, st, o.items[0]) <= {'axes', 'None', 'array'} or kinds_of(I, st, o.items[1]) <= {'figure', 'None'}:
                                bad += 1
                                ctx.violation(f'{e.fi.ident}:order', f'{e.name} does not return the figure and then its axes', e.fi.loc())
                        elif o is not None and o.t in ('figure', 'axes'):
                            bad += 1
                            ctx.violation(f'{e.fi.ident}:arity', f'{e.name} returns only the {o.t}', e.fi.loc())
            ctx.ob(f'{e.name} with interactive mode {"on" if on else "off"}', 'violated' if bad else 'ok' if outs else 'unknown', '' if outs else 'no normal return found')
            ctx.count('paths to a return', len(outs))
            ctx.count('mode operations', c.calls)
    ctx.floor('plotting functions analysed', n, 14)
    ctx.floor('mode operations seen', ctx.stats.get('mode operations', 0), 30)


# ---------------------------------------------------------------- exceptions
def documented(e):
    doc = ast.get_docstring(e.fi.node) or ''
    if e.fi.name == '__init__' and e.ci is not None:
        doc += ast.get_docstring(e.ci.node) or ''
    return set(re.findall(r':raises\s+(\w+)\s*:', doc))


class Raises(Client):
    pass


def exceptions(ctx):
    ctx.rule = ('Every public operation is interpreted abstractly with each argument bound to all kinds of value; every raise statement is followed through the handlers around it and its callers. '
                'One that escapes the operation with an exception its documentation does not announce is a violation.')
    nraise = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Raises):
        allowed = documented(e)
        bad = unk = 0
        for st, names, v, node, stack in raised:
            if not isinstance(node, ast.Raise):
                continue
            nraise += 1
            for nme in names:
                if nme in ('?', '<reraise>'):
                    continue
                if nme not in allowed:
                    if any(x.endswith('.__init__') for x in stack[2:] if x):
                        unk += 1      # a model built on the library's own values: whether these can be refused is not decided here
                        continue
                    bad += 1
                    where = next((x for x in reversed(stack) if x), e.fi.ident)
                    ctx.violation(f'{where}:{nme}', f'{e.name} can raise {nme} (raised at line {node.lineno} of {where}), which it does not document'
                                  + (f': it announces {", ".join(sorted(allowed))}' if allowed else ''), e.fi.loc(), [x for x in stack if x])
        ctx.ob(f'{e.name} raises only {", ".join(sorted(allowed)) or "nothing"}', 'violated' if bad else 'unknown' if unk else 'ok', 'a nested construction may refuse its arguments' if unk else '')
    ctx.count('escaping raise statements followed', nraise)
    ctx.floor('escaping raise statements', nraise, 200)


# ---------------------------------------------------------------- error messages of the algorithms
def rounds(loop, value):
    """a loop of a constant number of rounds that is left early when a condition is met: (counter, its value when the rounds are used up); value(expr) gives a constant"""
    own = [n for b in loop.body for n in inner(b)]
    if not any(isinstance(n, (ast.Break, ast.Return)) for n in own) or any(isinstance(n, ast.Continue) for n in own):
        return None
    if isinstance(loop, ast.For):
        it = loop.iter
        if not isinstance(loop.target, ast.Name) or not isinstance(it, ast.Call) or not isinstance(it.func, ast.Name) or it.func.id != 'range' or it.keywords:
            return None
        ks = [value(x) for x in it.args]
        if None in ks or not ks or len(ks) > 2 or len(range(*ks)) < 10:
            return None
        name, last, allowed = loop.target.id, range(*ks)[-1], 0
    else:
        t = loop.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.left, ast.Name) or not isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)):
            return None
        k, k0 = value(t.comparators[0]), value(t.left)
        if k is None or k0 is None or k - k0 < 10:
            return None
        name, last, allowed = t.left.id, k + isinstance(t.ops[0], ast.LtE), 1
        steps = [b for b in loop.body if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and b.target.id == name and value(b.value) == 1
                 or isinstance(b, ast.Assign) and ast.unparse(b) in (f'{name} = {name} + 1', f'{name} = 1 + {name}')]
        if len(steps) != 1:
            return None
    if sum(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for b in loop.body for n in ast.walk(b)) != allowed:
        return None
    return name, last


def inner(n):
    """the nodes under a statement whose break and continue belong to the loop it stands in, and its returns"""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        return
    for x in ast.iter_child_nodes(n):
        if isinstance(n, (ast.For, ast.While)):
            for y in inner(x):
                if not isinstance(y, (ast.Break, ast.Continue)):
                    yield y
        else:
            yield from inner(x)


def function(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)):
        n = getattr(n, '_parent', None)
    return n


def gives_up(n):
    """the statement can report a failure"""
    return any(isinstance(x, ast.Raise) or isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple) and x.value.elts
               and isinstance(x.value.elts[-1], (ast.Constant, ast.JoinedStr, ast.Name)) and getattr(x.value.elts[-1], 'value', 0) is not None for x in ast.walk(n))


class Messages(Client):
    """calls into the algorithm modules that can report failure by a message: the reporting outcome carries a flag"""
    def __init__(self):
        self.sites = {}
        self.texts = {}
        self.empty = set()
        self.depth = 0
        self.limits = {}
        self.loops = {}

    def exhausted(self, st, loop, exits):
        I = self.world.I
        fi = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        if fi is None or not reports(fi):
            return exits

        def value(x):
            c = I.eval(x, st.fork()).single()
            return c[2] if c is not None and c[0] == 'c' and type(c[2]) is int else None
        r = rounds(loop, value)
        if r is None:
            return exits
        key = (fi.ident, ast.unparse(loop.test if isinstance(loop, ast.While) else loop.iter))
        self.limits[key] = I.loc(loop)
        self.loops[key] = (loop,) + r + (fi.module,)
        for x in exits:
            x.set(I.fr.fid, r[0], avc(r[1]))
            x.flags = x.flags | {('exhausted',) + key}
        return exits

    def open_condition(self, st, cond):
        hit = [f for f in st.flags if isinstance(f, tuple) and f[0] == 'exhausted']
        if not hit:
            return
        n = cond
        while n is not None and not isinstance(n, ast.stmt):
            n = getattr(n, '_parent', None)
        if not isinstance(n, ast.If) or not gives_up(n):
            return
        for f in hit:
            # a test of the outcome in other words: next to the loop, or in the function that called it
            loop, name, last, module = self.loops[f[1:]]
            fr = self.world.I.fr
            if function(loop) is function(n):
                v = st.frames.get(fr.fid, {}).get(name)
                if getattr(n, '_parent', None) is not getattr(loop, '_parent', None) or v is None or v.atoms != {C(last)}:
                    continue
            elif fr.fi is None or fr.fi.module is not module:
                continue
            st.flags = st.flags | {('tested',) + f[1:]}

    def call_repo(self, st, node, fi, args, kwargs, selfatom):
        I = self.world.I
        caller = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        if caller is None or self.depth or caller.module.name == fi.module.name or not reports(fi):
            return None
        self.depth += 1
        try:
            outs = I.call_repo(fi, args, kwargs, st, node, force=True)
        finally:
            self.depth -= 1
        site = (caller.ident, fi.ident)
        self.sites.setdefault(site, [0, 0, I.loc(node)])
        res = []
        for s, v in outs:
            for a in v.atoms:
                o = I.obj(s, a[1]) if a[0] == 'o' else None
                if o is None or o.t != 'tuple' or not o.items:
                    res.append((s, AV({a}, v.dep)))
                    continue
                m = o.items[-1]
                bad = frozenset(x if x[0] == 'c' else S('str', 'nonblank') if x[0] == 's' and x[1] == 'str' else x for x in m.atoms if x != NONE)
                self.texts.setdefault(site, set()).update(bad)
                good = m.atoms & {NONE}
                if bad:
                    s2 = s.fork() if good else s
                    self.sites[site][1] += 1
                    s2.heap[a[1]] = o.replace(items=o.items[:-1] + (AV(bad, m.dep | {'message'}),))
                    s2.flags = s2.flags | {('failed',) + site}
                    res.append((s2, AV({a}, v.dep)))
                if good:
                    if o.items[0].atoms == {NONE}:
                        self.empty.add(site)
                    self.sites[site][0] += 1
                    s.flags = s.flags | {('passed',) + site}
                    s.heap[a[1]] = o.replace(items=o.items[:-1] + (AV(good, m.dep),))
                    res.append((s, AV({a}, v.dep)))
        return res


def reports(fi):
    """the function has a return of a tuple that ends in None or a text"""
    if not hasattr(fi, '_reports'):
        fi._reports = any(isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and n.value.elts
                          and (isinstance(n.value.elts[-1], ast.JoinedStr) or isinstance(n.value.elts[-1], ast.Constant) and (n.value.elts[-1].value is None or isinstance(n.value.elts[-1].value, str)))
                          for n in ast.walk(fi.node))
    return fi._reports


SOLVERS = {'scipy.optimize.' + x for x in ('minimize', 'minimize_scalar', 'root', 'root_scalar', 'least_squares', 'linprog', 'milp', 'differential_evolution', 'basinhopping', 'dual_annealing', 'shgo', 'lsq_linear')}


class Solver(Client):
    """a world in which every numerical solver reports that it did not succeed"""
    def __init__(self):
        self.sites = {}

    def ext_call(self, st, node, d, args, kwargs):
        I = self.world.I
        if d not in SOLVERS:
            return None
        f = next((x.fi for x in reversed(I.frames) if x.fi is not None), None)
        self.sites.setdefault((f.ident if f else '?', d), I.loc(node))
        st.flags = st.flags | {('solver', f.ident if f else '?', d)}
        return I.new(st, node, 'solution', 'dict', attrs={'success': avc(False), 'x': I.new(st, node, 'solx', 'ndarray', elem=av(S('float'))), 'message': av(S('str', 'nonblank')), 'status': av(S('int')), 'fun': av(S('float'))},
                     facts=frozenset({'nonempty', 'solution'}))

    def getattr(self, st, node, atom, name):
        o = self.world.I.obj(st, atom[1]) if atom[0] == 'o' else None
        if o is not None and 'solution' in o.facts and name in o.attrs:
            return o.attrs[name]
        return None


def generator_errors(ctx):
    ctx.rule = ('Every call from a model operation into an algorithm that can report failure by a message is split into the outcome with and without the message. '
                'The outcome with it must end in an exception that carries the message on every path: a path to a normal return is a violation.')
    sites, limits = {}, set()
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Messages, only=lambda e: e.ci is not None):
        for k, (ok, failed, loc) in c.sites.items():
            bad = unk = 0
            sites[k] = sites.get(k, False) or failed > 0
            for st, v in outs:
                if ('failed',) + k in st.flags:
                    if ('passed',) + k in st.flags:
                        unk += 1
                        continue
                    bad += 1
                    ctx.violation(f'{k[0]}:{k[1]}', f'{e.name} returns normally although {k[1]} reported that it failed', loc, list(k))
            if k in c.empty:
                bad += 1
                ctx.violation(f'{k[0]}:{k[1]}:empty', f'{k[1]} can return neither a result nor a message', loc, list(k))
            told = 0
            for st, names, v, node, stack in raised:
                if ('failed',) + k in st.flags and ('passed',) + k not in st.flags:
                    txt = [x for oid in v.oids() for x in (w.I.obj(st, oid).items or ())] if all(a[0] == 'o' for a in v.atoms) else [AVU]
                    if any(a[0] != 'c' or any(t[0] == 'c' and str(t[2]) in str(a[2]) for t in c.texts[k]) for x in txt for a in x.atoms):
                        told += 1
                    elif isinstance(node, ast.Raise):
                        bad += 1
                        ctx.violation(f'{k[0]}:{k[1]}:text', f'{e.name} fails without the message in which {k[1]} says why', loc, list(k))
            ctx.count('failures followed to an exception', told)
            ctx.ob(f'{k[0]} checks the message of {k[1]}', 'violated' if bad else 'unknown' if unk else 'ok')
        for k, loc in c.limits.items():
            limits.add(k)
            bad = [st for st, v in outs if ('exhausted',) + k in st.flags]
            sure = any(('tested',) + k not in st.flags for st in bad)
            if sure:
                ctx.violation(f'{k[0]}:{k[1]}', f'{e.name} returns normally when the iteration of {k[0]} ({k[1]}) used up its rounds without meeting the condition that ends it', loc, [e.fi.ident, k[0]])
            ctx.ob(f'{e.name}: {k[0]} reports that its rounds are used up', 'violated' if sure else 'unknown' if bad else 'ok')
    ns = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Solver, only=lambda e: e.ci is not None):
        for (fn, d), loc in c.sites.items():
            ns += 1
            bad = sum(1 for st, v in outs if ('solver', fn, d) in st.flags)
            if bad:
                ctx.violation(f'{fn}:{d}', f'{e.name} returns normally when {d} reports that it found no solution', loc, [e.fi.ident, fn])
            ctx.ob(f'{e.name} heeds the success of {d}', 'violated' if bad else 'ok')
    ctx.count('calls of numerical solvers', ns)
    ctx.floor('calls of numerical solvers', ns, 1)
    ctx.count('iterations with a limit', len(limits))
    ctx.count('calls that can report failure', len(sites))
    ctx.floor('calls that can report failure', sum(sites.values()), 4)


# ---------------------------------------------------------------- error messages name the argument
class Naming(Client):
    def __init__(self):
        self.sites = {}
        self.silent = {}

    def raised(self, st, node, names, value):
        I = self.world.I
        frames = [f for f in I.frames if f.fi is not None]
        nodes = [f.callnode for f in frames[1:]] + [node]
        if not any(isinstance(n, ast.Constant) and isinstance(n.value, str) and '@arg@' in n.value for n in ast.walk(node)):
            self.nameless(st, node, frames, nodes)
            return
        # innermost frame whose current statement is guarded by a handler that writes the message
        for i in range(len(frames) - 1, -1, -1):
            t = guard(nodes[i], self.world.repo, frames[i].fi)
            if t is None:
                continue
            fi = frames[i].fi
            line = fi.module.source.split('\n')[nodes[i].lineno - 1] if hasattr(nodes[i], 'lineno') else ''
            told = line.split('=', 1)[0].strip()
            told = told.split(',', 1)[0]
            deps = None
            if i + 1 < len(frames) and frames[i + 1].fi.params:
                v = st.get(frames[i + 1].fid, frames[i + 1].fi.params[0])
                deps = I.alldeps(st, v) if v is not None else None
                if deps is not None:
                    deps |= {'obj: ' + x[4:] for o in v.oids() for x in I.obj(st, o).origin if x.startswith('arg:') and x[4:] in fi.params}
            self.sites.setdefault((fi, told, f'{fi.module.relpath}:{nodes[i].lineno}', frames[min(i + 1, len(frames) - 1)].fi.ident), []).append(deps)
            return


    def nameless(self, st, node, frames, nodes):
        """a rejection that leaves no room for the name and does not mention it either"""
        exc = node.exc if isinstance(node, ast.Raise) else None
        args = exc.args if isinstance(exc, ast.Call) else []
        if len(args) != 1 or not isinstance(args[0], (ast.Constant, ast.JoinedStr)):
            return
        for x in ast.walk(args[0]):
            # only numbers may be filled in: a text may be the name
            if isinstance(x, ast.FormattedValue) and not all(a[0] in ('c', 's', 'iv') and a[1] in ('int', 'float', 'npint', 'npfloat') for a in self.world.I.eval(x.value, st.fork()).atoms or {U}):
                return
        text = ''.join(str(x.value) for x in ast.walk(args[0]) if isinstance(x, ast.Constant))
        for i in range(len(frames) - 1, -1, -1):
            if guard(nodes[i], self.world.repo, frames[i].fi) is not None:
                fi = frames[i].fi
                words = set(''.join(x if x.isalnum() or x == '_' else ' ' for x in text).split())
                if i + 1 < len(frames) and not words & set(fi.params + fi.kwonly) and not any(attempted(n, f.fi) for n, f in zip(nodes[i + 1:], frames[i + 1:])):
                    self.silent.setdefault((fi, frames[-1].fi.ident, text[:80]), self.world.I.loc(node))
                return
            if attempted(nodes[i], frames[i].fi):
                return


def attempted(node, fi):
    """the node stands in the body of a try statement of its function"""
    p, c = getattr(node, '_parent', None), node
    while p is not None and c is not fi.node:
        if isinstance(p, ast.Try) and any(c is x for x in p.body):
            return True
        p, c = getattr(p, '_parent', None), p
    return False


def formatter(ctx, fi):
    """the name in the message: what stands before the equals sign in the line of the operation, which is the first frame of the trace"""
    for line, want in (('        alpha = _validate(alpha)\n', 'alpha'), ('            beta_2, x = _check(beta_2, y == 3)\n', 'beta_2'), ('gamma=_validate(gamma, n=1)', 'gamma')):
        c = Client()
        w = World(ctx.repo, c)
        c.world = w
        I, st, node = w.I, w.st, fi.node
        frames = []
        for k, t in enumerate((line, '    inner = _validate_more(inner)\n', '        raise ValueError(text)\n')):
            ls = I.new(st, node, ('lines', k), 'list', items=(avc(t),), shape=(1,), facts=frozenset({'nonempty'}))
            frames.append(I.new(st, node, ('frame', k), 'tuple', items=(AVU, avc('f.py'), avc(3), avc('g'), ls, avc(0)), shape=(6,), facts=frozenset({'nonempty'})))
        tr = I.new(st, node, 'trace', 'list', items=tuple(frames), shape=(3,), facts=frozenset({'nonempty'}))
        ex = I.new(st, node, 'ex', 'exc', items=(avc('The "@arg@" parameter is refused.'),), facts=frozenset({('exc', 'ValueError')}))
        outs = w.run(fi, {fi.params[0]: ex, fi.params[1]: tr})
        texts = set()
        for s, v in outs:
            for oid in v.oids() or [None]:
                o = I.obj(s, oid) if oid is not None else None
                it = o.items if o is not None else None
                m = it[0].single() if it else None
                texts.add(m[2] if m is not None and m[0] == 'c' else None)
        good = f'The "{want}" parameter is refused.'
        bad = texts and None not in texts and good not in texts
        if bad:
            ctx.violation(f'{fi.ident}:text', f'an argument {want} that is refused in the line {line.strip()!r} is reported as {sorted(texts)[0]!r}', fi.loc(), [fi.ident])
        ctx.ob(f'name of {want} in the message', 'violated' if bad else 'ok' if texts == {good} else 'unknown', str(texts)[:100])


def guard(node, repo, fi):
    """the try statement around the node whose handler turns every exception into an error that names the argument"""
    p, c = getattr(node, '_parent', None), node
    while p is not None and c is not fi.node:
        if isinstance(p, ast.Try) and any(c is x for x in p.body):
            for h in p.handlers:
                for n in ast.walk(h):
                    if isinstance(n, ast.Call):
                        r = repo.resolve_expr(fi.module, n.func)
                        if r is not None and r[0] == 'func' and r[1].name == 'create_validation_error':
                            return p
        p, c = getattr(p, '_parent', None), p
    return None


def naming(ctx):
    ctx.rule = ('Every rejection of an argument that leaves its name to the caller ("@arg@") is followed to the handler that fills in the name. That name, the text before the equals sign of the '
                'line of the failing call, must be an argument of the operation, and the rejected value must depend on that argument.')
    n = 0
    for e, c, w, outs, raised in sweep(ctx, prepare=snap, client=Naming):
        for (fi, told, loc, callee), deps in c.sites.items():
            n += 1
            bad = ''
            if told not in fi.params + fi.kwonly + [fi.vararg, fi.kwarg]:
                bad = f'names {told[:40]!r}, which is no argument of {fi.name}'
            elif all(d is not None and f'arg:{told}' not in d and f'arg:*{told}' not in d for d in deps) and fi is e.fi:
                bad = f'names {told!r} although the value that is refused does not come from it'
            elif fi is e.fi:
                others = {d[5:] for ds in deps for d in ds or () if d.startswith('obj: ')} - {told}
                if others:
                    bad = f'names {told!r} although the value that is refused may be the argument {sorted(others)[0]!r}'
            if bad:
                ctx.violation(f'{fi.ident}:{told}:{callee}', f'{e.name}: an argument refused by {callee} is reported in a message that {bad}', loc, [e.fi.ident, callee])
            ctx.ob(f'{e.name} line of {callee} names {told}', 'violated' if bad else 'ok')
        for (fi, callee, text), loc in c.silent.items():
            ctx.violation(f'{fi.ident}:{callee}:silent', f'{e.name}: an argument refused by {callee} is reported in a message that names no argument ({text!r})', loc, [e.fi.ident, callee])
            ctx.ob(f'{e.name}: message of {callee}', 'violated')
    for fi in ctx.repo.all_functions:
        if fi.name == 'create_validation_error' and len(fi.params) == 2:
            formatter(ctx, fi)
    ctx.count('rejections followed to their message', n)
    ctx.floor('rejections followed to their message', n, 150)
