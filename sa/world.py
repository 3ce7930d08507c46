"""Entry points of the library's public interface and the abstract arguments and models they are run on."""
import ast

from .values import *
from .values import AV, AVU, BOT
from .interp import Interp, Client, Unreachable, Budget, State, Frame
from .loader import AnalysisBroken, FuncInfo

MODEL_CLASSES = (('markov_chain', 'MarkovChain', 'mc'), ('hidden_markov_model', 'HiddenMarkovModel', 'hmm'))
STATE = 'state:'


class Entry:
    def __init__(self, fi, ci, short):
        self.fi = fi
        self.ci = ci
        self.short = short
        self.name = f'{short}.{fi.name}' if ci is not None else f'{short}.{fi.name}'

    def __repr__(self):
        return self.name


def entries(repo):
    out = []
    for mod, cname, short in MODEL_CLASSES:
        ci = repo.cls(mod, cname)
        for name, fi in ci.members.items():
            if fi.name.startswith('__') and not (fi.name.endswith('__')):
                continue
            if fi.name.startswith('_') and not fi.name.endswith('__'):
                continue
            out.append(Entry(fi, ci, short))
    for mod in ('assessments', 'plotting'):
        m = repo.module(mod)
        pub = public_names(m)
        for name in pub:
            if name in m.functions:
                out.append(Entry(m.functions[name], None, mod))
    return out


def public_names(m):
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
            try:
                return list(ast.literal_eval(s.value))
            except ValueError:
                pass
    return [n for n in m.functions if not n.startswith('_')]


def root_frame(I, repo):
    m = next(iter(repo.modules.values()))
    fid = I.intern(('root',))
    return Frame(fid, None, m, (fid,), None, None)


def call_stack(I, st, node):
    """the frames inspect.stack() would report, innermost first, ending in a function of the user's code whose name is arbitrary"""
    out = []
    seen = set()
    for f in reversed(I.frames):
        if f.fi is None:
            break
        if f.yields == 'comp' or I._idnames[f.fid][0] == 'comp' or f.fid in seen:
            continue
        seen.add(f.fid)
        out.append((avc('pydtmc.' + f.module.name), avc(f.fi.name), f.module.path))
    out.append((avc('user_module'), av(S('str', 'callername')) if I.caller is None else avc(I.caller), '/user/module.py'))
    frames = []
    back = avc(None)
    for i, (mod, fn, path) in reversed(list(enumerate(out))):
        g = I.new(st, node, ('fglobals', i), 'dict', attrs={'__name__': mod, '__file__': avc(path)})
        code = I.new(st, node, ('fcode', i), 'any', attrs={'co_name': fn, 'co_filename': avc(path), 'co_qualname': fn})
        fr = I.new(st, node, ('frame', i), 'any', attrs={'f_globals': g, 'f_code': code, 'f_back': back, 'f_lineno': av(S('int'))})
        back = fr
        src = I.new(st, node, ('fsrc', i), 'list', elem=av(S('str')))
        frames.append(I.new(st, node, ('finfo', i), 'tuple', items=(fr, avc(path), av(S('int')), fn, src, avc(0)), shape=(6,),
                            attrs={'frame': fr, 'filename': avc(path), 'function': fn, 'code_context': src, 'lineno': av(S('int'))}))
    frames.reverse()
    return frames


def root_node():
    n = ast.Pass()
    n.lineno = 0
    return n


class World:
    """One abstract run: an interpreter, a state, model instances."""

    def __init__(self, repo, client, summaries=None, max_steps=400_000):
        self.repo = repo
        self.I = Interp(repo, client, summaries)
        self.I.max_steps = max_steps
        self.client = client
        self.node = root_node()
        self.keep = []
        self.keep_client = False
        self.elem = {}
        self.labels = {}
        self.zeros = {}         # elements of matrices with known elements that are 0
        self.tiny = {}          # elements that are tiny
        self.sizes = {}         # marks of elements of other sizes
        self.st = State()
        self.I.frames.append(root_frame(self.I, repo))
        self.I.collectors.append([])

    def new(self, tag, t, **kw):
        return self.I.new(self.st, self.node, tag, t, **kw)

    def label_list(self, tag, sp, origin=EMPTY, dep=EMPTY):
        if sp in self.labels:
            items = tuple(avc(x, dep) for x in self.labels[sp])
            return self.new(tag, 'list', items=items, shape=(len(items),), facts=frozenset({'nonempty', 'alllabels'}), origin=origin)
        return self.new(tag, 'list', elem=AV({S('str', f'label:{sp}')}, dep), shape=(sp,), facts=frozenset({'nonempty', 'alllabels'}), origin=origin)

    def cell(self, name, i, j, width=0):
        """an element of a matrix of a model"""
        zero = self.zeros.get(name, ())
        if (i, j) in zero:
            return C(0.0)
        if sum(x == i for x, _ in zero) == width - 1:
            return C(1.0)
        return S('float', f'cell:{name}:{i}:{j}' + self.sizes.get((name, i, j), '~' * ((i, j) in self.tiny.get(name, ()))))

    def matrix(self, name, tag, shape):
        if self.I.cells:
            zero = self.zeros.get(name, ())
            at = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
            cs = tuple(AV({self.cell(name, *x, shape[1])}) for x in at)
            for i in range(shape[0]):
                self.I.rows.add(frozenset(c[2] for c in (self.cell(name, i, j, shape[1]) for j in range(shape[1])) if c[0] == 's'))
            return self.new((name, tag), 'ndarray', elem=joinall(cs), shape=shape, facts=frozenset({'nonempty', 'each', ('cells', cs)}))
        return self.new((name, tag), 'ndarray', elem=self.elem.get(name, av(S('float'))), shape=shape, facts=frozenset({'nonempty'}))

    def model(self, ci, tag, origin, sp=('n', 'k')):
        """an abstract instance of a model class, built by interpreting its constructor"""
        I, st = self.I, self.st
        n, k = sp
        sv = I.client
        if not self.keep_client:
            I.client = Client()
        I.collectors.append([])
        node = root_node()
        self.keep.append(node)
        try:
            inst = I.new(st, node, ('inst', tag), 'inst', cls=ci)
            init = ci.members.get('__init__')
            if init is None:
                raise AnalysisBroken(f'{ci.ident}.__init__ not found')
            args = {'self': inst}
            for prm in init.params[1:]:
                if prm == 'p':
                    args[prm] = self.matrix('p', tag, (n, n))
                elif prm == 'e':
                    args[prm] = self.matrix('e', tag, (n, k))
                elif prm == 'states':
                    args[prm] = self.label_list(('states', tag), n)
                elif prm == 'symbols':
                    args[prm] = self.label_list(('symbols', tag), k)
                else:
                    args[prm] = AVU
            vals = I.bind(init, [args[x] for x in init.params], {}, st, node)
            outs = I.run(init, vals, st, node)
            I.merge_outcomes(outs, st)
        except Unreachable:
            raise AnalysisBroken(f'{ci.ident}.__init__ never returns normally in the analysis')
        finally:
            I.client = sv
            I.collectors.pop()
        oid = inst.oids()[0]
        o = I.obj(st, oid)
        if not o.attrs:
            raise AnalysisBroken(f'{ci.ident}.__init__ sets no attribute')
        at = {}
        for name, v in o.attrs.items():
            d = frozenset({f'{origin}{name}'})
            for x in I.reachable(st, v):
                ob = I.obj(st, x)
                if ob.t in ('tuple', 'range'):
                    continue
                st.heap[x] = ob.replace(origin=frozenset({f'{origin}{name}'}), dep=ob.dep | d, base=EMPTY)
            at[name] = AV(v.atoms, d)
        st.heap[oid] = I.obj(st, oid).replace(attrs=at, origin=frozenset({f'{origin}self'}))
        st.facts = {}
        st.flags = EMPTY
        st.ctrl = EMPTY
        return inst

    def self_for(self, e):
        return self.model(e.ci, 'self', STATE)

    # ------------------------------------------------------------ rich argument values
    def rich(self, name, dep=True, mc=True):
        """every kind of value a caller may pass for an argument"""
        org = frozenset({'arg:' + name})
        d = frozenset({'arg:' + name}) if dep else EMPTY
        atoms = {NONE, S('bool'), S('int'), S('float'), S('str', 'nonblank'), S('str', 'blank')}
        mk = lambda tag, t, **kw: self.new(('rich', name, tag), t, origin=org, dep=d, **kw)
        ne = frozenset({'nonempty'})
        elist = mk('elist', 'list', items=(), shape=(0,))
        ilist = mk('ilist', 'list', elem=AV({S('int')}, d), facts=ne)
        slist = mk('slist', 'list', elem=AV({S('str', 'nonblank')}, d), facts=ne)
        flist = mk('flist', 'list', elem=AV({S('float')}, d), facts=ne)
        llist = mk('llist', 'list', elem=AV(ilist.atoms | slist.atoms | flist.atoms, d), facts=ne)
        nd = mk('nd', 'ndarray', elem=AV({S('float')}, d))
        key = self.new(('rich', name, 'key'), 'tuple', elem=AV({S('str', 'nonblank')}, d))
        dct = mk('dict', 'dict', elem=AV({S('float')}, d), facts=frozenset({('keyelem', key)}))
        gr = mk('graph', 'graph', elem=AV({S('str', 'nonblank')}, d))
        mg = mk('mgraph', 'multigraph', elem=AV({S('str', 'nonblank')}, d))
        df = mk('df', 'df', elem=AV({S('float')}, d))
        sp = mk('sparse', 'sparse', elem=AV({S('float')}, d))
        tup = mk('tuple', 'tuple', elem=AV({S('float'), S('int'), S('str', 'nonblank')}, d))
        tup = AV(tup.atoms, d)
        for v in (elist, ilist, slist, flist, llist, nd, dct, gr, mg, df, sp, tup):
            atoms |= v.atoms
        anyv = mk('any', 'any', facts=frozenset({'notnone'}))
        atoms |= anyv.atoms
        if mc:
            for mod, cname, short in MODEL_CLASSES:
                inst = self.model(self.repo.cls(mod, cname), ('rich', name, short), f'arg:{name}.', sp=(f'n@{name}', f'k@{name}'))
                oid = inst.oids()[0]
                st = self.st
                st.heap[oid] = self.I.obj(st, oid).replace(origin=org, dep=d)
                atoms |= inst.atoms
            models = mk('models', 'list', elem=AV(frozenset(a for a in atoms if a[0] == 'o' and self.I.obj(self.st, a[1]).t == 'inst'), d), facts=ne)
            atoms |= models.atoms
        return AV(frozenset(atoms), d)

    def run(self, fi, vals):
        I = self.I
        return I.run(fi, vals, self.st, self.node)


def run_entry(repo, client, e, arg=None, summaries=None, max_steps=400_000, prepare=None):
    """run a public entry on abstract arguments; -> (world, outcomes, raised)"""
    w = World(repo, client, summaries, max_steps)
    fi = e.fi
    vals = {}
    client.world = w
    params = list(fi.params)
    if e.ci is not None and fi.kind in ('method', 'property', 'cached') and params:
        vals[params[0]] = w.self_for(e)
        params = params[1:]
    for p in params + fi.kwonly:
        vals[p] = arg(w, fi, p) if arg is not None else w.rich(p)
    if fi.vararg:
        vals[fi.vararg] = w.new(('va',), 'tuple', elem=w.rich('*' + fi.vararg, mc=False))
    if fi.kwarg:
        vals[fi.kwarg] = w.new(('kw',), 'dict', elem=w.rich('**' + fi.kwarg, mc=False), origin=frozenset())
    if prepare:
        prepare(w, vals)
    w.vals = vals
    try:
        outs = w.run(fi, vals)
    except Unreachable:
        outs = []
    return w, outs, w.I.collectors[0]
