"""Conversions: what is written and read again is the same model.

The documents are texts over opaque labels and numbers (sa/tokens.py). A label inside of a document carries a mark that tells how it was quoted; a reader that
does not undo exactly that quoting loses the label, as the label may contain any character."""
import ast
import csv
import io
import json
import re
import xml.etree.ElementTree as ET

from sa.interp import Budget, Client, Unreachable
from sa.models import role
from sa.cells import of as cells_of
from sa.par import pmap
from sa.tokens import LOST, TOK, Tokens
from sa.values import *
from sa.values import AV, AVU
from sa.world import MODEL_CLASSES, World

TEXT_MODES = set('rwax+t')
NUMTAG = '__number__'


def const(v):
    a = v.single() if v is not None else None
    return a[2] if a is not None and a[0] == 'c' else None


def constant(v, default=None):
    """(known?, value)"""
    if v is None:
        return True, default
    a = v.single()
    return (True, a[2]) if a is not None and a[0] == 'c' else (False, None)


class Unknown(Exception):
    pass


class Files(Client):
    """files, buffers and the documents of the json, csv and xml modules"""

    def __init__(self):
        self.events = []
        self.modelled = {}
        self.callees = {}

    # ------------------------------------------------------------ documents
    def setup(self, w):
        self.w, self.I, self.t = w, w.I, w.I.tokens
        self.disk = w.new(('disk',), 'disk', attrs={'text': avc(''), 'encoding': avc(None), 'exists': avc(False)})

    def disk_id(self):
        return self.disk.oids()[0]

    def get(self, st, oid, name):
        o = self.I.obj(st, oid)
        return const(o.attrs.get(name)) if o is not None else None

    def put(self, st, oid, **kw):
        o = self.I.obj(st, oid)
        st.heap[oid] = o.replace(attrs={**o.attrs, **{k: v if isinstance(v, AV) else avc(v) for k, v in kw.items()}})

    def used(self, what):
        self.modelled[what] = self.modelled.get(what, 0) + 1

    def event(self, node, what):
        x = (self.I.loc(node), what)
        if x not in self.events:
            self.events.append(x)

    def islabel(self, c):
        return self.t.kinds.get(c, ('label',))[0] == 'label'

    def mark(self, text, scheme):
        m = self.t.char('quoting', scheme)
        return TOK.sub(lambda x: m + x[0] if self.kind(x[0]) == 'label' else x[0], text)

    def kind(self, c):
        return 'label' if c == LOST else self.t.kinds.get(c, ('?',))[0]

    def unmark(self, text, scheme, node):
        """labels quoted by this scheme are read; all others are lost"""
        m = self.t.char('quoting', scheme)
        out, n = [], 0
        while n < len(text):
            c = text[n]
            if c == m and n + 1 < len(text) and self.kind(text[n + 1]) == 'label':
                out.append(text[n + 1])
                n += 2
                continue
            if self.kind(c) in ('label', 'quoting'):
                self.event(node, f'a label is read as {scheme[0]} without having been written as such, so that not every label comes back')
                c = self.t.lose(scheme[0])
            out.append(c)
            n += 1
        return ''.join(out)

    def recode(self, text, written, read, node):
        """labels may contain any character: the encodings have to agree"""
        norm = lambda e: None if e is None else e.lower().replace('_', '-').replace('utf8', 'utf-8').replace('utf-8-sig', 'utf-8')
        if norm(written) == norm(read) or not TOK.search(text):
            return text
        j = self.t.char('quoting', ('JSON', True))
        out = []
        for n, c in enumerate(text):
            if self.kind(c) == 'label' and not (n and text[n - 1] == j):
                self.event(node, f'text written with the encoding {written or "of the platform"} is read with the encoding {read or "of the platform"}')
                c = self.t.lose('encoding')
            out.append(c)
        return ''.join(out)

    # ------------------------------------------------------------ abstract values <-> Python values
    def plain(self, st, v, seen=()):
        """the Python value of nested containers of constants, with number tokens in place of numbers"""
        a = v.single()
        if a is None:
            raise Unknown
        if a[0] == 'c':
            return a[2]
        r = role(a) or ''
        if r.startswith('cell:') or r == 'lost':
            return Number(self.t.text_of(a) if r != 'lost' else LOST)
        if a[0] != 'o' or a[1] in seen:
            raise Unknown
        o = self.I.obj(st, a[1])
        if o is None:
            raise Unknown
        if o.t == 'dict' and o.attrs is not None and o.elem.atoms == frozenset():
            return {k: self.plain(st, x, seen + (a[1],)) for k, x in o.attrs.items()}
        its = self.I.models.exact_items(self.I, st, v)
        if its is None or o.t not in ('list', 'tuple', 'ndarray', 'iter'):
            raise Unknown
        r = [self.plain(st, x, seen + (a[1],)) for x in its]
        return tuple(r) if o.t == 'tuple' else r

    def abstract(self, st, node, x, tag=()):
        I = self.I
        if isinstance(x, dict):
            if set(x) == {NUMTAG}:
                return AV({self.t.number(x[NUMTAG]) or S('float', 'lost')})
            return I.new(st, node, ('doc', tag), 'dict', attrs={k: self.abstract(st, node, y, tag + (k,)) for k, y in x.items()}, facts=frozenset({'nonempty'} if x else ()))
        if x != x:
            return av(NAN)
        if isinstance(x, (list, tuple)):
            its = tuple(self.abstract(st, node, y, tag + (n,)) for n, y in enumerate(x))
            return I.new(st, node, ('doc', tag), 'list' if isinstance(x, list) else 'tuple', items=its, shape=(len(its),), facts=frozenset({'nonempty'} if its else ()))
        return avc(x)

    # ------------------------------------------------------------ files
    def open(self, st, node, args, kwargs, path=True):
        a = list(args)
        mode = constant(kwargs.get('mode', a[1] if len(a) > 1 else None), 'r')
        enc = constant(kwargs.get('encoding', a[3] if len(a) > 3 else None))
        nl = constant(kwargs.get('newline', a[5] if len(a) > 5 else None))
        f = self.I.new(st, node, 'open', 'file', attrs={'mode': avc(mode[1]) if mode[0] else AVU, 'encoding': avc(enc[1]) if enc[0] else AVU, 'newline': avc(nl[1]) if nl[0] else AVU})
        if not mode[0]:
            self.put(st, self.disk_id(), text=AVU)
        elif 'w' in mode[1] or 'x' in mode[1]:
            self.put(st, self.disk_id(), text='', encoding=avc(enc[1]) if enc[0] else AVU, exists=True)
        return f

    def write(self, st, node, oid, v):
        """to a file or a buffer"""
        I = self.I
        store = oid if I.obj(st, oid).t == 'buffer' else self.disk_id()
        a = v.single()
        s = None
        if a is not None and a[0] == 'c' and isinstance(a[2], str):
            s = a[2]
        elif a is not None and a[0] == 'o' and I.obj(st, a[1]).t == 'bytesv':
            s = self.get(st, a[1], 'text')
            if s is not None:
                self.put(st, store, encoding=I.obj(st, a[1]).attrs['encoding'])
        old = self.get(st, store, 'text')
        if I.loopdepth or s is None or not isinstance(old, str):
            self.put(st, store, text=AVU)
        else:
            self.put(st, store, text=old + s)

    def content(self, st, oid, node):
        """the text a file or buffer yields, or None"""
        I = self.I
        o = I.obj(st, oid)
        if o.t == 'buffer':
            return self.get(st, oid, 'text')
        s = self.get(st, self.disk_id(), 'text')
        if not isinstance(s, str):
            return None
        d, f = I.obj(st, self.disk_id()).attrs['encoding'], o.attrs['encoding']
        if const(d) is None and d.single() != NONE or const(f) is None and f.single() != NONE:
            return s
        s = self.recode(s, const(d), const(f), node)
        if o.attrs['newline'].single() == NONE:
            # universal newlines: a carriage return within a label does not survive, unless it is written as an escape sequence
            safe = {self.t.char('quoting', k) for k in (('JSON', True), ('JSON', False), ('XML',))}
            out = []
            for n, c in enumerate(s):
                if self.t.spaces and self.kind(c) == 'label' and not (n and s[n - 1] in safe):
                    self.event(node, 'a carriage return within a label does not survive the translation of line ends')
                    c = self.t.lose('newline')
                out.append(c)
            s = ''.join(out)
        return s

    def lines(self, s):
        safe = {self.t.char('quoting', k) for k in (('JSON', True), ('JSON', False), ('XML',))}
        if self.t.spaces and any(self.kind(c) == 'label' and not (n and s[n - 1] in safe) for n, c in enumerate(s)):
            return None
        return s.splitlines(True)

    def bytesv(self, st, node, text, enc):
        return self.I.new(st, node, 'bytesv', 'bytesv', attrs={'text': avc(text) if text is not None else AVU, 'encoding': avc(enc)})

    def file_items(self, st, e, v):
        """the lines of a file; None: unknown"""
        a = v.single()
        if a is None or a[0] != 'o':
            return None
        if self.I.obj(st, a[1]).t == 'xmlel':
            return self.I.models.exact_items(self.I, st, self.I.obj(st, a[1]).attrs['children'])
        s = self.content(st, a[1], e)
        ls = self.lines(s) if s is not None else None
        return tuple(avc(x) for x in ls) if ls is not None else None

    # ------------------------------------------------------------ csv
    def dialect(self, st, args, kwargs):
        d = {'delimiter': ',', 'quotechar': '"', 'doublequote': True, 'escapechar': None, 'skipinitialspace': False, 'quoting': csv.QUOTE_MINIMAL, 'lineterminator': '\r\n', 'strict': False}
        name = kwargs.get('dialect', args[0] if args else None)
        if name is not None:
            n = const(name)
            if n not in ('excel', 'excel-tab', 'unix'):
                raise Unknown
            base = csv.get_dialect(n)
            d.update({k: getattr(base, k) for k in d})
        for k, v in kwargs.items():
            if k == 'dialect':
                continue
            ok, x = constant(v)
            a = v.single()
            if a is not None and a[0] == 'ext' and a[1].startswith('csv.QUOTE_'):
                ok, x = True, getattr(csv, a[1].split('.')[1])
            if not ok or k not in d:
                raise Unknown
            d[k] = x
        return d

    def scheme(self, d):
        if d['quoting'] == csv.QUOTE_NONE:
            return ('CSV', d['delimiter'], 'unquoted', d['escapechar'])
        return ('CSV', d['delimiter'], d['quotechar'], d['doublequote'], d['escapechar'])

    def csvfmt(self, st, oid):
        o = self.I.obj(st, oid)
        return {k: const(v) for k, v in o.attrs.items() if k in ('delimiter', 'quotechar', 'doublequote', 'escapechar', 'skipinitialspace', 'quoting', 'lineterminator', 'strict')}

    def writerow(self, st, node, oid, v):
        d = self.csvfmt(st, oid)
        f = self.I.obj(st, oid).attrs['file']
        row = self.plain(st, v)
        if not isinstance(row, (list, tuple)):
            raise Unknown
        buf = io.StringIO()
        csv.writer(buf, **d).writerow([self.mark(str(x), self.scheme(d)) if isinstance(x, str) else str(x) for x in row])
        self.write(st, node, f.oids()[0], avc(buf.getvalue()))

    def csvrows(self, st, node, v, args, kwargs):
        d = self.dialect(st, args, kwargs)
        a = v.single()
        if a is None or a[0] != 'o':
            raise Unknown
        if self.I.obj(st, a[1]).t == 'file':
            s = self.content(st, a[1], node)
        else:
            s = ''.join(self.plain(st, v))
        if s is None:
            raise Unknown
        rows = []
        for row in csv.reader(io.StringIO(s, newline=''), **d):
            r = []
            for x in row:
                if not isinstance(x, str):
                    raise Unknown
                if d['skipinitialspace'] and self.t.spaces and x and self.kind(x[0]) in ('quoting', 'label'):
                    self.event(node, 'blanks at the beginning of a label are skipped')
                    x = self.t.lose('skipinitialspace')
                r.append(self.unmark(x, self.scheme(d), node) if x != LOST else x)
            rows.append(r)
        return rows

    # ------------------------------------------------------------ json
    def dumps(self, st, node, v, kwargs):
        opts = {}
        for k, x in kwargs.items():
            if k in ('ensure_ascii', 'sort_keys', 'indent', 'separators'):
                ok, y = (True, tuple(self.plain(st, x))) if k == 'separators' else constant(x)
                if not ok:
                    raise Unknown
                opts[k] = y
            elif k not in ('allow_nan', 'check_circular', 'skipkeys'):
                raise Unknown
        scheme = ('JSON', opts.get('ensure_ascii', True))
        opts['ensure_ascii'] = False
        x = self.plain(st, v)
        s = json.dumps(self.json_ready(x, scheme), **opts)
        return re.sub(r'"\s*' + NUMTAG + r'(.)"', lambda m: m[1], s)

    def json_ready(self, x, scheme):
        if isinstance(x, Number):
            return NUMTAG + str(x)
        if isinstance(x, dict):
            if not all(isinstance(k, str) for k in x):
                raise Unknown
            return {self.mark(k, scheme): self.json_ready(y, scheme) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.json_ready(y, scheme) for y in x]
        return self.mark(x, scheme) if isinstance(x, str) else x

    def loads(self, st, node, s):
        # numbers stand outside of the strings
        out, instr, esc = [], False, False
        for c in s:
            if instr:
                instr = esc or c != '"'
                esc = not esc and c == '\\'
            elif c == '"':
                instr = True
            elif self.kind(c) == 'number' or c == LOST:
                c = json.dumps({NUMTAG: c}, ensure_ascii=False)
            out.append(c)
        x = json.loads(''.join(out))
        return self.json_read(x, node)

    def json_read(self, x, node):
        if isinstance(x, dict):
            return x if set(x) == {NUMTAG} else {self.json_read(k, node): self.json_read(y, node) for k, y in x.items()}
        if isinstance(x, list):
            return [self.json_read(y, node) for y in x]
        if isinstance(x, str):
            for k in (True, False):
                if self.t.char('quoting', ('JSON', k)) in x:
                    return self.unmark(x, ('JSON', k), node)
            return self.unmark(x, ('JSON', True), node)
        return x

    # ------------------------------------------------------------ xml
    def element(self, st, node, tag, attrib, tagid):
        I = self.I
        at = I.new(st, node, ('xmlattrib', tagid), 'dict', attrs=dict(attrib))
        ch = I.new(st, node, ('xmlchildren', tagid), 'list', items=(), shape=(0,))
        return I.new(st, node, ('xmlel', tagid), 'xmlel', attrs={'tag': tag, 'attrib': at, 'children': ch, 'text': avc(None), 'tail': avc(None)})

    def build(self, st, v):
        """the real element of an abstract one"""
        a = v.single()
        o = self.I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
        if o is None or o.t != 'xmlel':
            raise Unknown
        tag, text, tail = self.plain(st, o.attrs['tag']), self.plain(st, o.attrs['text']), self.plain(st, o.attrs['tail'])
        attrib = self.plain(st, o.attrs['attrib'])
        if isinstance(tag, Number) or not all(isinstance(x, str) and not isinstance(x, Number) for x in attrib.values()) or not isinstance(text, (str, type(None))):
            raise Unknown
        el = ET.Element(self.mark(tag, ('XML',)), {k: self.mark(x, ('XML',)) for k, x in attrib.items()})
        el.text = self.mark(text, ('XML',)) if text else text
        el.tail = tail
        its = self.I.models.exact_items(self.I, st, o.attrs['children'])
        if its is None:
            raise Unknown
        for x in its:
            el.append(self.build(st, x))
        return el

    def parsed(self, st, node, s, tag=()):
        root = ET.fromstring(s) if isinstance(s, str) else s
        un = lambda x: avc(self.unmark(x, ('XML',), node)) if isinstance(x, str) else avc(x)
        el = self.element(st, node, un(root.tag), {k: un(x) for k, x in root.attrib.items()}, ('parsed',) + tag)
        kids = tuple(self.parsed(st, node, c, tag + (n,)) for n, c in enumerate(root))
        at = self.I.obj(st, el.oids()[0]).attrs
        st.heap[at['children'].oids()[0]] = self.I.obj(st, at['children'].oids()[0]).replace(items=kids, shape=(len(kids),), facts=frozenset({'nonempty'} if kids else ()))
        self.put(st, el.oids()[0], text=un(root.text), tail=un(root.tail))
        return el

    def xmltext(self, st, v):
        a = v.single()
        o = self.I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
        if o is not None and o.t == 'xmltree':
            v = o.attrs['root']
        return ET.tostring(self.build(st, v), encoding='unicode')

    # ------------------------------------------------------------ graphs
    def digraph(self, st, node, fl, kwargs):
        I = self.I
        if fl and fl[0].single() != NONE or kwargs:
            a = fl[0].single() if fl else None
            o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
            if o is not None and o.t == 'graph' and 'edges*' in o.attrs:
                return I.deepcopy(st, node, fl[0], 'graphcopy')
            return None
        ns = I.new(st, node, 'graphnodes', 'dict')
        es = I.new(st, node, 'graphedges', 'dict')
        return I.new(st, node, 'digraph', 'graph', attrs={'nodes*': ns, 'edges*': es})

    def attrdict(self, st, node, tag, old, new):
        return self.I.new(st, node, ('graphattr', tag), 'dict', attrs={**(dict(self.I.obj(st, old.oids()[0]).attrs) if old is not None else {}), **new})

    def graph_put(self, st, node, o, what, key, new):
        """add a node or an edge, or attributes of it"""
        d = o.attrs[what].oids()[0]
        x = self.I.obj(st, d)
        st.heap[d] = x.replace(attrs={**x.attrs, key: self.attrdict(st, node, (what, key), x.attrs.get(key), new)})

    def graph_drop(self, st, oid):
        o = self.I.obj(st, oid)
        st.heap[oid] = o.replace(attrs={k: v for k, v in o.attrs.items() if k not in ('nodes*', 'edges*')})

    def graph_method(self, st, node, oid, o, name, fl, kwargs):
        I = self.I
        k = lambda v: I.models.known(I, st, v.single())
        if name in ('add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'add_weighted_edges_from'):
            attrs = {x: v for x, v in kwargs.items()}
            if I.loopdepth or '**' in attrs or 'edges*' not in o.attrs:
                raise Unknown
            if name == 'add_node':
                self.graph_put(st, node, o, 'nodes*', k(fl[0]), attrs)
            elif name == 'add_nodes_from':
                its = I.models.exact_items(I, st, fl[0])
                if its is None:
                    raise Unknown
                for x in its:
                    a = x.single()
                    extra = {}
                    if a is not None and a[0] == 'o':
                        y = I.obj(st, a[1])
                        if y is None or y.items is None or len(y.items) != 2 or not y.items[1].oids():
                            raise Unknown
                        x, extra = y.items[0], I.obj(st, y.items[1].oids()[0]).attrs
                    self.graph_put(st, node, o, 'nodes*', k(x), {**attrs, **extra})
            else:
                if name == 'add_edge':
                    rows = [tuple(fl[:2])]
                else:
                    its = I.models.exact_items(I, st, fl[0])
                    if its is None:
                        raise Unknown
                    rows = [I.models.exact_items(I, st, x) for x in its]
                for r in rows:
                    if r is None:
                        raise Unknown
                    extra = {}
                    if len(r) > 2:
                        if name == 'add_weighted_edges_from':
                            extra = {'weight': r[2]}
                        elif r[2].oids() and I.obj(st, r[2].oids()[0]).t == 'dict':
                            extra = I.obj(st, r[2].oids()[0]).attrs
                        else:
                            raise Unknown
                    for x in r[:2]:
                        if k(x) not in I.obj(st, o.attrs['nodes*'].oids()[0]).attrs:
                            self.graph_put(st, node, o, 'nodes*', k(x), {})
                    self.graph_put(st, node, o, 'edges*', (k(r[0]), k(r[1])), {**attrs, **extra})
            return avc(None)
        if name in ('nodes', 'edges') and 'edges*' in o.attrs:
            if name == 'edges' and fl and len(fl) > 1 or 'nbunch' in kwargs:
                raise Unknown
            return self.graph_items(st, node, o, name, kwargs.get('data', fl[0] if fl else None), kwargs.get('default'))
        if name in ('number_of_nodes', 'order', 'number_of_edges', 'size') and not fl and not kwargs:
            return avc(len(I.obj(st, o.attrs['nodes*' if name in ('number_of_nodes', 'order') else 'edges*'].oids()[0]).attrs))
        if name == 'has_edge':
            return avc((k(fl[0]), k(fl[1])) in I.obj(st, o.attrs['edges*'].oids()[0]).attrs)
        if name == 'get_edge_data':
            return I.obj(st, o.attrs['edges*'].oids()[0]).attrs.get((k(fl[0]), k(fl[1])), kwargs.get('default', fl[2] if len(fl) > 2 else avc(None)))
        if name == 'copy':
            return I.deepcopy(st, node, av(('o', oid)), 'graphcopy')
        if name.startswith(('remove', 'clear', 'update')):
            raise Unknown
        return None

    def graph_items(self, st, node, o, name, data=None, default=None):
        I = self.I
        d = I.obj(st, o.attrs[name + '*'].oids()[0]).attrs
        keys = list(d)
        if name == 'edges':     # by their sources in the order of the nodes
            ns = list(I.obj(st, o.attrs['nodes*'].oids()[0]).attrs)
            keys.sort(key=lambda k: ns.index(k[0]))
        its = []
        a = data.single() if data is not None else C(False)
        if a is None or a[0] != 'c':
            raise Unknown
        for x in keys:
            key = tuple(avc(y) for y in x) if name == 'edges' else (avc(x),)
            if a[2] is False:
                its.append(I.new(st, node, (name, x), 'tuple', items=key, shape=(2,)) if name == 'edges' else key[0])
                continue
            v = d[x] if a[2] is True else I.obj(st, d[x].oids()[0]).attrs.get(a[2], default if default is not None else avc(None))
            its.append(I.new(st, node, (name, x), 'tuple', items=key + (v,), shape=(len(key) + 1,)))
        return I.new(st, node, ('graphitems', name), 'iter', items=tuple(its), shape=(len(its),), facts=frozenset({'nonempty'} if its else ()))

    # ------------------------------------------------------------ hooks
    def ext_call(self, st, node, dotted, args, kwargs):
        try:
            r = self.external(st, node, dotted, self.I.flat(args), kwargs)
        except Unknown:
            self.used('unknown ' + dotted)
            if dotted in ('json.dump',):
                self.put(st, self.disk_id(), text=AVU)
            return None
        except (json.JSONDecodeError, ET.ParseError, csv.Error) as ex:
            self.event(node, f'the document is not well-formed: {ex}')
            raise Unreachable
        if r is not None:
            self.used(dotted)
        return r

    def external(self, st, node, dotted, fl, kwargs):
        I = self.I
        name = dotted.rsplit('.', 1)[-1]
        if dotted in ('builtins.open', 'io.open'):
            return self.open(st, node, fl, kwargs)
        if dotted in ('os.path.isfile', 'os.path.exists'):
            ex = self.get(st, self.disk_id(), 'exists')
            return avc(ex) if isinstance(ex, bool) else None
        if dotted == 'os.path.isdir':
            return avc(True)
        if dotted == 'os.path.isabs':
            return avc(True)
        if dotted == 'os.path.getsize':
            s = self.get(st, self.disk_id(), 'text')
            return None if not isinstance(s, str) else AV({IV('int', len(s) - 0.5, float('inf'))}) if s else avc(0)
        if dotted in ('io.BytesIO', 'io.StringIO'):
            if fl:
                s = const(fl[0])
                return I.new(st, node, 'buffer', 'buffer', attrs={'text': avc(s) if isinstance(s, str) else AVU, 'encoding': avc(None)})
            return I.new(st, node, 'buffer', 'buffer', attrs={'text': avc(''), 'encoding': avc(None)})
        if dotted == 'builtins.str' and len(fl) + len(kwargs) > 1:
            a = fl[0].single()
            if a is not None and a[0] == 'o' and I.obj(st, a[1]).t == 'bytesv':
                return self.decode(st, node, a[1], kwargs.get('encoding', fl[1] if len(fl) > 1 else None))
            return None
        if dotted == 'builtins.bytes' and len(fl) > 1 and isinstance(const(fl[0]), str):
            return self.bytesv(st, node, const(fl[0]), const(fl[1]))
        if dotted == 'json.dump':
            s = self.dumps(st, node, fl[0], kwargs)
            f = kwargs.get('fp', fl[1] if len(fl) > 1 else None)
            if f is None or not f.oids():
                raise Unknown
            self.write(st, node, f.oids()[0], avc(s))
            return avc(None)
        if dotted == 'json.dumps':
            return avc(self.dumps(st, node, fl[0], kwargs))
        if dotted == 'json.load':
            a = fl[0].single()
            s = self.content(st, a[1], node) if a is not None and a[0] == 'o' and I.obj(st, a[1]).t in ('file', 'buffer') else None
            if s is None:
                raise Unknown
            return self.abstract(st, node, self.loads(st, node, s))
        if dotted == 'json.loads':
            s = const(fl[0])
            if not isinstance(s, str):
                raise Unknown
            return self.abstract(st, node, self.loads(st, node, s))
        if dotted == 'csv.writer':
            d = self.dialect(st, fl[1:], kwargs)
            return I.new(st, node, 'csvwriter', 'csvwriter', attrs={**{k: avc(x) for k, x in d.items()}, 'file': fl[0]})
        if dotted == 'csv.reader':
            return self.abstract(st, node, self.csvrows(st, node, fl[0], fl[1:], kwargs))
        if dotted == 'networkx.DiGraph':
            return self.digraph(st, node, fl, kwargs)
        if dotted.startswith(('xml.', 'defusedxml.')):
            if name == 'Element':
                return self.element(st, node, fl[0], self.attributes(st, fl[1:], kwargs), ())
            if name == 'SubElement':
                a = fl[0].single()
                o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
                if o is None or o.t != 'xmlel':
                    raise Unknown
                el = self.element(st, node, fl[1], self.attributes(st, fl[2:], kwargs), ())
                self.child(st, o, el)
                return el
            if name == 'ElementTree':
                return I.new(st, node, 'xmltree', 'xmltree', attrs={'root': kwargs.get('element', fl[0] if fl else avc(None))})
            if name == 'tostring':
                enc = constant(kwargs.get('encoding', fl[1] if len(fl) > 1 else None))
                s = self.xmltext(st, fl[0])
                if enc[0] and enc[1] == 'unicode':
                    return avc(s)
                return self.bytesv(st, node, s if not const(kwargs.get('xml_declaration', avc(None))) else f"<?xml version='1.0' encoding='{enc[1]}'?>\n" + s, enc[1])
            if name == 'parse':
                s = self.get(st, self.disk_id(), 'text')
                a = fl[0].single()
                if a is not None and a[0] == 'o' and I.obj(st, a[1]).t == 'file' and 'b' not in (const(I.obj(st, a[1]).attrs['mode']) or 'b'):
                    s = self.content(st, a[1], node)
                elif a is not None and a[0] == 'o' and I.obj(st, a[1]).t == 'buffer':
                    s = self.get(st, a[1], 'text')
                elif isinstance(s, str):
                    m = re.match(r'''<\?xml[^>]*encoding=["']([\w-]+)["']''', s)
                    d = I.obj(st, self.disk_id()).attrs['encoding']
                    if d.single() == NONE or const(d) is not None:
                        s = self.recode(s, const(d), m[1] if m else 'utf-8', node)
                if not isinstance(s, str):
                    raise Unknown
                return I.new(st, node, 'xmltree', 'xmltree', attrs={'root': self.parsed(st, node, re.sub(r'^<\?xml[^>]*\?>', '', s))})
            if name in ('fromstring', 'XML'):
                s = const(fl[0])
                if not isinstance(s, str):
                    raise Unknown
                return self.parsed(st, node, re.sub(r'^<\?xml[^>]*\?>', '', s))
        return None

    def attributes(self, st, fl, kwargs):
        out = {}
        if fl:
            a = fl[0].single()
            o = self.I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
            if o is None or o.t != 'dict' or o.elem.atoms:
                raise Unknown
            out.update(o.attrs)
        out.update({k: v for k, v in kwargs.items()})
        if '**' in out:
            raise Unknown
        return out

    def child(self, st, o, el):
        ch = o.attrs['children'].oids()[0]
        c = self.I.obj(st, ch)
        if self.I.loopdepth or c.items is None:
            st.heap[ch] = c.replace(items=None, shape=None, elem=join(c.elem, el))
        else:
            its = c.items + (el,)
            st.heap[ch] = c.replace(items=its, shape=(len(its),), facts=c.facts | {'nonempty'})

    def decode(self, st, node, oid, enc):
        ok, e = constant(enc, 'utf-8')
        s = self.get(st, oid, 'text')
        if not ok or s is None:
            raise Unknown
        d = self.I.obj(st, oid).attrs['encoding']
        return avc(self.recode(s, const(d), e, node))

    def method(self, st, node, oid, name, args, kwargs):
        o = self.I.obj(st, oid)
        t = o.t if o is not None else ''
        if t not in ('file', 'buffer', 'bytesv', 'csvwriter', 'xmlel', 'xmltree', 'path', 'graph'):
            return None
        try:
            r = self.methods(st, node, oid, o, t, name, self.I.flat(args), kwargs)
        except (Unknown, KeyError):
            self.used(f'unknown {t}.{name}')
            if t == 'graph':
                if name.startswith(('add', 'remove', 'clear', 'update')):
                    self.graph_drop(st, oid)
                return None
            if t in ('file', 'buffer', 'csvwriter', 'xmltree') and name.startswith('write'):
                self.put(st, self.disk_id(), text=AVU)
                for x in [oid] + [y for v in self.I.flat(args) for y in v.oids()]:
                    if self.I.obj(st, x).t in ('buffer', 'bytesv'):
                        self.put(st, x, text=AVU)
                return avc(None)
            return AVU if t != 'path' else None
        except (ET.ParseError, csv.Error) as ex:
            self.event(node, f'the document is not well-formed: {ex}')
            raise Unreachable
        if r is not None:
            self.used(f'{t}.{name}')
        return r

    def methods(self, st, node, oid, o, t, name, fl, kwargs):
        I = self.I
        if t == 'graph':
            return self.graph_method(st, node, oid, o, name, fl, kwargs) if 'edges*' in o.attrs else None
        if t in ('file', 'buffer'):
            if name == 'write':
                self.write(st, node, oid, fl[0])
                return avc(None)
            if name == 'writelines':
                its = I.models.exact_items(I, st, fl[0])
                if its is None:
                    raise Unknown
                for x in its:
                    self.write(st, node, oid, x)
                return avc(None)
            if name in ('seek', 'close', 'flush', 'tell', 'truncate', 'fileno'):
                return avc(0) if name in ('seek', 'tell', 'fileno') else avc(None)
            if name == 'getvalue':
                s = self.get(st, oid, 'text')
                e = o.attrs['encoding']
                return AVU if s is None else avc(s) if e.single() == NONE else self.bytesv(st, node, s, const(e))
            if name == 'read':
                s = self.content(st, oid, node) if 'b' not in (const(o.attrs.get('mode')) or '') else self.get(st, self.disk_id(), 'text')
                if s is None:
                    raise Unknown
                if fl and fl[0].single() not in (NONE, C(-1)):
                    return avc('' if s == '' else s[:1] if not TOK.match(s) else 'x') if const(fl[0]) == 1 else AVU
                return avc(s) if 'b' not in (const(o.attrs.get('mode')) or '') else self.bytesv(st, node, s, const(I.obj(st, self.disk_id()).attrs['encoding']))
            if name in ('readlines', 'readline', 'splitlines'):
                s = self.content(st, oid, node)
                ls = self.lines(s) if s is not None else None
                if ls is None:
                    raise Unknown
                if name == 'readline':
                    raise Unknown
                return self.abstract(st, node, ls)
            return AVU
        if t == 'bytesv':
            if name == 'decode':
                return self.decode(st, node, oid, kwargs.get('encoding', fl[0] if fl else None))
            return AVU
        if t == 'csvwriter':
            if name == 'writerow':
                self.writerow(st, node, oid, fl[0])
                return AVU
            if name == 'writerows':
                its = I.models.exact_items(I, st, fl[0])
                if its is None:
                    raise Unknown
                for x in its:
                    self.writerow(st, node, oid, x)
                return avc(None)
            return AVU
        if t == 'path':
            if name == 'open':
                return self.open(st, node, [AVU] + fl, kwargs)
            if name in ('is_file', 'exists'):
                ex = self.get(st, self.disk_id(), 'exists')
                return avc(ex) if isinstance(ex, bool) else None
            if name == 'write_text':
                f = self.open(st, node, [AVU, avc('w')], {k: v for k, v in kwargs.items() if k in ('encoding', 'newline')})
                self.write(st, node, f.oids()[0], fl[0])
                return AVU
            if name == 'write_bytes':
                f = self.open(st, node, [AVU, avc('wb')], {})
                self.write(st, node, f.oids()[0], fl[0])
                return AVU
            if name == 'read_text':
                f = self.open(st, node, [AVU], {k: v for k, v in kwargs.items() if k in ('encoding', 'newline')})
                s = self.content(st, f.oids()[0], node)
                return avc(s) if s is not None else AVU
            return None
        if t == 'xmltree':
            if name == 'getroot':
                return o.attrs['root']
            if name == 'write':
                f = fl[0].single()
                enc = constant(kwargs.get('encoding', fl[1] if len(fl) > 1 else None), 'us-ascii')
                decl = constant(kwargs.get('xml_declaration', fl[2] if len(fl) > 2 else None))
                s = self.xmltext(st, av(('o', oid)))
                if not enc[0] or not decl[0] or f is None:
                    raise Unknown
                if enc[1] == 'us-ascii':
                    enc = True, 'utf-8'     # everything else is written as character references
                if decl[1] or decl[1] is None and enc[1].lower() not in ('utf-8', 'us-ascii', 'unicode'):
                    s = f"<?xml version='1.0' encoding='{enc[1]}'?>\n" + s
                target = f[1] if f[0] == 'o' and I.obj(st, f[1]).t == 'buffer' else None
                if f[0] == 'o' and I.obj(st, f[1]).t == 'file':
                    self.write(st, node, f[1], avc(s))
                    if 'b' in (const(I.obj(st, f[1]).attrs['mode']) or ''):
                        self.put(st, self.disk_id(), encoding=enc[1])
                elif target is not None:
                    self.write(st, node, target, avc(s))
                    self.put(st, target, encoding=avc(enc[1]) if enc[1] != 'unicode' else avc(None))
                else:
                    self.put(st, self.disk_id(), text=s, encoding=enc[1], exists=True)
                return avc(None)
            if name in ('iter', 'findall', 'find', 'iterfind'):
                return self.methods(st, node, o.attrs['root'].oids()[0], I.obj(st, o.attrs['root'].oids()[0]), 'xmlel', name, fl, kwargs)
            return AVU
        if t == 'xmlel':
            if name == 'set':
                k = const(fl[0])
                at = o.attrs['attrib'].oids()[0]
                if not isinstance(k, str) or I.loopdepth:
                    st.heap[at] = I.obj(st, at).replace(attrs={}, elem=AVU)
                else:
                    st.heap[at] = I.obj(st, at).replace(attrs={**I.obj(st, at).attrs, k: fl[1]})
                return avc(None)
            if name in ('get', 'items', 'keys'):
                return AV(frozenset().union(*[v.atoms for _, v in [(st, self.I.models.method(I, st, node, o.attrs['attrib'].oids()[0], name, fl, kwargs))] if not isinstance(v, list)]))
            if name == 'append':
                self.child(st, o, fl[0])
                return avc(None)
            if name in ('iter', 'findall', 'iterfind'):
                want = const(fl[0]) if fl else None
                out = []

                def walk(v, top):
                    x = I.obj(st, v.single()[1])
                    if (name == 'iter' or not top) and (want in (None, '*') or const(x.attrs['tag']) == want):
                        out.append(v)
                    if name == 'iter' or top:
                        its = I.models.exact_items(I, st, x.attrs['children'])
                        if its is None:
                            raise Unknown
                        for c in its:
                            walk(c, False)
                if fl and not isinstance(want, str):
                    raise Unknown
                walk(av(('o', oid)), True)
                return I.new(st, node, ('xmliter',), 'list', items=tuple(out), shape=(len(out),), facts=frozenset({'nonempty'} if out else ()))
            if name in ('extend', 'insert', 'remove', 'clear'):
                self.put(st, oid, tag=AVU)
            return AVU
        return None

    def getattr(self, st, node, atom, name):
        if atom[0] == 'o':
            o = self.I.obj(st, atom[1])
            if o is not None and o.t == 'xmlel' and name in ('tag', 'attrib', 'text', 'tail'):
                return o.attrs[name]
            if o is not None and o.t == 'graph' and name in ('nodes', 'edges') and 'edges*' in o.attrs and not self.called(node):
                return self.graph_items(st, node, o, name)
        return None

    def called(self, node):
        """is the attribute only read in order to be called?"""
        m = self.I.fr.module
        if m not in self.callees:
            self.callees[m] = {id(x.func) for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
        return id(node) in self.callees[m]


class Number(str):
    """the text of an unknown number"""


# ---------------------------------------------------------------- round trips
STATES = {'mc': 3, 'hmm': 2}
SYMBOLS = 3
FORMATS = ('csv', 'json', 'txt', 'xml')


class Trip:
    """a model, what it is converted to, and the model that comes back"""

    def __init__(self, ctx, short, spaces=True, zeros=''):
        self.short = short
        mod, cname, _ = next(x for x in MODEL_CLASSES if x[2] == short)
        self.ci = ctx.repo.cls(mod, cname)
        self.client = Files()
        w = self.w = World(ctx.repo, self.client, None, 3_000_000)
        w.I.exact = True
        w.I.undecided = 'undecided'
        w.I.caller = 'user'
        w.I.cells = True
        w.I.tokens = Tokens(spaces)
        self.client.setup(w)
        n, k = STATES[short], SYMBOLS
        self.states = tuple(w.I.tokens.label(f'state {i + 1}') for i in range(n))
        self.symbols = tuple(w.I.tokens.label(f'symbol {i + 1}') for i in range(k)) if short == 'hmm' else ()
        w.keep_client = True
        if zeros:
            setattr(w, zeros, {'p': {(0, n - 1), (1, 1)} if n > 2 else {(1, 0)}, 'e': {(0, k - 1)}})
        w.labels = {n: self.states, k: self.symbols} if short == 'hmm' else {n: self.states}
        self.model = w.model(self.ci, 'self', 'state:', sp=(n, k))
        if short == 'hmm' and n == k:
            raise AssertionError

    def call(self, st, fi, args, kwargs=None):
        w = self.w
        w.I.collectors[0].clear()
        w.st = st
        vals = w.I.bind(fi, args, kwargs or {}, st, w.node)
        try:
            return w.I.run(fi, vals, st, w.node)
        except Unreachable:
            return []


def describe(t, a):
    if a is None:
        return None
    if a[0] == 'c':
        if isinstance(a[2], str):
            if a[2] == LOST or LOST in a[2]:
                return 'a text that is not always the label (' + ', '.join(sorted(t.w.I.tokens.lost)) + ')'
            k = t.w.I.tokens.kinds.get(a[2])
            return f'the label of {k[1]}' if k is not None and k[0] == 'label' else repr(TOK.sub('*', a[2]))
        return repr(a[2])
    r = role(a) or ''
    if r.startswith('cell:'):
        _, m, i, j = r.strip('~').split(':')
        return f'{m}[{i}, {j}]'
    if r.startswith('sum:'):
        return 'a sum of elements'
    if r == 'lost':
        return 'a number that is not always the same (' + ', '.join(sorted(t.w.I.tokens.lost)) + ')'
    return None


def compare(t, st, v):
    """what differs for certain; how much is known to be equal; how much there is"""
    I = t.w.I
    a = v.single()
    o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
    if o is None or o.t != 'inst':
        return [], 0, 1
    orig = I.obj(st, t.model.oids()[0])
    if o.cls is not orig.cls:
        return [f'a {o.cls.name} comes back'], 0, 1
    bad, same, total = [], 0, 0
    for attr, x in orig.attrs.items():
        y = o.attrs.get(attr)
        b = x.single()
        ob = I.obj(st, b[1]) if b is not None and b[0] == 'o' else None
        if ob is None or y is None or y.single() is None or y.single()[0] != 'o':
            continue
        name = attr.split('__')[-1]
        if ob.t == 'ndarray':
            cx, cy = cells_of(I, st, b[1]), cells_of(I, st, y.single()[1])
            if cx is None or not any(c.single() is not None and (role(c.single()) or '').startswith('cell:') for c in cx[1]):
                continue
            total += len(cx[1])
            if cy is None:
                continue
            if cx[0] != cy[0]:
                bad.append(f'{name} of shape {cx[0]} comes back with the shape {cy[0]}')
                continue
            for n, (p, q) in enumerate(zip(cx[1], cy[1])):
                i, j = divmod(n, cx[0][1])
                if p.single() == q.single():
                    same += 1
                elif describe(t, q.single()) is not None:
                    bad.append(f'the element {name}[{i}, {j}] comes back as {describe(t, q.single())}')
        elif ob.t == 'list' and ob.items is not None and ob.items and all(const(i) in (*t.states, *t.symbols) for i in ob.items):
            yo = I.obj(st, y.single()[1])
            total += len(ob.items)
            if yo.items is None:
                continue
            if len(yo.items) != len(ob.items):
                bad.append(f'{len(ob.items)} {name} come back as {len(yo.items)}')
                continue
            for n, (p, q) in enumerate(zip(ob.items, yo.items)):
                if p.single() == q.single():
                    same += 1
                elif describe(t, q.single()) is not None:
                    bad.append(f'the label of {t.w.I.tokens.kinds[const(p)][1]} comes back as {describe(t, q.single())}')
    return bad, same, total

class Trouble(Exception):
    pass


def entries_of(t):
    """what a model consists of: [(key, value)], the keys as in the dictionary of the model"""
    n, k = STATES[t.short], SYMBOLS
    out = []

    def cell(m, i, j):
        return t.w.cell(m, i, j, n if m == 'p' else k)
    for i in range(n):
        for j in range(n):
            out.append(((t.states[i], t.states[j]) if t.short == 'mc' else ('P', t.states[i], t.states[j]), cell('p', i, j)))
        for j in range(k if t.short == 'hmm' else 0):
            out.append((('E', t.states[i], t.symbols[j]), cell('e', i, j)))
    return out


KEYS = {'mc': ('state_from', 'state_to', 'probability'), 'hmm': ('reference', 'element_from', 'element_to', 'probability')}
ROOT = {'mc': 'MarkovChain', 'hmm': 'HiddenMarkovModel'}


def num(t, a):
    return str(a[2]) if a[0] == 'c' else t.w.I.tokens.text_of(a)


def document(t, fmt, entries, edit=None):
    """a document in the documented layout; edit makes something else of it"""
    edited = lambda x: x if edit is None else edit(x)
    cl, keys = t.client, KEYS[t.short]
    if fmt == 'json':
        rows = edited([{**dict(zip(keys, k)), keys[-1]: Number(num(t, v)) if v[0] != 'c' else v[2]} for k, v in entries])
        s = json.dumps(cl.json_ready(rows, ('JSON', True)), ensure_ascii=False)
        return re.sub(r'"' + NUMTAG + r'(.)"', lambda m: m[1], s)
    if fmt == 'txt':
        return ''.join(' '.join(x) + '\n' for x in edited([[*k, num(t, v)] for k, v in entries]))
    if fmt == 'xml':
        root = ET.Element(ROOT[t.short])
        for k, v in entries:
            ET.SubElement(root, 'Item', {**{a: cl.mark(x, ('XML',)) for a, x in zip(keys, k)}, keys[-1]: num(t, v)})
        root = edited(root)
        return "<?xml version='1.0' encoding='utf-8'?>\n" + ET.tostring(root, encoding='unicode')
    d = cl.dialect(None, (), {})
    buf = io.StringIO()
    w = csv.writer(buf, **d)
    vs = dict(entries)
    heads = list(dict.fromkeys(k[-2] for k, _ in entries))
    row = lambda xs: [cl.mark(x, cl.scheme(d)) for x in xs]
    if t.short == 'mc':
        lines = [list(heads)] + [[num(t, vs[a, b]) for b in heads] for a in heads]
    else:
        heads = list(dict.fromkeys(k[-2] for k, _ in entries))
        syms = list(dict.fromkeys(k[-1] for k, _ in entries if k[0] == 'E'))
        lines = [['P_' + x for x in heads] + ['E_' + x for x in syms]] + [[num(t, vs['P', a, b]) for b in heads] + [num(t, vs['E', a, b]) for b in syms] for a in heads]
    w.writerows([row(x) for x in edited(lines)])
    return buf.getvalue()


def understood(t, fmt, s):
    """the entries of a document, read as documented: {key: text of the number}"""
    cl, keys, out = t.client, KEYS[t.short], {}
    node = t.w.node

    def put(k, v):
        if k in out:
            raise Trouble('contains an entry twice')
        out[k] = v
    try:
        if fmt == 'json':
            for o in cl.loads(None, node, s):
                if not isinstance(o, dict) or set(o) != set(keys):
                    raise Trouble('contains objects with other properties than documented')
                v = o[keys[-1]]
                put(tuple(o[a] for a in keys[:-1]), v[NUMTAG] if isinstance(v, dict) else v)
        elif fmt == 'txt':
            for line in s.splitlines():
                r = line.split()
                if len(r) != len(keys):
                    raise Trouble('contains lines of another number of fields than documented')
                put(tuple(r[:-1]), r[-1])
        elif fmt == 'xml':
            root = ET.fromstring(re.sub(r'^<\?xml[^>]*\?>', '', s))
            if root.tag != ROOT[t.short]:
                raise Trouble('has another root element than documented')
            for x in root:
                if x.tag != 'Item' or set(x.attrib) != set(keys):
                    raise Trouble('has other elements or attributes than documented')
                put(tuple(cl.unmark(x.attrib[a], ('XML',), node) for a in keys[:-1]), x.attrib[keys[-1]])
        else:
            d = cl.dialect(None, (), {})
            head, *rows = [[cl.unmark(x, cl.scheme(d), node) for x in r] for r in csv.reader(io.StringIO(s, newline=''), **d)]
            names = head if t.short == 'mc' else [x[2:] for x in head if x.startswith('P_')]
            if t.short == 'hmm' and not all(x[:2] in ('P_', 'E_') for x in head) or len(rows) != len(names) or any(len(r) != len(head) for r in rows):
                raise Trouble('has another layout than documented')
            for a, r in zip(names, rows):
                for h, x in zip(head, r):
                    put((a, h) if t.short == 'mc' else (h[0], a, h[2:]), x)
    except (json.JSONDecodeError, ET.ParseError, csv.Error, ValueError) as ex:
        raise Trouble(f'is not well-formed ({ex})')
    return out


def look(t, st, a, other):
    """does an element, given by its text, differ from the expected one for certain?"""
    n = t.w.I.tokens.number(other) if isinstance(other, str) else C(other)
    if n is None:
        try:
            n = C(float(other))
        except (TypeError, ValueError):
            return 'a text that is no number'
    return None if n == a else describe(t, n)


def writer(ctx, short, fmt, zeros):
    """the document that is written has the documented layout and contains the model -> (trip, problems, known, total)"""
    t = Trip(ctx, short, fmt != 'txt', zeros)
    want = dict(entries_of(t))
    outs = t.call(t.w.st, t.ci.members['to_file'], [t.model, avc('/tmp/model.' + fmt)])
    res = []
    for st, _ in outs:
        s = t.client.get(st, t.client.disk_id(), 'text')
        bad, known = [], 0
        if isinstance(s, str):
            try:
                got = understood(t, fmt, s)
                for k, a in want.items():
                    if k not in got:
                        if a != C(0.0):
                            bad.append(f'the entry for {names(t, k)} is missing')
                        continue
                    known += 1
                    x = look(t, st, a, got[k])
                    if x is not None:
                        bad.append(f'the entry for {names(t, k)} is {x}')
                for k in got:
                    if k not in want:
                        bad.append(f'there is an entry for {names(t, k)}')
            except Trouble as ex:
                bad.append(f'the document {ex}')
        res.append((st, bad, known))
    return t, res, len(want)


def names(t, k):
    return ', '.join(describe(t, C(x)) or repr(x) for x in k)


def reader(ctx, short, fmt, order, zeros):
    """a document in the documented layout is read as what it says"""
    t = Trip(ctx, short, fmt != 'txt', zeros)
    es = entries_of(t)
    if order == 'reversed':
        es = es[::-1]
    elif order == 'by columns':
        es = sorted(es, key=lambda x: (x[0][:-2], [k[-1] for k, _ in es].index(x[0][-1]), [k[-2] for k, _ in es].index(x[0][-2])))
    elif order == 'mixed':
        # another order of the columns in every row
        rows = {}
        for x in es:
            rows.setdefault(x[0][:-1], []).append(x)
        es = [x for n, r in enumerate(rows.values()) for x in r[n % len(r):] + r[:n % len(r)]]
    st = t.w.st
    args = []
    if fmt == 'dictionary':
        args = [t.w.new(('given',), 'dict', attrs={k: AV({v}) for k, v in es}, facts=frozenset({'nonempty'}))]
    elif fmt == 'graph':
        args = [given_graph(t, es)]
    else:
        t.client.put(st, t.client.disk_id(), text=document(t, fmt, es), encoding=avc('utf-8' if fmt == 'xml' else None), exists=True)
        args = [avc('/tmp/model.' + fmt)]
    outs = t.call(st, t.ci.members['from_graph' if fmt == 'graph' else 'from_dictionary' if fmt == 'dictionary' else 'from_file'], args)
    return t, [(st, *attached(t, st, v, dict(es))) for st, v in outs]


def given_graph(t, es):
    w, cl = t.w, t.client
    node = w.node
    g = cl.digraph(w.st, node, [], {})
    o = w.I.obj(w.st, g.oids()[0])
    if t.short == 'hmm':
        for x in t.symbols[::-1]:
            cl.graph_put(w.st, node, o, 'nodes*', x, {'layer': avc(0)})
        for x in t.states[::-1]:
            cl.graph_put(w.st, node, o, 'nodes*', x, {'layer': avc(1)})
    for k, v in es:
        for x in k[-2:]:
            if x not in w.I.obj(w.st, o.attrs['nodes*'].oids()[0]).attrs:
                cl.graph_put(w.st, node, o, 'nodes*', x, {})
        if v != C(0.0):
            cl.graph_put(w.st, node, o, 'edges*', k[-2:], {'weight': AV({v}), **({'type': avc(k[0])} if t.short == 'hmm' else {})})
    return g


def parts(t, st, v):
    """(state labels, symbol labels, {matrix: (shape, elements)}) of a model, as far as known"""
    I = t.w.I
    a = v.single()
    o = I.obj(st, a[1]) if a is not None and a[0] == 'o' else None
    if o is None or o.t != 'inst':
        return None
    out = {}
    for attr, x in o.attrs.items():
        name = attr.split('__')[-1]
        if name in ('states', 'symbols') and x.single() is not None and x.single()[0] == 'o':
            y = I.obj(st, x.single()[1])
            out[name] = tuple(const(i) for i in y.items) if y.items is not None else None
        elif name in ('p', 'e') and x.single() is not None and x.single()[0] == 'o':
            out[name] = cells_of(I, st, x.single()[1])
    return out


def attached(t, st, v, want):
    """every element of the matrices belongs to the labels of its row and column -> (problems, known, total)"""
    p = parts(t, st, v)
    if p is None:
        return [], 0, len(want)
    bad, known = [], 0
    states, symbols = p.get('states'), p.get('symbols')
    for what, got, ref in (('states', states, t.states), ('symbols', symbols, t.symbols)):
        if got is not None and None not in got and (t.short == 'hmm' or what == 'states'):
            if sorted(got) != sorted(ref):
                bad.append(f'the {what} of the model are ' + (', '.join(describe(t, C(x)) or repr(x) for x in got) or 'none'))
    if bad:
        return bad, known, len(want)
    for m, cols in (('p', states), ('e', symbols)):
        c = p.get(m)
        if c is None or states is None or cols is None or None in states or None in cols or (m == 'e' and t.short == 'mc'):
            continue
        if c[0] != (len(states), len(cols)):
            bad.append(f'the matrix {m} has the shape {c[0]}')
            continue
        for n, x in enumerate(c[1]):
            i, j = divmod(n, len(cols))
            k = (states[i], cols[j]) if t.short == 'mc' else (m.upper(), states[i], cols[j])
            a = x.single()
            if k in want and a == want[k]:
                known += 1
            elif describe(t, a) is not None:
                bad.append(f'the probability from {names(t, k[-2:-1])} to {names(t, k[-1:])} is {describe(t, a)}')
    return bad, known, len(want)


def trip(ctx, short, there, back, arg, spaces, zeros, extra=None):
    """-> (trip, [(state, problems, known, total)])"""
    t = Trip(ctx, short, spaces, zeros)
    ms = t.ci.members
    outs = t.call(t.w.st, ms[there], [t.model] + ([arg] if arg is not None else []))
    res = []
    for st, v in outs:
        if arg is not None:
            args = [arg]
        elif there in ('to_matrix', 'to_matrices'):
            its = (v,) if there == 'to_matrix' else t.w.I.models.exact_items(t.w.I, st, v)
            if its is None:
                res.append((st, [], 0, 1))
                continue
            t.w.st = st
            args = list(its) + [t.w.label_list(('labels', n), len(ls)) for n, ls in enumerate((t.states, t.symbols)) if ls]
        else:
            args = [v]
        res += [(s, *compare(t, s, x)) for s, x in t.call(st, ms[back], args)]
    return t, res


# the layout of documents does not depend on the model: these operations are asked of both classes
WAYS = [('mc', 'to_dictionary', 'from_dictionary'), ('mc', 'to_graph', 'from_graph'), ('mc', 'to_matrix', 'from_matrix'),
        ('hmm', 'to_dictionary', 'from_dictionary'), ('hmm', 'to_graph', 'from_graph'), ('hmm', 'to_matrices', 'from_matrices')]
ORDERS = ('as written', 'reversed', 'by columns', 'mixed')


def jobs():
    for z in ('', 'zeros', 'tiny'):
        for short in ('mc', 'hmm'):
            for f in FORMATS:
                yield 'trip', short, 'to_file', 'from_file', f, z
                yield 'writer', short, 'to_file', None, f, z
                for o in ORDERS if f != 'csv' else ORDERS[:1]:
                    yield 'reader', short, 'from_file', o, f, z
            for f in ('dictionary', 'graph'):
                for o in ORDERS:
                    yield 'reader', short, 'from_' + f, o, f, z
        for short, there, back in WAYS:
            yield 'trip', short, there, back, None, z


def job(ctx, j):
    kind, short, a, b, f, z = j
    try:
        if kind == 'trip':
            t, res = trip(ctx, short, a, b, avc('/tmp/model.' + f) if f else None, f != 'txt', z)
        elif kind == 'writer':
            t, res, total = writer(ctx, short, f, z)
            res = [(st, bad, known, total) for st, bad, known in res]
        else:
            t, res = reader(ctx, short, f, b, z)
    except Budget:
        return 'unknown', '', [], 0, 0, ''
    ev = [f'{l}: {x}' for l, x in t.client.events]
    total = max([r[3] for r in res] or [1])
    known = min([r[2] for r in res] or [0])
    where = t.ci.members[b if kind == 'trip' else a].loc()
    if not res:
        definite = [r for r in t.w.I.collectors[0] if 'undecided' not in r[0].flags]
        st = 'violated' if definite or t.w.I.collectors[0] else 'unknown'
        why = 'it is never accepted' + (f' ({definite[0][1][0]})' if definite else '')
        return st, why, ev, known, total, where
    sure = [r for r in res if 'undecided' not in r[0].flags]
    if all(r[1] for r in res) or any(r[1] for r in sure):
        r = next(r for r in (sure or res) if r[1])
        return 'violated', r[1][0] + (f' (and {len(r[1]) - 1} more)' if len(r[1]) > 1 else ''), ev, known, total, where
    return 'ok' if known == total and not any(r[1] for r in res) else 'unknown', '', ev, known, total, where


def conversions(ctx):
    ctx.rule = ('Labels and matrix elements are opaque: the provenance of every text fragment and number is followed from the model through the writer into the document (files, dictionaries, graphs, matrices) and back through the reader; '
                'each label in a document carries the quoting it was written with, and is lost where the reader undoes another one, where it is cut, stripped or recoded. The model that comes back must have the same labels in the same order and the '
                'same element at every position; a document in the documented layout, its entries in any of four orders, must be read as what it says; what is written must have the documented layout.')
    todo = list(jobs())
    res = pmap(lambda j: job(ctx, j), todo, fallback=lambda why: ('unknown', why, (), 0, 0, ''))
    done = elements = 0
    for j, (st, why, ev, known, total, where) in zip(todo, res):
        kind, short, a, b, f, z = j
        cname = next(c for _, c, s in MODEL_CLASSES if s == short)
        what = {'trip': f'{cname}.{a} and {b}', 'writer': f'what {cname}.{a} writes', 'reader': f'{cname}.{a} ({b})'}[kind] + (f', {f}' if f else '') + ({'': '', 'zeros': ', with zeros', 'tiny': ', with tiny elements'}[z])
        ctx.ob(what, st, '' if st == 'ok' else why or f'{known} of {total} elements followed')
        done += st != 'unknown'
        elements += known
        if st == 'violated':
            say = {'trip': f'a {cname} does not come back from {a} and {b}', 'writer': f'a {cname} is not written as documented', 'reader': f'a document with the entries {b} is not read by {cname}.{a} as what it says'}[kind]
            ctx.violation(f'{cname}:{a}:{b}:{f}', say + (f' ({f})' if f else '') + f': {why}', where, ev)
    ctx.count('conversions', len(todo))
    ctx.count('conversions decided', done)
    ctx.count('elements and labels followed', elements)
    ctx.floor('conversions', len(todo), 70)
