"""Files of a fixed shape with symbolic content, and packs taken apart again."""
import re
import struct

from .common import *       # noqa
from .scen import State_slots, spec

WS = ' \t\n\r\x0b\x0c'


def init_model(E, st, b):
    """ChannelPack(data, names) keeping what it was given"""
    o = st.mut(b['self'])
    for n in ('data', 'names'):
        v = b.get(n, NONE)
        o.attrs[n] = v if v != NONE else st.alloc(DictObj())
    o.attrs['filenames'] = st.alloc(ListObj('list', []))
    o.attrs['FALLBACK_PREFIX'] = K('ch')
    o.attrs['fn'] = K('')
    o.attrs['nof'] = NONE
    o.attrs['mindur'] = NONE
    return [(st, NONE)]


class ReadScene(object):
    def __init__(self, P, opaque=None, observers=(), eager=True, may_raise=False):
        self.P = P
        op = {PACK + '.__init__': init_model}
        op.update(opaque or {})
        P.func(PACK + '.__init__')
        self.user_obs = list(observers)
        self.E = E = Engine(P, self.user_obs, may_raise=may_raise, opaque=op)
        E.eager_gens = eager
        E.max_steps = 60000
        self.st = E.new_state()

    def file(self, label, pos=K(0), **attrs):
        st = self.st
        r = M.new_file(st, label, pos=pos)
        o = st.mut(r)
        for k, v in attrs.items():
            o.attrs['$' + k] = v
        return r

    def run(self, qual, args, kw=None, st=None):
        self.E.steps = 0
        return self.E.run(self.P.func(qual), list(args), dict(kw or {}), st=st or self.st.copy())


def lst(st, items):
    return st.alloc(ListObj('list', [('one', x) for x in items]))


def dct(st, pairs):
    d = DictObj()
    d.ents = tuple(('one', k, v) for k, v in pairs)
    return st.alloc(d)


def entries(E, st, v):
    """dict value -> {key: value} for dicts with known constant keys, or None"""
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'inst' and getattr(o, 'd', None) is not None:
            o = st.get(o.d)
        if isinstance(o, DictObj) and o.base is None and all(e[0] == 'one' and isinstance(e[1], K) for e in o.ents):
            out = {}
            for e in o.ents:
                out[e[1].v] = e[2]
            return out
    return None


def items(E, st, v):
    """values of a fixed sequence, or None"""
    if isinstance(v, Ref) and st.get(v).kind == 'array':
        el = st.get(v).elem
        if isinstance(el, T) and el.op == 'at' and isinstance(el.args[0], Tup):
            return list(el.args[0].items)
        return None
    return E.fixed_items(v, st)


def columns(E, st, pack):
    """-> ({key: [values]}, {key: name}) or None"""
    if not isinstance(pack, Ref) or st.get(pack).kind != 'inst':
        return None
    at = st.get(pack).attrs
    d, n = entries(E, st, at.get('data')), entries(E, st, at.get('names'))
    if d is None or n is None:
        return None
    out = {}
    for k, v in d.items():
        it = items(E, st, v)
        if it is None:
            return None
        out[k] = it
    return out, n


class TextScene(ReadScene):
    """A text stream of `rows` lines with `ncols` fields; a row given as None is blank."""

    def __init__(self, P, rows, ncols, binary=False, delim=NONE, start=0, opaque=None, crlf=False, may_raise=False,
                 observers=()):
        ReadScene.__init__(self, P, opaque, may_raise=may_raise, observers=observers)
        self.binary, self.delim = binary, delim
        self.typ = 'bytes' if binary else 'str'
        self.fields = {}
        lines = []
        for i, r in enumerate(rows):
            if r is None:
                b = '\n' if delim in (K(' '), K(b' ')) else ' \n'
                lines.append(K(b.encode() if binary else b))
                continue
            n = r if isinstance(r, int) else ncols
            L = Sym('line%d' % i, self.typ)
            self.fields[L] = [Sym('f%d_%d' % (i, j), self.typ) for j in range(n)]
            lines.append(L)
        self.lines = lines
        self.E.method_hooks.append(self.hook)
        self.fo = self.file('caller stream', K(start), lines=Tup(lines), eof=K(b'' if binary else ''),
                            typ=K(self.typ))
        self.st.mut(self.fo).attrs['name'] = Sym('stream.name', 'str')
        self.opened = []
        for n in ('io.open', 'builtins.open'):
            self.E.models[n] = self.open
        self.E.models['codecs.open'] = lambda E, st, args, kw: self.open(
            E, st, args[:2], dict(kw, encoding=args[2]) if len(args) > 2 else kw)
        self.st.ghost['$roots'] = Tup([self.fo])
        for L in self.fields:
            self.st.facts[T('truthy', L)] = True

    def open(self, E, st, args, kw):
        st = E.implicit(st, T('open', *args[:1]), 'Exception')
        if st is None:
            return []
        r = M.new_file(st, 'opened')
        o = st.mut(r)
        src = st.get(self.fo)
        for k in ('$lines', '$eof', '$typ'):
            o.attrs[k] = src.attrs[k]
        o.attrs['name'] = args[0] if args else kw.get('file', NONE)
        st.ghost['$roots'] = Tup(list(st.ghost['$roots'].items) + [r])
        E.emit('open', st, file=r, name=args[0] if args else None, mode=args[1] if len(args) > 1 else kw.get('mode', K('r')),
               kw=dict(kw, encoding=args[3]) if len(args) > 3 else kw)
        return [(st, r)]

    def numeric(self):
        """every field is a number"""
        for L, fs in self.fields.items():
            for f in fs:
                self.st.facts[T('truthy', f)] = True
                self.st.facts[T('raises', T('float', f))] = False
        return self

    def row(self, i):
        return self.fields[self.lines[i]]

    def hook(self, E, st, o, name, args, kw):
        base = o
        cut = False
        if isinstance(o, T) and o.op == 'stripped':
            base, cut = o.args[0], o.args[1].v
        if not (isinstance(base, Sym) and base in self.fields):
            return None
        if name in ('strip', 'rstrip', 'lstrip'):
            cs = args[0] if args else NONE
            if isinstance(cs, K) and isinstance(cs.v, (str, bytes)) and type(cs.v).__name__ != self.typ:
                E.raise_(st, 'TypeError')
                return []
            if cs != NONE and not (isinstance(cs, K) and isinstance(cs.v, (str, bytes))):
                return [(st, Unk('strip of unknown characters'))]
            if cs == NONE:
                chars = WS
            else:
                chars = cs.v if isinstance(cs.v, str) else cs.v.decode('latin-1')
            d = self.delim.v if isinstance(self.delim, K) else None
            if isinstance(d, bytes):
                d = d.decode('latin-1')
            # stripping the delimiter itself loses empty fields at the ends; stripping
            # anything but white space eats into the fields
            if d and any(c in chars for c in d):
                cut = True
            if any(c not in WS for c in chars):
                cut = True
            t = T('stripped', base, K(bool(cut)))
            st.facts[T('truthy', t)] = True
            return [(st, t)]
        if name == 'split':
            d = args[0] if args else kw.get('sep', NONE)
            mx = args[1] if len(args) > 1 else kw.get('maxsplit')
            if mx is not None:
                return [(st, Unk('split with maxsplit'))]
            fs = self.fields[base]
            if isinstance(d, K) and isinstance(d.v, (str, bytes)) and type(d.v).__name__ != self.typ:
                E.raise_(st, 'TypeError')
                return []
            if cut or d != self.delim:
                why = 'fields of the wrong delimiter' if d != self.delim else 'fields lost at the line ends'
                fs = [T('wrongfield', K(why), f) for f in fs]
            elif base is o and d != NONE:
                fs = fs[:-1] + [T('wrongfield', K('line end kept'), fs[-1])]
            return [(st, lst(st, fs))]
        if name in ('decode', 'encode'):
            return None
        return None


def plen(x):
    return len(x.v) if isinstance(x, K) else x.args[2].v


class DbfScene(ReadScene):
    """A dbf stream with a concrete header and symbolic records."""

    def __init__(self, P, fields, nrec, start=0, opaque=None, reclen=None, may_raise=False, observers=()):
        """fields: (name, type, size, decimals)"""
        ReadScene.__init__(self, P, opaque, may_raise=may_raise, observers=observers)
        self.fields, self.nrec, self.start = fields, nrec, start
        self.known = {}
        nf = len(fields)
        h = struct.pack('<BBBBLHH20x', 3, 99, 1, 1, nrec, 33 + 32 * nf, 1 + sum(f[2] for f in fields))
        for n, t, size, deci in fields:
            h += struct.pack('<11sc4xBB14x', n.encode('ascii'), t, size, deci)
        h += b'\r'
        self.header = h
        st = self.st
        self.ident = Sym('dbf', 'file')
        if start == 'second':
            # after another dbf with one record in the same stream
            before = h[:4] + struct.pack('<L', 1) + h[8:] + b' ' + b'1' * sum(f[2] for f in fields)
            self.start = start = len(before)
            self.fo = self.file('caller stream', K(start), header=K(before + h), base=K(0), ident=self.ident)
        else:
            self.fo = self.file('caller stream', K(start), header=K(h), base=K(start), ident=self.ident)
        st.mut(self.fo).attrs['name'] = Sym('stream.name', 'str')
        st.ghost['$roots'] = Tup([self.fo])
        E = self.E
        for n in ('io.open', 'builtins.open'):
            E.models[n] = self.open
        E.models['struct.unpack'] = self.unpack
        E.method_hooks.append(self.hook)
        E.file_hooks.append(self.hook)
        E.item_hooks.append(self.item)
        E.binop_hooks.append(self.add)
        E.contains_hooks.append(self.contains)
        E.eager_gens = True

    def open(self, E, st, args, kw):
        st = E.implicit(st, T('open', *args[:1]), 'Exception')
        if st is None:
            return []
        r = M.new_file(st, 'opened', pos=K(0))
        o = st.mut(r)
        o.attrs['$header'], o.attrs['$base'] = K(self.header), K(0)
        o.attrs['$ident'] = self.ident
        o.attrs['name'] = args[0] if args else kw.get('file', NONE)
        st.ghost['$roots'] = Tup(list(st.ghost['$roots'].items) + [r])
        E.emit('open', st, file=r, name=args[0] if args else None, mode=args[1] if len(args) > 1 else K('r'), kw=kw)
        return [(st, r)]

    def unpack(self, E, st, args, kw):
        fmt, data = args
        E.emit('unpackcall', st, fmt=fmt, data=data)
        if isinstance(fmt, K) and isinstance(fmt.v, bytes):
            fmt = K(fmt.v.decode('latin-1'))
        if not isinstance(fmt, K) or not isinstance(fmt.v, str):
            return [(st, Unk('unpack'))]
        try:
            n = struct.calcsize(fmt.v)
        except struct.error:
            E.raise_(st, 'struct.error')
            return []
        ps = self.parts(data)
        if ps is None:
            return [(st, Unk('unpack'))]
        if sum(plen(x) for x in ps) != n:
            E.raise_(st, 'struct.error')
            return []
        if all(isinstance(x, K) for x in ps):
            return [(st, Tup([K(x) for x in struct.unpack(fmt.v, b''.join(x.v for x in ps))]))]
        f = fmt.v
        if f[:1] in '<>=@!':
            f = f[1:]
        out, off = [], 0
        for cnt, c in re.findall(r'(\d*)(\S)', f):
            k = int(cnt) if cnt else 1
            if c == 's':
                out.append(self.cut(ps, off, off + k))
            elif c == 'c':
                out += [self.cut(ps, off + i, off + i + 1) for i in range(k)]
            elif c != 'x':
                return [(st, Unk('unpack'))]
            off += k
        return [(st, Tup(out))]

    def parts(self, v):
        """a byte string as constants and pieces of the stream"""
        if isinstance(v, K) and isinstance(v.v, bytes):
            return [v] if v.v else []
        if isinstance(v, T) and v.op == 'rawbytes' and isinstance(v.args[2], K):
            return [v] if v.args[2].v else []
        if isinstance(v, T) and v.op == 'rawcat':
            return list(v.args[0].items)
        return None

    def build(self, ps):
        out = []
        for x in ps:
            if not plen(x):
                continue
            y = out[-1] if out else None
            if isinstance(x, K) and isinstance(y, K):
                out[-1] = K(y.v + x.v)
            elif isinstance(x, T) and isinstance(y, T) and y.args[1].v + y.args[2].v == x.args[1].v:
                out[-1] = T('rawbytes', self.ident, y.args[1], K(y.args[2].v + x.args[2].v))
            else:
                out.append(x)
        if not out:
            return K(b'')
        return out[0] if len(out) == 1 else T('rawcat', Tup(out))

    def cut(self, ps, a, b):
        out, off = [], 0
        for x in ps:
            n = plen(x)
            lo, hi = max(a, off), min(b, off + n)
            if lo < hi:
                if isinstance(x, K):
                    out.append(K(x.v[lo - off:hi - off]))
                else:
                    out.append(self.raw(x.args[1].v + lo - off, hi - lo))
            off += n
        return self.build(out)

    def add(self, E, st, op, a, b):
        if op == 'Add' and any(isinstance(x, T) and x.op in ('rawbytes', 'rawcat') for x in (a, b)):
            p, q = self.parts(a), self.parts(b)
            if p is not None and q is not None:
                return [(st, self.build(p + q))]
        return None

    def size(self):
        return self.start + len(self.header) + self.nrec * (1 + sum(f[2] for f in self.fields))

    def raw(self, pos, n):
        if (pos, n) in self.known:
            return self.known[pos, n]
        if n <= 0:
            return K(b'')
        return T('rawbytes', self.ident, K(pos), K(n))

    def hook(self, E, st, o, name, args, kw):
        """trimming: white space at the ends does not matter to int, float and emptiness"""
        if name == 'read' and isinstance(o, Ref) and '$header' in getattr(st.get(o), 'attrs', {}) and not kw:
            ob = st.get(o)
            pos, n = ob.attrs.get('$pos'), args[0] if args else K(-1)
            h, b = ob.attrs['$header'].v, ob.attrs['$base'].v
            if isinstance(pos, K) and isinstance(n, K) and (n.v is None or isinstance(n.v, int)) and \
                    ob.attrs.get('$closed') != TRUE:
                end = self.size() if n.v is None or n.v < 0 else pos.v + n.v
                ps = []
                if b <= pos.v < b + len(h):
                    ps.append(K(h[pos.v - b:end - b]))
                lo = max(pos.v, b + len(h))
                if pos.v >= b and (lo < end or not ps):
                    E.emit('filecall', st, file=o, name=name, args=args)
                    s = E.implicit(st, T('read', o, pos), 'Exception')
                    if s is None:
                        return []
                    s.mut(o).attrs['$pos'] = K(max(end, pos.v))
                    return [(s, self.build(ps + [self.raw(lo, end - lo)]))]
        if name in ('startswith', 'endswith') and isinstance(o, T) and o.op in ('rawbytes', 'rawcat') and len(args) == 1 and \
                isinstance(args[0], K) and isinstance(args[0].v, bytes):
            n, w = len(args[0].v), E.length(o, st).v
            x = self.cut(self.parts(o), 0, n) if name == 'startswith' else self.cut(self.parts(o), w - n, w)
            return [(st, K(x.v == args[0].v) if isinstance(x, K) else T('eq', x, args[0]))] if n <= w else [(st, FALSE)]
        if name == 'join' and isinstance(o, K) and o.v == b'' and len(args) == 1:
            it = E.fixed_items(args[0], st)
            ps = [self.parts(x) for x in it] if it is not None else [None]
            if all(x is not None for x in ps):
                return [(st, self.build([y for x in ps for y in x]))]
        if name in ('strip', 'lstrip', 'rstrip') and not args and not kw and E.typeof(o, st) == 'bytes' and \
                isinstance(o, T) and any(isinstance(x, T) and x.op == 'rawbytes' for x in walk(o)):
            return [(st, o if o.op == 'trim' else T('trim', o))]
        return None

    def item(self, E, st, o, k):
        ps = self.parts(o) if isinstance(o, T) else None
        if ps is not None and isinstance(k, T) and k.op == 'slice' and \
                all(isinstance(x, K) and (x.v is None or isinstance(x.v, int)) for x in k.args):
            n = sum(plen(x) for x in ps)
            a, b, c = slice(*[x.v for x in k.args]).indices(n)
            if c == 1:
                return [(st, self.cut(ps, a, max(a, b)))]
        if ps is not None and isinstance(k, K) and isinstance(k.v, int):
            n = sum(plen(x) for x in ps)
            i = k.v + n if k.v < 0 else k.v
            if not 0 <= i < n:
                E.raise_(st, 'IndexError')
                return []
            x = self.cut(ps, i, i + 1)
            return [(st, K(x.v[0]))] if isinstance(x, K) else [(st, T('byteat', x))]
        return None

    def contains(self, E, st, a, b):
        """one byte in a bytes constant"""
        if isinstance(a, T) and a.op == 'rawbytes' and a.args[2] == K(1) and isinstance(b, K) and isinstance(b.v, bytes):
            return E._in_items(a, [K(b.v[i:i + 1]) for i in range(len(b.v))], st)
        return None

    def offset(self, i, k):
        """position of field k (-1: the deletion flag) of record i"""
        rs = 1 + sum(f[2] for f in self.fields)
        p = self.start + len(self.header) + i * rs
        return p if k < 0 else p + 1 + sum(f[2] for f in self.fields[:k])

    def value(self, i, k):
        return self.raw(self.offset(i, k), 1 if k < 0 else self.fields[k][2])

    def set(self, i, k, value):
        """field k of record i (-1: the deletion flag) has a known value"""
        assert len(value) == (1 if k < 0 else self.fields[k][2])
        self.known[self.offset(i, k), len(value)] = K(value)


XL = 'channelpack.xlrd'
EMPTY, TEXT, NUMBER, DATE, BOOLEAN, ERROR, BLANK = range(7)


class SheetScene(ReadScene):
    """A loaded workbook; `cells` is a list of rows of (type, value) per sheet."""

    def __init__(self, P, sheets, opaque=None, datemode=None):
        op = {XL + '.open_workbook': self.open_workbook, XL + '.xldate.xldate_as_datetime': self.as_datetime}
        op.update(opaque or {})
        ReadScene.__init__(self, P, op)
        P.func(XL + '.open_workbook')
        P.func(XL + '.xldate.xldate_as_datetime')
        st = self.st
        bc, shc = P.cls(XL + '.book.Book'), P.cls(XL + '.sheet.Sheet')
        self.datemode = datemode or Sym('datemode', 'int')
        self.book = st.alloc(Inst(bc, 'book'))
        refs = []
        for i, (name, rows) in enumerate(sheets):
            sh = st.alloc(Inst(shc, name))
            ncols = max([len(r) for r in rows] + [0])
            st.mut(sh).attrs.update({
                'book': self.book, 'name': K(name), 'number': K(i), 'nrows': K(len(rows)), 'ncols': K(ncols),
                '_cell_types': lst(st, [lst(st, [K(t) for t, v in r]) for r in rows]),
                '_cell_values': lst(st, [lst(st, [v for t, v in r]) for r in rows]),
                '_cell_xf_indexes': lst(st, []), 'formatting_info': K(False), 'ragged_rows': K(False),
                '_dimnrows': K(len(rows)), '_dimncols': K(ncols), '_maxdatarowx': K(len(rows) - 1),
                '_maxdatacolx': K(ncols - 1), 'verbosity': K(0), 'utter_max_rows': K(65536), 'utter_max_cols': K(256)})
            refs.append(sh)
        st.mut(self.book).attrs.update({
            '_sheet_list': lst(st, refs), '_sheet_names': lst(st, [K(n) for n, r in sheets]), 'nsheets': K(len(refs)),
            'datemode': self.datemode, 'mem': NONE, 'filestr': NONE, '_resources_released': K(0), '_sharedstrings': NONE,
            '_rich_text_runlist_map': NONE, 'on_demand': K(False), 'verbosity': K(0)})
        st.ghost['$roots'] = Tup([self.book])
        self.opened = 0

    def open_workbook(self, E, st, b):
        self.opened += 1
        if b.get('ragged_rows', K(False)) not in (K(False), K(0)) or b.get('on_demand', K(False)) not in (K(False), K(0)):
            return [(st, Unk('workbook opened with options'))]
        return [(st, self.book)]

    def as_datetime(self, E, st, b):
        vs = list(b.values())
        t = T('asdatetime', b.get('xldate', vs[0]), b.get('datemode', vs[-1]))
        s = E.implicit(st, t, 'ValueError')
        return [(s, t)] if s is not None else []
