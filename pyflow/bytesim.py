"""Symbolic bytes, bit by bit.

A byte string of known length whose bytes are constants or inputs is the term
bstr(n, bytes): every byte is a tuple of 8 bits, lowest first, a bit is 0, 1 or
(label, byte number, bit number).  Integers made of such bits are bits(bits,
fill), lowest first, with fill the bit repeated above the highest one (0 or the
sign bit).  Slicing, struct.unpack, masks and shifts just move bits, so that two
ways of writing one extraction give the same term."""
import re
import struct

from .values import T, K, Tup, V, NONE, TRUE, FALSE, Unk, Ref
from . import models as M


def byte(x, label=None):
    if isinstance(x, int):
        return tuple((x >> i) & 1 for i in range(8))
    return tuple((label or x[0], x[1], i) for i in range(8))


def known(bits):
    return all(isinstance(b, int) for b in bits)


def bstr(bytes_):
    bytes_ = tuple(bytes_)
    if all(known(b) for b in bytes_):
        return K(bytes(sum(v << i for i, v in enumerate(b)) for b in bytes_))
    return T('bstr', len(bytes_), bytes_)


def data(label, n, **consts):
    """n unknown bytes"""
    return T('bstr', n, tuple(byte((label, i)) for i in range(n)))


def record(label, n, consts=()):
    """n bytes, consts: {offset: int or bytes}"""
    out = [byte((label, i)) for i in range(n)]
    for off, v in dict(consts).items():
        for j, x in enumerate(bytes([v]) if isinstance(v, int) else v):
            out[off + j] = byte(x)
    return bstr(out)


def bits(bs, fill=0):
    bs = list(bs)
    while bs and bs[-1] == fill:
        bs.pop()
    if known(bs) and isinstance(fill, int):
        v = sum(b << i for i, b in enumerate(bs))
        return K(v - (1 << len(bs)) if fill else v)
    return T('bits', tuple(bs), fill)


def as_bits(v):
    if isinstance(v, T) and v.op == 'bits':
        return list(v.args[0]), v.args[1]
    if isinstance(v, K) and isinstance(v.v, int):
        x, out = int(v.v), []
        while x not in (0, -1):
            out.append(x & 1)
            x >>= 1
        return out, (1 if x else 0)
    return None


def as_bytes(v):
    if isinstance(v, T) and v.op == 'bstr':
        return list(v.args[1])
    if isinstance(v, K) and isinstance(v.v, bytes):
        return [byte(x) for x in v.v]
    return None


def uint(label, off, n=2):
    return bits([(label, off + i // 8, i % 8) for i in range(8 * n)])


def sint(label, off, n=2):
    return bits([(label, off + i // 8, i % 8) for i in range(8 * n)], (label, off + n - 1, 7))


def field(label, off, lo, hi):
    """bits lo..hi (inclusive) of the little-endian integer at byte off"""
    return bits([(label, off + i // 8, i % 8) for i in range(lo, hi + 1)])


def f8(label, off):
    return T('ieee', tuple(byte((label, off + i)) for i in range(8)))


def span(label, off, n):
    return bstr(byte((label, off + i)) for i in range(n))


def text(label, off, n, enc):
    """n bytes decoded"""
    return mktext([byte((label, off + i)) for i in range(n)], K(enc))


def _enc(v):
    if isinstance(v, K) and isinstance(v.v, str):
        import codecs
        try:
            return K(codecs.lookup(v.v).name)
        except LookupError:
            return v
    return v


def mktext(bs, enc):
    enc = _enc(enc)
    if all(known(b) for b in bs) and isinstance(enc, K):
        try:
            return K(bstr(bs).v.decode(enc.v))
        except Exception:
            pass
    n = len(bs) // 2 if isinstance(enc, K) and str(enc.v).startswith('utf-16') else len(bs)
    return T('text', n, tuple(bs), enc)


def units(v):
    """the 16 bit units of a text value as pairs of bytes, None if not known: one form for all ways to build it"""
    if isinstance(v, K) and isinstance(v.v, str):
        raw = v.v.encode('utf-16-le', 'surrogatepass')
        return [(byte(raw[i]), byte(raw[i + 1])) for i in range(0, len(raw), 2)]
    if isinstance(v, T) and v.op in ('concat', 'cat2'):
        out = []
        for x in v.args:
            u = units(x)
            if u is None:
                return None
            out += u
        return out
    if isinstance(v, T) and v.op == 'text' and isinstance(v.args[2], K):
        if v.args[2].v == 'iso8859-1':
            return [(b, byte(0)) for b in v.args[1]]
        if v.args[2].v == 'utf-16-le' and len(v.args[1]) % 2 == 0:
            return list(zip(v.args[1][::2], v.args[1][1::2]))
    return None


def decode(E, st, bs, enc, errors=None):
    enc = _enc(enc)
    if errors is not None and errors != K('strict'):
        if not (all(known(b) for b in bs) and isinstance(enc, K) and isinstance(errors, K)):
            return [(st, Unk('decode with errors'))]
    if all(known(b) for b in bs) and isinstance(enc, K):
        try:
            return [(st, K(bstr(bs).v.decode(enc.v, errors.v if errors is not None else 'strict')))]
        except UnicodeDecodeError:
            E.raise_(st, 'UnicodeDecodeError')
            return []
        except Exception:
            pass
    return [(st, mktext(bs, enc))]


SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'd': 8, 'f': 4, '?': 1}


def unpack(fmt, bs):
    """-> list of values, None if the width does not fit, or Unk"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode('latin-1')
    try:
        if struct.calcsize(fmt) != len(bs):
            return None
    except struct.error:
        return None
    order, f = ('@', fmt) if fmt[:1] not in '<>=!@' else (fmt[0], fmt[1:])
    out, off = [], 0
    for cnt, c in re.findall(r'(\d*)([a-zA-Z?])', f):
        k = int(cnt) if cnt else 1
        if c == 'x':
            off += k
        elif c == 's':
            out.append(bstr(bs[off:off + k]))
            off += k
        elif c == 'c':
            out += [bstr(bs[off + i:off + i + 1]) for i in range(k)]
            off += k
        elif c in SIZES:
            for _ in range(k):
                n = SIZES[c]
                if order == '@':
                    n = struct.calcsize('@' + c)
                    off += -off % n
                q = bs[off:off + n]
                if order in '>!':
                    q = q[::-1]
                if c in 'df':
                    if all(known(b) for b in q):
                        out.append(K(struct.unpack('<' + c, bstr(q).v)[0]))
                    else:
                        out.append(T('ieee', tuple(q)))
                else:
                    flat = [b for x in q for b in x]
                    out.append(bits(flat, flat[-1] if c.islower() and c != '?' else 0))
                off += n
        else:
            return Unk('unpack')
    return out


def binop(E, st, op, a, b):
    ba, bb = as_bytes(a), as_bytes(b)
    if op == 'Add' and ba is not None and bb is not None:
        return [(st, bstr(ba + bb))]
    if op == 'Mult' and (ba is not None and isinstance(b, K) or bb is not None and isinstance(a, K)):
        q, n = (ba, b) if ba is not None else (bb, a)
        if isinstance(n.v, int) and n.v < 4096:
            return [(st, bstr(q * n.v))]
    if op == 'Add':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and x.v == '' and isinstance(y, T) and y.op == 'text':
                return [(st, y)]
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'text' and a.args[2] == b.args[2]:
            return [(st, mktext(a.args[1] + b.args[1], a.args[2]))]
    if not any(isinstance(x, T) and x.op == 'bits' for x in (a, b)):
        return None
    x, y = as_bits(a), as_bits(b)
    if x is None or y is None:
        return None
    (p, fp), (q, fq) = x, y
    n = max(len(p), len(q))
    pp, qq = p + [fp] * (n - len(p)), q + [fq] * (n - len(q))

    def comb(f):
        z = [f(u, v) for u, v in zip(pp + [fp], qq + [fq])]
        if any(u is None for u in z):
            return None
        return [(st, bits(z[:-1], z[-1]))]
    if op == 'BitAnd':
        return comb(lambda u, v: 0 if 0 in (u, v) else u if v == 1 or u == v else v if u == 1 else None)
    if op == 'BitOr':
        return comb(lambda u, v: 1 if 1 in (u, v) else u if v == 0 or u == v else v if u == 0 else None)
    if op == 'BitXor':
        return comb(lambda u, v: u if v == 0 else v if u == 0 else 0 if u == v else None)
    if isinstance(b, K) and isinstance(b.v, int):
        k = b.v
        if op == 'RShift' and 0 <= k < 256:
            return [(st, bits(p[k:], fp))]
        if op == 'LShift' and 0 <= k < 256:
            return [(st, bits([0] * k + p, fp))]
        two = k > 0 and k & (k - 1) == 0
        m = k.bit_length() - 1
        if op == 'Mult' and two:
            return [(st, bits([0] * m + p, fp))]
        if op == 'FloorDiv' and two:
            return [(st, bits(p[m:], fp))]
        if op == 'Mod' and two:
            return [(st, bits((p + [fp] * m)[:m], 0))]
    if op == 'Mult' and isinstance(a, K):
        return binop(E, st, op, b, a)
    if op == 'Add' and fp == 0 and fq == 0:
        r = comb(lambda u, v: u if v == 0 else v if u == 0 else None)
        if r is not None:
            return r
    return None


def bounds(bs, fill):
    if fill != 0:
        n = len(bs)
        return -(1 << n), (1 << n) - 1
    lo = sum(1 << i for i, b in enumerate(bs) if b == 1)
    return lo, sum(1 << i for i, b in enumerate(bs) if b != 0)


def compare(E, st, op, a, b):
    ba, bb = as_bytes(a), as_bytes(b)
    if op in ('==', '!=') and ba is not None and bb is not None and not (isinstance(a, K) and isinstance(b, K)):
        r = None
        if len(ba) != len(bb):
            r = FALSE
        else:
            fa, fb = [x for y in ba for x in y], [x for y in bb for x in y]
            if any(isinstance(u, int) and isinstance(v, int) and u != v for u, v in zip(fa, fb)):
                r = FALSE
            elif fa == fb:
                r = TRUE
            else:
                # unknown bytes against constants: one comparison of the unknown part
                u = [(x, y) for x, y in zip(fa, fb) if x != y]
                if all(isinstance(y, int) for _, y in u):
                    r = eqbits([x for x, _ in u], [y for _, y in u])
                elif all(isinstance(x, int) for x, _ in u):
                    r = eqbits([y for _, y in u], [x for x, _ in u])
        if r is not None:
            return r if op == '==' else E.neg(r)
        return None
    if not any(isinstance(x, T) and x.op == 'bits' for x in (a, b)) or op not in ('==', '!=', '<', '<=', '>', '>='):
        return None
    x, y = as_bits(a), as_bits(b)
    if x is None or y is None:
        return None
    (p, fp), (q, fq) = x, y
    if op in ('==', '!='):
        n = max(len(p), len(q)) + 1
        pp, qq = p + [fp] * (n - len(p)), q + [fq] * (n - len(q))
        r = None
        if any(isinstance(u, int) and isinstance(v, int) and u != v for u, v in zip(pp, qq)):
            r = FALSE
        elif pp == qq:
            r = TRUE
        elif isinstance(b, K) or isinstance(a, K):
            u = [(s, t) if not isinstance(s, int) else (t, s) for s, t in zip(pp, qq) if s != t]
            r = eqbits([s for s, _ in u], [t for _, t in u])
        if r is None:
            return None
        return r if op == '==' else E.neg(r)
    if isinstance(a, T) and isinstance(b, K) or isinstance(a, K) and isinstance(b, T):
        if fp not in (0, 1) or fq not in (0, 1):
            return None
        la, ha = bounds(p, fp) if isinstance(a, T) else (a.v, a.v)
        lb, hb = bounds(q, fq) if isinstance(b, T) else (b.v, b.v)
        if op in ('>', '>='):
            la, ha, lb, hb = lb, hb, la, ha
            op = {'>': '<', '>=': '<='}[op]
        if op == '<':
            return TRUE if ha < lb else FALSE if la >= hb else None
        return TRUE if ha <= lb else FALSE if la > hb else None
    return None


def eqbits(syms, vals):
    """symbolic bits against constants"""
    m = {}
    for s, v in zip(syms, vals):
        if m.setdefault(s, v) != v:
            return FALSE
    if len(m) == 1:
        (s, v), = m.items()
        t = T('truthy', T('bits', (s,), 0))
        return t if v else T('not', t)
    ks = sorted(m)
    if all(m[k] == 0 for k in ks):
        return T('not', T('truthy', T('bits', tuple(ks), 0)))
    return T('eq', T('bits', tuple(ks), 0), K(sum(m[k] << i for i, k in enumerate(ks))))


def getitem(E, st, o, k):
    bs = as_bytes(o) if isinstance(o, T) else None
    if bs is not None:
        if isinstance(k, K) and isinstance(k.v, int):
            if -len(bs) <= k.v < len(bs):
                return [(st, bits(bs[k.v]))]
            E.raise_(st, 'IndexError')
            return []
        if isinstance(k, T) and k.op == 'slice' and all(isinstance(x, K) for x in k.args):
            return [(st, bstr(bs[slice(*[x.v for x in k.args])]))]
        return [(st, Unk('byte'))]
    if isinstance(o, T) and o.op == 'text' and isinstance(k, T) and k.op == 'slice' and \
            all(isinstance(x, K) for x in k.args) and o.args[0] == len(o.args[1]):
        return [(st, mktext(list(o.args[1])[slice(*[x.v for x in k.args])], o.args[2]))]
    if isinstance(k, T) and k.op == 'bits':
        sy = [b for b in k.args[0] if b != 0 and b != 1]
        if len(sy) <= 2 and k.args[1] in (0, 1):
            out = []
            work = [(st, {})]
            for b in sorted(set(sy)):
                work = [(s2, dict(m, **{'k%r' % (b,): int(v)})) for s, m in work
                        for s2, v in E.branch(T('truthy', T('bits', (b,), 0)), s)]
            for s, m in work:
                v = bits([x if isinstance(x, int) else m['k%r' % (x,)] for x in k.args[0]], k.args[1])
                out += M.getitem(E, s, o, v)
            return out
    return None


def method(E, st, o, name, args, kw):
    if isinstance(o, T) and o.op == 'bstr':
        if name == 'decode':
            enc = args[0] if args else kw.get('encoding', K('utf-8'))
            return decode(E, st, as_bytes(o), enc, args[1] if len(args) > 1 else kw.get('errors'))
        if name in ('startswith', 'endswith') and len(args) == 1 and as_bytes(args[0]) is not None:
            n = len(as_bytes(args[0]))
            b = as_bytes(o)
            piece = b[:n] if name == 'startswith' else b[len(b) - n if len(b) >= n else 0:]
            return [(st, E.cmp('==', bstr(piece), args[0], st))]
        return [(st, Unk('bytes.' + name))]
    if isinstance(o, K) and isinstance(o.v, bytes) and name == 'decode' and args and isinstance(args[0], K):
        return decode(E, st, as_bytes(o), args[0], args[1] if len(args) > 1 else kw.get('errors'))
    if isinstance(o, T) and o.op in ('text', 'concat') and name == 'encode' and args and isinstance(args[0], K):
        u = units(o)
        if u is not None and len(args) == 1 and not kw:
            if _enc(args[0]).v == 'utf-16-le':
                return [(st, bstr([b for x in u for b in x]))]
            if _enc(args[0]).v == 'iso8859-1' and all(x[1] == byte(0) for x in u):
                return [(st, bstr([x[0] for x in u]))]
    if isinstance(o, T) and o.op == 'chr' and name == 'encode':
        b = as_bits(o.args[0])
        if b and b[1] == 0 and len(b[0]) <= 8 and args and isinstance(args[0], K) and \
                _enc(args[0]).v == 'iso8859-1':
            return [(st, bstr([tuple(b[0] + [0] * (8 - len(b[0])))]))]
    if isinstance(o, T) and o.op == 'text' and name in ('join',):
        return [(st, Unk('join'))]
    if name == 'join' and isinstance(o, K) and o.v in ('', b'') and len(args) == 1:
        it = E.fixed_items(args[0], st)
        if it and not all(isinstance(x, K) for x in it):
            if isinstance(o.v, bytes) and all(as_bytes(x) is not None for x in it):
                E.consume(args[0], st)
                return [(st, bstr([b for x in it for b in as_bytes(x)]))]
            if isinstance(o.v, str) and all(units(x) is not None for x in it):
                E.consume(args[0], st)
                v = it[0]
                for x in it[1:]:
                    r = binop(E, st, 'Add', v, x)
                    v = r[0][1] if r else T('concat', *((v.args if isinstance(v, T) and v.op == 'concat' else (v,)) + (x,)))
                return [(st, v)]
    return None


def m_unpack(E, st, args, kw):
    fmt, d = (list(args) + [None, None])[:2]
    E.emit('unpackcall', st, fmt=fmt, data=d)
    bs = as_bytes(d)
    if not isinstance(fmt, K) or bs is None:
        return [(st, Unk('unpack'))]
    r = unpack(fmt.v, bs)
    if r is None:
        E.raise_(st, 'struct.error')
        return []
    return [(st, r if isinstance(r, Unk) else Tup(r))]


def m_unpack_from(E, st, args, kw):
    fmt, d = args[:2]
    off = args[2] if len(args) > 2 else kw.get('offset', K(0))
    bs = as_bytes(d)
    if not isinstance(fmt, K) or bs is None or not isinstance(off, K):
        return [(st, Unk('unpack'))]
    try:
        n = struct.calcsize(fmt.v)
    except struct.error:
        n = None
    if n is None or off.v < 0 or off.v + n > len(bs):
        E.raise_(st, 'struct.error')
        return []
    return m_unpack(E, st, [fmt, bstr(bs[off.v:off.v + n])], {})


def m_ord(E, st, args, kw):
    bs = as_bytes(args[0])
    if bs is not None and len(bs) == 1:
        return [(st, bits(bs[0]))]
    return M.b_pure(E, st, args, kw)


def m_chr(E, st, args, kw):
    if isinstance(args[0], T):
        return [(st, T('chr', args[0]))]
    return M.b_pure(E, st, args, kw)


def m_int(E, st, args, kw):
    if len(args) == 1 and isinstance(args[0], T) and args[0].op == 'truthy':
        return [(st, args[0])]
    return M.b_int(E, st, args, kw)


def m_bytes(E, st, args, kw):
    it = E.fixed_items(args[0], st) if len(args) == 1 else None
    if it is not None and all(as_bits(x) is not None and as_bits(x)[1] == 0 and len(as_bits(x)[0]) <= 8 for x in it):
        return [(st, bstr(tuple(b + [0] * (8 - len(b))) for b in (as_bits(x)[0] for x in it)))]
    if len(args) == 1 and as_bytes(args[0]) is not None:
        return [(st, args[0])]
    return M.b_str(E, st, args, kw)


def byte_items(v):
    return [bits(b) for b in v.args[1]]


def install(E):
    E.binop_hooks.append(binop)
    E.cmp_hooks.append(compare)
    E.item_hooks.append(getitem)
    E.method_hooks.append(method)
    E.byte_items = byte_items
    E.models['struct.unpack'] = m_unpack
    E.models['struct.unpack_from'] = m_unpack_from
    E.models['builtins.ord'] = m_ord
    E.models['builtins.chr'] = m_chr
    E.models['builtins.bytes'] = m_bytes


# ------------------------------------------------------------------ values for reports
def show(v):
    """readable form of a value"""
    if isinstance(v, T) and v.op == 'bits':
        bs, fill = v.args
        runs, i = [], 0
        while i < len(bs):
            j = i
            if isinstance(bs[i], int):
                while j + 1 < len(bs) and isinstance(bs[j + 1], int):
                    j += 1
                runs.append(''.join(str(x) for x in reversed(bs[i:j + 1])) + 'b')
            else:
                def nxt(a, b):
                    return isinstance(b, tuple) and b[0] == a[0] and 8 * b[1] + b[2] == 8 * a[1] + a[2] + 1
                while j + 1 < len(bs) and nxt(bs[j], bs[j + 1]):
                    j += 1
                a, b = bs[i], bs[j]
                if a[2] == 0 and b[2] == 7:
                    runs.append('%s[%d:%d]' % (a[0], a[1], b[1] + 1))
                else:
                    runs.append('%s bits %d..%d of byte %d' % (a[0], a[2], b[2] + 8 * (b[1] - a[1]), a[1])
                                if i != j else '%s bit %d of byte %d' % (a[0], a[2], a[1]))
            i = j + 1
        return '+'.join(runs) + (' signed' if fill else '')
    if isinstance(v, T) and v.op in ('bstr', 'ieee', 'text'):
        bs = v.args[1] if v.op != 'ieee' else v.args[0]
        out = []
        for b in bs:
            if known(b):
                out.append('%02x' % bstr([b]).v[0])
            elif not isinstance(b[0], int) and all(b[i] == (b[0][0], b[0][1], i) for i in range(8)):
                out.append('%s[%d]' % (b[0][0], b[0][1]))
            else:
                out.append('?')
        return '%s(%s%s)' % ({'bstr': 'bytes', 'ieee': 'float', 'text': 'text'}[v.op], ' '.join(out),
                             ', %s' % v.args[2] if v.op == 'text' else '')
    if isinstance(v, T):
        return '%s(%s)' % (v.op, ', '.join(show(a) if isinstance(a, V) else repr(a) for a in v.args))
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(a) for a in v.items)
    return repr(v)


# ------------------------------------------------------------------ terms at sample inputs
class NoValue(Exception):
    pass


def samples(n=8):
    """assignments of all input bits, as functions"""
    import hashlib

    def mk(i):
        def f(b):
            if i == 0:
                return 0
            if i == 1:
                return 1
            h = hashlib.md5(repr((i, b)).encode()).digest()
            return h[0] & 1
        return f
    return [mk(i) for i in range(n)]


def value(v, f):
    """the value of a term for an assignment of the input bits; NoValue if it has an operation not known here"""
    def bit(b):
        return b if isinstance(b, int) else f(b)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        return tuple(value(x, f) for x in v.items)
    if isinstance(v, T):
        op, a = v.op, v.args
        if op == 'bits':
            x = sum(bit(b) << i for i, b in enumerate(a[0]))
            return x - (1 << len(a[0])) if bit(a[1]) else x
        if op in ('bstr', 'ieee', 'text'):
            bs = bytes(sum(bit(b) << i for i, b in enumerate(x)) for x in (a[0] if op == 'ieee' else a[1]))
            if op == 'bstr':
                return bs
            if op == 'ieee':
                return struct.unpack('<d' if len(bs) == 8 else '<f', bs)[0]
            try:
                return bs.decode(value(a[2], f), 'surrogatepass')
            except UnicodeDecodeError:
                return ('undecodable', bs)
            except Exception:
                raise NoValue('text')
        if op == 'lin':
            return sum(k * value(t, f) for t, k in a[0]) + a[1]
        try:
            x = [value(y, f) for y in a]
            if op == 'float':
                return float(x[0])
            if op == 'int' and len(x) == 1:
                return int(x[0])
            if op in ('truthy', 'bool'):
                return bool(x[0])
            if op == 'not':
                return not x[0]
            if op == 'eq':
                return x[0] == x[1]
            if op == 'lt0':
                return x[0] < 0
            if op == 'le0':
                return x[0] <= 0
            if op == 'in':
                return x[0] in x[1]
            if op == 'item':
                return x[0][x[1]]
            if op in ('cat2', 'concat'):
                r = x[0]
                for y in x[1:]:
                    r = r + y
                return r
            if op in ('minof', 'maxof'):
                return (min if op == 'minof' else max)(x)
            g = {'div': lambda p, q: p / q, 'floordiv': lambda p, q: p // q, 'mod': lambda p, q: p % q,
                 'mul': lambda p, q: p * q, 'bitand': lambda p, q: p & q, 'bitor': lambda p, q: p | q,
                 'bitxor': lambda p, q: p ^ q, 'rshift': lambda p, q: p >> q, 'lshift': lambda p, q: p << q,
                 'pow': lambda p, q: p ** q}.get(op)
            if g and len(x) == 2:
                return g(*x)
            if op == 'abs':
                return abs(x[0])
            if op == 'chr':
                return chr(x[0])
        except NoValue:
            raise
        except Exception as e:
            raise NoValue(str(e))
    raise NoValue(repr(v)[:60])


def differ(got, want, facts=()):
    """a sample input for which the two terms have different values and the facts hold, or None"""
    for f in samples():
        try:
            if any(bool(value(a, f)) != w for a, w in dict(facts).items()):
                continue
            x, y = value(got, f), value(want, f)
        except NoValue:
            continue
        num = (int, float, bool)
        if isinstance(x, num) and isinstance(y, num):
            if x != x and y != y or x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y)):
                continue
            return f
        if type(x) is not type(y) or x != y:
            return f
    return None


def known_bits(facts):
    """bits fixed by the conditions of a path"""
    m = {}
    for a, w in dict(facts).items():
        if isinstance(a, T) and a.op == 'truthy' and isinstance(a.args[0], T) and a.args[0].op == 'bits':
            bs = [b for b in a.args[0].args[0] if not isinstance(b, int)]
            if not w:
                m.update((b, 0) for b in bs)
            elif len(bs) == 1:
                m[bs[0]] = 1
        elif isinstance(a, T) and a.op == 'eq' and w:
            for x, y in (a.args, a.args[::-1]):
                if isinstance(x, T) and x.op == 'bits' and isinstance(y, K) and isinstance(y.v, int):
                    for i, b in enumerate(x.args[0]):
                        if not isinstance(b, int):
                            m[b] = (y.v >> i) & 1
    return m


def fix_bits(v, m):
    """v with the bits of m replaced by their values"""
    if not m:
        return v

    def b(x):
        return m.get(x, x) if not isinstance(x, int) else x
    if isinstance(v, T):
        if v.op == 'bits':
            return bits([b(x) for x in v.args[0]], b(v.args[1]))
        if v.op == 'bstr':
            return bstr(tuple(b(x) for x in y) for y in v.args[1])
        if v.op == 'ieee':
            q = tuple(tuple(b(x) for x in y) for y in v.args[0])
            if all(known(x) for x in q) and len(q) in (4, 8):
                return K(struct.unpack('<d' if len(q) == 8 else '<f', bstr(q).v)[0])
            return T('ieee', q)
        if v.op == 'text':
            return mktext([tuple(b(x) for x in y) for y in v.args[1]], fix_bits(v.args[2], m))
        if v.op == 'lin':
            return v
        return T(v.op, *[fix_bits(a, m) if isinstance(a, V) else a for a in v.args])
    if isinstance(v, Tup):
        return Tup([fix_bits(x, m) for x in v.items])
    return v
