RULE = """CompDoc, get_named_stream and locate_named_stream are interpreted on whole compound documents with symbolic stream bytes:
sectors of 128 to 512 bytes, chains in one piece, in several and backwards, an allocation table of several sectors out of
order or listed in extension sectors, short streams inside a fragmented container, sizes on either side of a sector end and
of the limit for short streams, storages, directory trees, and files that end
within their last sector.  On every path the stream of a name must be exactly the bytes
of its chain up to its size, and a name that is not there give None."""
TECHNIQUE = 'abstract interpretation of the compound document reader over symbolic containers, byte for byte'
from .common import *       # noqa
from .biffscene import *    # noqa
from .c34 import run
from .scen import spec

CD = XL + '.compdoc'

SRC36 = '''
import sys
from channelpack.xlrd.compdoc import CompDoc


def got(mem, name):
    return CompDoc(mem).get_named_stream(name)


def located(mem, name):
    m, base, size = CompDoc(mem).locate_named_stream(name)
    return None if m is None else (m[base:base + size], size)


def twice(mem, name, other):
    doc = CompDoc(mem)
    a = doc.get_named_stream(other)
    m, base, size = doc.locate_named_stream(name)
    return (a, m[base:base + size])
'''
FREE, END, SATID, MSATX = -1, -2, -3, -4


def i32(*ns):
    return b''.join(n.to_bytes(4, 'little', signed=True) for n in ns)


class Stream(object):
    """chain: sectors, or short sectors for a short stream"""

    def __init__(self, name, size, chain, short=False, left=-1, right=-1, kids=None):
        self.name, self.size, self.chain, self.short, self.left, self.right, self.kids = name, size, chain, short, left, right, kids


def document(streams, root, dirchain, sats, ssz=7, sssz=5, limit=200, cont=(), ssats=(), msatx=(), nsec=None, cut=0, inhead=0):
    """-> (bytes, {name: content}) of a container; root: number of the entry at the top of the tree"""
    ss, sh = 1 << ssz, 1 << sssz
    used = [n for s in streams if not s.short for n in s.chain] + list(dirchain) + list(sats) + list(cont) + list(ssats) + list(msatx)
    assert len(used) == len(set(used)), 'sectors overlap'
    nsec = nsec or max(used) + 1
    per = ss // 4
    sat = [FREE] * (per * len(sats))
    ssat = [FREE] * (per * len(ssats))

    def link(table, chain):
        for a, b in zip(chain, list(chain[1:]) + [END]):
            table[a] = b
    sect = {i: [B.byte(('f%d' % i, j)) for j in range(ss)] for i in range(nsec)}
    small = {}
    out = {}
    for i, s in enumerate(streams):
        if s.kids is not None:
            continue
        link(ssat if s.short else sat, s.chain)
        n = sh if s.short else ss
        all_ = []
        for k, c in enumerate(s.chain):
            bs = [B.byte(('s%d' % i, k * n + j)) for j in range(n)]
            (small if s.short else sect)[c] = bs
            all_ += bs
        out[s.name] = B.bstr(all_[:s.size])
    link(sat, list(dirchain))
    link(sat, list(cont))
    link(sat, list(ssats))
    for c in sats:
        sat[c] = SATID
    for c in msatx:
        sat[c] = MSATX
    for k, c in enumerate(sats):
        sect[c] = known(i32(*sat[k * per:(k + 1) * per]))
    for k, c in enumerate(ssats):
        sect[c] = known(i32(*ssat[k * per:(k + 1) * per]))
    box = []
    for i in range((len(cont) * ss) // sh):
        box += small.get(i, [B.byte(('g%d' % i, j)) for j in range(sh)])
    for k, c in enumerate(cont):
        sect[c] = box[k * ss:(k + 1) * ss]
    size = max([(i + 1) * sh for i in small] or [0])

    def entry(name, typ, left, right, kid, first, n):
        nm = name.encode('utf-16-le') + b'\0\0'
        e = nm.ljust(64, b'\0') + len(nm).to_bytes(2, 'little') + bytes([typ, 1]) + i32(left, right, kid)
        return e.ljust(116, b'\0') + i32(first, n, 0)
    ents = [entry('Root Entry', 5, -1, -1, root, cont[0] if cont else END, size)]
    for s in streams:
        if s.kids is not None:
            ents.append(entry(s.name, 1, s.left, s.right, s.kids, 0, 0))
        else:
            ents.append(entry(s.name, 2, s.left, s.right, -1, s.chain[0] if s.chain else END, s.size))
    raw = b''.join(ents)
    empty = b'\0\0'.ljust(68, b'\0') + i32(-1, -1, -1)
    empty = empty.ljust(128, b'\0')
    while len(raw) < len(dirchain) * ss:
        raw += empty
    for k, c in enumerate(dirchain):
        sect[c] = known(raw[k * ss:(k + 1) * ss])
    listed = list(sats[:inhead]) if msatx else list(sats)
    if msatx:
        step = per - 1
        rest = list(sats[inhead:])
        for k, c in enumerate(msatx):
            ids = rest if k + 1 == len(msatx) else rest[:1]
            rest = rest[1:]
            ids += [FREE] * (step - len(ids)) + [msatx[k + 1] if k + 1 < len(msatx) else END]
            sect[c] = known(i32(*ids))
    head = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 16 + b'\x3e\0\x03\0\xfe\xff' + u16(ssz) + u16(sssz) + b'\0' * 10
    head += i32(len(sats), dirchain[0], 0, limit, ssats[0] if ssats else END, len(ssats), msatx[0] if msatx else END, len(msatx))
    head += i32(*(listed + [FREE] * (109 - len(listed))))
    assert len(head) == 512
    mem = known(head)
    for i in range(nsec):
        mem += sect[i]
    if cut:
        mem = mem[:-cut]
    return B.bstr(mem), out


def known(bs):
    return [B.byte(x) for x in bs]


def scenarios():
    def one(g, mem, name, want, opts=('got', 'located')):
        for fn in opts:
            w = want if want is None else want if fn == 'got' else (want, K(blen(want)))
            yield g, fn, [mem, K(name)], NONE if w is None else w
    W = 'Workbook'
    for g, chain in (('streams in one piece', (2, 3, 4)), ('streams in pieces', (4, 2, 3)), ('streams in pieces', (2, 4, 5, 7)),
                     ('streams in pieces', (7, 6, 5)), ('streams in pieces', (2, 3, 6, 5)), ('streams in pieces', (9, 2)), ('streams in pieces', (3, 4, 5, 6, 2)), ('streams in pieces', (2, 5, 6, 7))):
        for less in (0, 1, 127):
            size = 128 * len(chain) - less
            mem, out = document([Stream(W, size, chain)], 1, (0, 8), (1,), limit=100)
            for x in one(g, mem, W, out[W]):
                yield x
    for ssz, sssz in ((8, 5), (9, 6)):
        for chain in ((1, 3), (3, 1)):
            mem, out = document([Stream(W, 2 * (1 << ssz) - 3, chain)], 1, (2,), (0,), ssz=ssz, sssz=sssz, limit=300)
            for x in one('sector sizes', mem, W, out[W]):
                yield x
    for size, short in ((199, True), (200, False), (201, False)):
        a = Stream(W, size, (0, 1, 2, 3, 4, 5, 6) if short else (5, 6), short)
        mem, out = document([a, Stream('x', 40, (8, 7), True, 1)], 2, (0, 1, 4), (2,), cont=(7, 9, 3), ssats=(8,))
        for x in one('limit of short streams', mem, W, out[W]):
            yield x
        for x in one('limit of short streams', mem, 'x', out['x']):
            yield x
    for cont in ((3, 5), (5, 3)):
        for chain in ((0, 1, 2), (2, 1, 0), (6, 1, 4), (1, 5)):
            for less in (0, 1, 31):
                mem, out = document([Stream(W, 32 * len(chain) - less, chain, True), Stream('b', 30, (7,), True, right=1)], 2,
                                    (0, 1, 7), (2,), cont=cont, ssats=(4,))
                for x in one('short streams', mem, W, out[W]):
                    yield x
                for x in one('short streams', mem, 'b', out['b'], ('got',)):
                    yield x
    for sats in ((34, 3), (3, 34), (33, 40)):
        chain = (35, 2, 31, 32, 36)
        mem, out = document([Stream(W, 128 * 5 - 9, chain)], 1, (0, 1), sats, nsec=42)
        for x in one('allocation table in pieces', mem, W, out[W]):
            yield x
        for msatx, inhead in (((38,), 0), ((38,), 1), ((38, 37), 0), ((37, 38), 0)):
            mem, out = document([Stream(W, 128 * 5 - 9, chain)], 1, (0, 1), sats, msatx=msatx, nsec=42, inhead=inhead)
            for x in one('allocation table listed in an extension', mem, W, out[W]):
                yield x
    three = [Stream('A', 250, (3, 5), left=-1, right=-1), Stream('Book', 256, (4, 6), left=1, right=3), Stream('Z', 230, (9, 7))]
    mem, out = document(three, 2, (0, 1, 8, 10), (2,))
    for n in ('A', 'Book', 'Z'):
        for x in one('directory trees', mem, n, out[n]):
            yield x
    for n in ('a', 'BOOK', 'z'):
        for x in one('names in another case', mem, n, out[{'a': 'A', 'BOOK': 'Book', 'z': 'Z'}[n]]):
            yield x
    for n in ('Boo', 'Books', 'Root Entry', ''):
        for x in one('names of no stream', mem, n, None):
            yield x
    yield 'two streams', 'twice', [mem, K('A'), K('Z')], (out['Z'], out['A'])
    yield 'two streams', 'twice', [mem, K('Z'), K('Book')], (out['Book'], out['Z'])
    nest = [Stream('dir', 0, (), kids=3, left=-1, right=2), Stream('Book', 256, (4, 6)), Stream('inner', 300, (3, 5, 7))]
    mem, out = document(nest, 1, (0, 1, 8, 9), (2,))
    for x in one('storages', mem, 'dir/inner', out['inner']):
        yield x
    for x in one('storages', mem, 'Book', out['Book']):
        yield x
    for x in one('storages', mem, 'inner', None):
        yield x
    for chain in ((4, 5, 6), (5, 4, 6), (3, 6)):
        for cut in (1, 30, 39):
            mem, out = document([Stream(W, 128 * len(chain) - 40, chain)], 1, (0, 1), (2,), nsec=7, cut=cut)
            for x in one('files that end within the last sector', mem, W, out[W]):
                yield x
    mem, out = document([Stream('e', 0, (), True, right=2), Stream(W, 250, (3, 5))], 1, (0, 1, 6), (2,))
    for n in ('e', W):
        for x in one('empty streams', mem, n, out[n]):
            yield x
    for ssats in ((4, 8), (8, 4)):
        chain = (33, 1, 34, 2, 35)
        mem, out = document([Stream(W, 150, chain, True)], 1, (0, 1), (2,), cont=(3, 5, 6, 7, 9, 10, 13, 11, 12), ssats=ssats)
        for x in one('table of short sectors in pieces', mem, W, out[W]):
            yield x


def blen(v):
    return len(B.as_bytes(v))


def check(P, r):
    if 'verif_c36' not in P.modules:
        spec(P, SRC36, 'verif_c36')
    for q in ('CompDoc', ):
        P.cls(CD + '.' + q)
    for q in ('CompDoc.get_named_stream', 'CompDoc.locate_named_stream'):
        P.func(CD + '.' + q)
    sc = BiffScene(P)
    sc.E.unroll = 320
    groups = {}
    for g, fn, args, want in scenarios():
        groups.setdefault(g, []).append((fn, args, want))
    for g, todo in groups.items():
        with r.obligation(g):
            run(r, sc, g, todo, 'verif_c36.', CD)
    r.engine(sc.E)
