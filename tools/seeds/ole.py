import os
from channelpack.xlrd.compdoc import CompDoc


def i32(*ns):
    return b''.join(n.to_bytes(4, 'little', signed=True) for n in ns)


def ole(streams, root, dirchain, sats, cont=(), ssats=(), limit=200, msatx=(), nsec=None, size0=None):
    """streams: (name, data, chain, short, left, right); sectors of 128 and 32 bytes"""
    ss, sh, per = 128, 32, 32
    sect = {}
    sat, ssat, small = [-1] * (per * len(sats)), [-1] * (per * len(ssats)), {}

    def link(t, chain):
        for a, b in zip(chain, list(chain[1:]) + [-2]):
            t[a] = b
    ents = []

    def entry(name, typ, left, right, kid, first, n):
        nm = name.encode('utf-16-le') + b'\0\0'
        e = nm.ljust(64, b'\0') + len(nm).to_bytes(2, 'little') + bytes([typ, 1]) + i32(left, right, kid)
        return e.ljust(116, b'\0') + i32(first, n, 0)
    for name, data, chain, short, left, right in streams:
        link(ssat if short else sat, chain)
        n = sh if short else ss
        for k, c in enumerate(chain):
            (small if short else sect)[c] = data[k * n:(k + 1) * n].ljust(n, b'#')
        ents.append(entry(name, 2, left, right, -1, chain[0], len(data)))
    for c in (dirchain, cont, ssats):
        link(sat, list(c))
    for c in sats:
        sat[c] = -3
    for c in msatx:
        sat[c] = -4
    for t, where in ((sat, sats), (ssat, ssats)):
        for k, c in enumerate(where):
            sect[c] = i32(*t[k * per:(k + 1) * per])
    box = b''.join(small.get(i, b'?' * sh) for i in range(len(cont) * ss // sh))
    for k, c in enumerate(cont):
        sect[c] = box[k * ss:(k + 1) * ss]
    size = max([(i + 1) * sh for i in small] or [0])
    raw = entry('Root Entry', 5, -1, -1, root, cont[0] if cont else -2, size) + b''.join(ents)
    empty = (b'\0\0'.ljust(68, b'\0') + i32(-1, -1, -1)).ljust(128, b'\0')
    while len(raw) < len(dirchain) * ss:
        raw += empty
    for k, c in enumerate(dirchain):
        sect[c] = raw[k * ss:(k + 1) * ss]
    for k, c in enumerate(msatx):
        ids = list(sats)
        sect[c] = i32(*(ids + [-1] * (per - 1 - len(ids)) + [-2]))
    listed = [] if msatx else list(sats)
    head = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 16 + b'\x3e\0\x03\0\xfe\xff' + b'\7\0\5\0' + b'\0' * 10
    head += i32(len(sats), dirchain[0], 0, limit, ssats[0] if ssats else -2, len(ssats), msatx[0] if msatx else -2, len(msatx))
    head += i32(*(listed + [-1] * (109 - len(listed))))
    return head + b''.join(sect.get(i, b'f' * ss) for i in range(nsec or max(sect) + 1))


def both(mem, name):
    log = open(os.devnull, 'w')
    a = CompDoc(mem, logfile=log).get_named_stream(name)
    m, base, n = CompDoc(mem, logfile=log).locate_named_stream(name)
    return a, None if m is None else m[base:base + n]


def data(n):
    return bytes((i * 7 + i // 128) % 251 for i in range(n))
