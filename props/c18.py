RULE = """dbfpack is interpreted on dbf streams with a concrete header (one, three and five fields) and three records of symbolic bytes, for every
pattern of deleted records, every selection of names (none, one, several in any order, repeated, unknown, a name that two
fields share) and start positions.  Every value in the pack must be the bytes at header end + record number * record size +
field offset of exactly that record and field; each record not deleted gives one row, in order; key k is the k-th field for
data and names."""
TECHNIQUE = 'abstract interpretation with byte-exact provenance of every value, generators included'
import itertools
from .common import *       # noqa
from .readscene import *    # noqa

DP = 'channelpack.dbf.dbfpack'
F3 = [('AA', b'C', 5, 0), ('BB', b'C', 8, 0), ('CC', b'C', 3, 0)]
DUP = [('AA', b'C', 5, 0), ('BB', b'C', 8, 0), ('AA', b'C', 3, 0)]
BIG = [('ZZ', b'C', 200, 0), ('AA', b'C', 5, 0), ('AAB', b'C', 255, 0), ('MM', b'C', 1, 0), ('A', b'C', 128, 0)]
CASE = [('AA', b'C', 5, 0), ('aa', b'C', 8, 0), ('aA', b'C', 3, 0), ('A_A', b'C', 2, 0)]
ONE = [('AA', b'C', 5, 0)]


def check(P, r):
    where = P.func(DP).where
    thorough = getattr(r, 'tier', 'quick') == 'thorough'
    nrec = 4 if thorough else 3
    sel = {'F3': [None, [], ['AA'], ['CC'], ['CC', 'AA'], ['BB'], ['AA', 'BB', 'CC'], ['BB', 'BB'], ['BB', 'ZZ'], ['A']],
           'DUP': [None, ['AA'], ['BB'], ['AA', 'BB']], 'ONE': [None, ['AA']]}
    for fn, fields in (('F3', F3), ('DUP', DUP), ('ONE', ONE)):
        for names in sel[fn]:
            for start, byname in ((0, False), ('second', False), (0, True)):
                for dele in itertools.product((False, True), repeat=nrec):
                    name = 'fields %s, names %s, deleted %s, from %s%s' % (
                        '/'.join(f[0] for f in fields), names, [i for i, d in enumerate(dele) if d],
                        'a second dbf in the stream' if start == 'second' else 'position %d' % start,
                        ', opened by name' if byname else '')
                    with r.obligation(name):
                        one(P, r, name, fields, names, dele, start, byname, where)
    for names in (None, ['A'], ['AA'], ['AAB'], ['ZZ', 'AA'], ['MM', 'ZZ'], ['A', 'MM'], ['AAB', 'A', 'ZZ']):
        for dele in ((False, False, False), (False, True, False)):
            name = 'fields %s, names %s, deleted %s' % ('/'.join(f[0] for f in BIG), names,
                                                        [i for i, d in enumerate(dele) if d])
            with r.obligation(name):
                one(P, r, name, BIG, names, dele, 0, False, where)
    for names in (None, ['aa'], ['AA'], ['aA', 'AA'], ['A_A'], ['Aa'], ['a'], ['A_A', 'aa'], [' aa'], ['aa ']):
        name = 'fields %s, names %s' % ('/'.join(f[0] for f in CASE), names)
        with r.obligation(name):
            one(P, r, name, CASE, names, (False, True, False), 0, False, where)
    with r.obligation('no records'):
        one(P, r, 'no records', F3, None, (), 0, False, where)
        one(P, r, 'no records, names', F3, ['BB'], (), 0, False, where)


def one(P, r, name, fields, names, dele, start, byname, where):
    sc = DbfScene(P, fields, len(dele), start)
    st, E = sc.st, sc.E
    for i, d in enumerate(dele):
        sc.set(i, -1, b'*' if d else b' ')
    kw = {}
    if names is not None:
        kw['names'] = lst(st, [K(n) for n in names])
    outs = sc.run(DP, [K('x.dbf') if byname else sc.fo], kw)
    r.engine(E)
    keys = [k for k, f in enumerate(fields) if not names or f[0] in names]
    live = [i for i, d in enumerate(dele) if not d]
    rets = 0
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if not v.implicit:
                r.viol('raise', '%s: raises %s' % (name, v.name), v.site)
            continue
        rets += 1
        c = columns(E, s, v)
        if c is None:
            r.undecided(name, 'pack of unknown content')
            continue
        data, nms = c
        if set(data) != (set(keys) if live else set()):
            r.viol('keys', '%s: data keys %s, expected %s' % (name, sorted(data), keys), where)
            continue
        if nms != {k: K(fields[k][0]) for k in keys}:
            if any(not isinstance(x, K) for x in nms.values()):
                r.undecided(name, 'names %s' % show(nms))
            else:
                r.viol('names', '%s: names %s' % (name, show(nms)), where)
            continue
        for k in data:
            if len(data[k]) != len(live):
                r.viol('rows', '%s: %d rows, expected one for each of %s' % (name, len(data[k]), live), where)
                break
            bad = False
            for row, (i, got) in enumerate(zip(live, data[k])):
                if has_unk(got):
                    r.undecided(name, 'value %s' % show(got))
                    continue
                src = {x for x in walk(got) if isinstance(x, T) and x.op == 'rawbytes'}
                if src != {sc.value(i, k)}:
                    at = sorted((x.args[1].v, x.args[2].v) for x in src)
                    r.viol('place', '%s: row %d of key %d is read at %s, expected %d bytes at %d (record %d)' % (
                        name, row, k, ', '.join('%d bytes at %d' % (n, p) for p, n in at), fields[k][2],
                        sc.offset(i, k), i), where)
                    bad = True
                    break
            if bad:
                break
    if not rets and not any(k == 'raise' and not v.implicit for k, s, v in outs):
        r.undecided(name, 'no outcome')
