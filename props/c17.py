RULE = """dbfpack is interpreted with and without names on a one-record dbf stream for every field type (N with and without
decimals, F, D, L for every logical letter, C, M and other types), the field's bytes symbolic.  On every path (empty or not)
the value in the pack must be the term that a reference decoding of that type, interpreted by the same engine, gives; hence
both readers agree."""
TECHNIQUE = 'abstract interpretation with symbolic field bytes; term equality with an interpreted reference decoding'
from .common import *       # noqa
from .readscene import *    # noqa
from .c18 import DP

SPEC = '''
import datetime
import numpy as np


def decode(typ, deci, value):
    if typ == b'N':
        text = value.replace(b'\\\\0', b'').strip()
        if not text:
            return np.nan
        if deci:
            return float(text)
        return int(text)
    if typ == b'F':
        if value.strip():
            return float(value)
        return np.nan
    if typ == b'D':
        if value.strip():
            return datetime.date(int(value[:4]), int(value[4:6]), int(value[6:8]))
        return None
    if typ == b'L':
        if value in (b'Y', b'y', b'T', b't'):
            return 'T'
        if value in (b'N', b'n', b'F', b'f'):
            return 'F'
        return '?'
    return value.decode('ascii')
'''.replace('\\\\', '\\')

TYPES = [(b'N', 6, 0), (b'N', 6, 2), (b'N', 1, 0), (b'F', 9, 0), (b'F', 9, 3), (b'D', 8, 0), (b'C', 5, 0), (b'M', 10, 0),
         (b'G', 10, 0), (b'C', 1, 2)]
KNOWN = {'float', 'int', 'trim', 'mcall', 'rawbytes', 'decode', 'nan', 'extcall', 'ext', 'pure', 'call', 'str'}


def norm(v):
    """int and float ignore white space at the ends"""
    if isinstance(v, T):
        a = [norm(x) if isinstance(x, V) else tuple(norm(y) if isinstance(y, V) else y for y in x)
             if isinstance(x, tuple) else x for x in v.args]
        if v.op in ('int', 'float') and len(a) == 1 and isinstance(a[0], T) and a[0].op == 'trim':
            a = [a[0].args[0]]
        if v.op == 'mcall' and v.args[1] == 'replace' and isinstance(a[0], T) and a[0].op == 'trim':
            return T('mcall', a[0].args[0], *a[1:])
        return T(v.op, *a)
    return v


def check(P, r):
    where = P.func(DP).where
    spec(P, SPEC, 'verif_c17')
    for typ, size, deci in TYPES:
        for sel in ('all', 'names'):
            name = 'type %s, size %d, %d decimals, %s' % (typ.decode(), size, deci,
                                                          'all fields' if sel == 'all' else 'by name')
            with r.obligation(name):
                one(P, r, name, typ, size, deci, sel, None, where)
    for c in b'YyTtNnFf? \\0xX1':
        for sel in ('all', 'names'):
            name = 'type L holding %r, %s' % (bytes([c]), 'all fields' if sel == 'all' else 'by name')
            with r.obligation(name):
                one(P, r, name, b'L', 1, 0, sel, bytes([c]), where)


def one(P, r, name, typ, size, deci, sel, known, where):
    fields = [('AA', b'C', 4, 0), ('BB', typ, size, deci), ('CC', b'C', 3, 0)]
    sc = DbfScene(P, fields, 1)
    st, E = sc.st, sc.E
    sc.set(0, -1, b' ')
    if known is not None:
        sc.set(0, 1, known)
    kw = {} if sel == 'all' else {'names': lst(st, [K('BB')])}
    outs = sc.run(DP, [sc.fo], kw)
    r.engine(E)
    rets = 0
    for kind, s, v in outs:
        r.count('paths')
        if s.taint:
            r.undecided(name, 'path depends on unknown: %s' % (s.taint[:1],))
            continue
        if kind == 'raise':
            if not v.implicit:
                r.viol('raise', '%s: raises %s' % (name, v.name), v.site)
            continue
        rets += 1
        c = columns(E, s, v)
        got = c[0].get(1) if c else None
        if not got or len(got) != 1:
            r.undecided(name, 'pack of unknown content')
            continue
        got = got[0]
        ref = E.run(P.func('verif_c17.decode'), [K(typ), K(deci), sc.value(0, 1)], {}, st=s.copy())
        if ref and all(k2 == 'raise' for k2, s2, v2 in ref):
            if has_unk(got) or not within(got, KNOWN):
                r.undecided(name, 'value %s' % show(got))
            else:
                r.viol('decode', '%s: gives %s where the content is not a valid value of the type and %s is due' % (
                    name, show(norm(got)), ref[0][2].name), where)
            continue
        for k2, s2, want in ref:
            r.count('cases')
            if k2 != 'return':
                continue
            if norm(got) == norm(want):
                continue
            if has_unk(got) or not within(got, KNOWN):
                r.undecided(name, 'value %s' % show(got))
                continue
            r.viol('decode', '%s: gives %s, expected %s when %s' % (name, show(norm(got)), show(norm(want)), facts_text(s2)), where)
    if not rets and not any(k == 'raise' and not v.implicit for k, s, v in outs):
        r.undecided(name, 'no outcome')
