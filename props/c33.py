RULE = """Book.handle_sst is interpreted over shared string tables of symbolic characters: tables of one to three strings with one
or two byte characters, with and without rich text runs and phonetic data, split into continuation records at every place the
format allows (before any character, where the new record repeats the flag byte and may change the width; between rich text
runs; inside the phonetic data; between strings), with one and with two splits.  On every path the resulting list must hold, in
order, exactly the characters of each string, and the rich text map the runs of each string under its index."""
TECHNIQUE = 'abstract interpretation of the string table reader over bit-level symbolic tables, all split points enumerated'
from .common import *       # noqa
from .biffscene import *    # noqa

TABLES = [
    ('one string', [(3, 0, 0, 0)]),
    ('one wide string', [(3, 1, 0, 0)]),
    ('two strings', [(2, 0, 0, 0), (3, 0, 0, 0)]),
    ('wide and narrow', [(2, 1, 0, 0), (2, 0, 0, 0), (1, 1, 0, 0)]),
    ('an empty string', [(0, 0, 0, 0), (2, 0, 0, 0), (0, 1, 0, 0)]),
    ('rich text', [(2, 0, 2, 0), (2, 0, 0, 0)]),
    ('phonetic text', [(2, 1, 0, 5), (2, 0, 0, 0)]),
    ('rich and phonetic text', [(2, 0, 1, 4), (2, 1, 0, 0)]),
    ('rich text last', [(1, 0, 0, 0), (2, 1, 3, 3)]),
    ('equal texts', [(2, 0, 0, 0, 'ab'), (2, 1, 2, 0, 'ab'), (2, 0, 1, 0, 'ab')]),
    ('characters of two units', [(2, 1, 0, 0, '\U0001F600'), (3, 1, 1, 0, 'a\U0001F600')]),
]


def layout(strings, splits, widths):
    """-> (records, texts, runs) or None when a split is not allowed there.

    strings: (characters, wide, runs, phonetic bytes); splits: sorted indexes of the points where a new record starts;
    widths: the width flag after each split inside characters"""
    recs, cur = [], [B.byte(x) for x in bytes(4) + u16(len(strings)) + b'\0\0']
    texts, runs = [], {}
    point = 0
    widths = list(widths)
    used = 0

    def split():
        nonlocal point
        point += 1
        return point - 1 in splits
    for k, (n, wide, nr, ph, *fixed) in enumerate(strings):
        fixed = fixed and fixed[0].encode('utf-16-le')
        if k and split():
            recs.append(cur)
            cur = []
        cur += [B.byte(x) for x in u16(n) + bytes([wide | (8 if nr else 0) | (4 if ph else 0)])]
        if nr:
            cur += [B.byte(x) for x in u16(nr)]
        if ph:
            cur += [B.byte(x) for x in u16(ph) + b'\0\0']
        parts = []
        w = wide
        for c in range(n):
            if split():
                recs.append(cur)
                w = widths[used]
                used += 1
                cur = [B.byte(w)]
            ch = [B.byte(fixed[2 * c + j] if fixed else ('s%d' % k, 2 * c + j)) for j in range(2 if w else 1)]
            if not (parts and parts[-1][0] == w):
                parts.append((w, []))
            parts[-1][1].extend(ch)
            cur += ch
        if fixed:
            texts.append(K(fixed.decode('utf-16-le')))
        else:
            texts.append(T('concat', *[B.mktext(b, K('utf-16-le' if w else 'latin-1')) for w, b in parts]))
        rr = []
        for j in range(nr):
            if split():
                recs.append(cur)
                cur = []
            lab = 'r%d' % k
            rr.append(Tup([B.uint(lab, 4 * j), B.uint(lab, 4 * j + 2)]))
            cur += [B.byte((lab, 4 * j + i)) for i in range(4)]
        if nr:
            runs[k] = rr
        for j in range(ph):
            if split():
                recs.append(cur)
                cur = []
            cur.append(B.byte(('p%d' % k, j)))
    recs.append(cur)
    return recs, texts, runs, point, used


def cases():
    for name, strings in TABLES:
        n = layout(strings, (), ())[3]
        todo = [()] + [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(i + 1, n)]
        for sp in todo:
            used = 0
            try:
                used = layout(strings, sp, (0,) * 9)[4]
            except IndexError:
                pass
            ws = [(0,) * used, (1,) * used] if used else [()]
            if any(max(x[4]) > '\xff' for x in strings if len(x) > 4):
                ws = ws[-1:]
            elif used == 2:
                ws += [(0, 1), (1, 0)]
            for w in ws:
                yield name, strings, sp, w, layout(strings, sp, w)


def texts_ok(got, want):
    g = B.units(got)
    if g is None:
        return None
    return g == B.units(want)


def check(P, r):
    sc = BiffScene(P)
    groups = {}
    for name, strings, sp, w, (recs, texts, runs, n, used) in cases():
        g = '%s, %d split%s' % (name, len(sp), '' if len(sp) == 1 else 's')
        groups.setdefault(g, []).append((strings, sp, w, recs, texts, runs))
    for g, todo in groups.items():
        with r.obligation(g):
            bad, unsure, ok = [], [], 0
            for strings, sp, w, recs, texts, runs in todo:
                sc.E.steps = 0
                data = B.bstr(recs[0])
                mem = stream([(0x3c, B.bstr(x)) for x in recs[1:]] + [(0xff, K(b'\0' * 4)), EOF])
                what = 'strings of %s characters%s' % (
                    ', '.join(('%d wide' if s[1] else '%d') % s[0] for s in strings),
                    ', new records of %s data bytes' % ', '.join(str(len(x)) for x in recs[1:]) if sp else '')
                for kind, s, v in sc.run('sst', [data, mem]):
                    r.count('paths')
                    if s.taint:
                        unsure.append('a path is not followed exactly: %s' % (sorted(s.taint)[0],))
                        continue
                    if kind != 'return':
                        if v.name in SKIP_EXC or v.implicit:
                            unsure.append('raises %s' % v.name)
                        else:
                            bad.append('%s: raises %s at %s' % (what, v.name, v.site))
                        continue
                    lst, rmap = v.items[:2]
                    got = sc.E.fixed_items(lst, s)
                    if got is None:
                        unsure.append('the table is no plain list')
                        continue
                    if len(got) != len(texts):
                        bad.append('%s: gives %d texts for %d strings' % (what, len(got), len(texts)))
                        continue
                    res = [texts_ok(a, b) for a, b in zip(got, texts)]
                    if False in res:
                        i = res.index(False)
                        bad.append('%s: text %d is %s instead of %s' % (
                            what, i, B.show(got[i]), B.show(texts[i])))
                        continue
                    if None in res:
                        unsure.append('%s: a text is %s' % (what, B.show(got[res.index(None)])))
                        continue
                    gr = runs_of(sc.E, s, rmap)
                    if gr is None:
                        unsure.append('%s: the rich text map is not followed' % what)
                    elif gr != runs:
                        bad.append('%s: the rich text runs are %s instead of %s' % (what, showruns(gr), showruns(runs)))
                    else:
                        ok += 1
                    if v.items[2] != K(len(B.as_bytes(mem)) - 12):
                        bad.append('%s: the reader stops at %s, the records of the table end at %d' % (
                            what, B.show(v.items[2]), len(B.as_bytes(mem)) - 12)) \
                            if isinstance(v.items[2], K) else unsure.append('position')
            if bad:
                r.viol(g, 'shared strings, ' + bad[0], where=XL + '.book.unpack_SST_table')
            elif unsure:
                r.undecided(g, unsure[0])
            elif not ok:
                r.undecided(g, 'no path')
            else:
                r.ok(g)
                r.count('tables', ok)
    r.engine(sc.E)


def runs_of(E, s, rmap):
    if not isinstance(rmap, Ref) or not isinstance(s.get(rmap), DictObj):
        return None
    o = s.get(rmap)
    if o.base is not None or any(e[0] != 'one' or not isinstance(e[1], K) for e in o.ents):
        return None
    out = {}
    for e in o.ents:
        it = E.fixed_items(e[2], s)
        if it is None or any(E.fixed_items(x, s) is None for x in it):
            return None
        out[e[1].v] = [Tup(E.fixed_items(x, s)) for x in it]
    return out


def showruns(d):
    return '{%s}' % ', '.join('%d: [%s]' % (k, ', '.join(B.show(x) for x in v)) for k, v in sorted(d.items()))
