RULE = """pack(ch) and name(ch) are interpreted abstractly for a pack with arbitrary data and names dicts and an arbitrary int
or str reference.  Every path that returns identifies the data key it used and must carry the facts that justify it:
ch in data; or ch not in data, ch no integer, ch equal to names[key] and key in data; or no name equal to ch and the
whole of ch matched by the escaped prefix followed by a captured run of digits whose int value is the key and is in
data.  Every path that raises must raise KeyError and carry facts excluding all three.  The pattern is parsed (not
matched) for a plain and for a metacharacter prefix and compared structurally."""
TECHNIQUE = 'abstract interpretation with path facts; structural comparison of the parsed regular expression'
import re
try:
    import re._parser as sre_parse
except ImportError:
    import sre_parse
from .common import *       # noqa
from .scen import PackScene, shaped_pack

CALLS = ('re.match', 're.escape', 're.fullmatch', 're.search', 're.compile')
DATA, NAMES = Sym('p.data', 'dict'), Sym('p.names', 'dict')
KNOWN = DATA_OPS | {'in', 'call', 'mcall', 'int', 'concat', 'str', 'lower', 'amethod', 'isinst'}


def fold(v):
    """constant folding of pattern expressions"""
    if isinstance(v, T):
        a = [fold(x) if isinstance(x, V) else x for x in v.args]
        if v.op == 'call' and v.args[0] == 're.escape' or (v.op == 'call' and v.args[0] == K('re.escape')):
            x = fold(v.args[1][0])
            if isinstance(x, K) and isinstance(x.v, str):
                return K(re.escape(x.v))
        if v.op == 'concat' and all(isinstance(x, K) and isinstance(x.v, str) for x in a):
            return K(''.join(x.v for x in a))
    return v


def call_parts(v):
    if isinstance(v, T) and v.op == 'call':
        n = v.args[0]
        return (n.v if isinstance(n, K) else n), v.args[1], v.args[2]
    return None, (), ()


def match_parts(m):
    """-> (function, pattern, subject, extra) of a match object term"""
    n, a, kw = call_parts(m)
    if n in ('re.match', 're.fullmatch', 're.search') and len(a) >= 2:
        return n[3:], a[0], a[1], tuple(a[2:]) + tuple(kw)
    if isinstance(m, T) and m.op in ('mcall', 'amethod') and len(m.args) >= 3:
        n2, a2, kw2 = call_parts(m.args[0])
        meth = m.args[1].v if isinstance(m.args[1], K) else m.args[1]
        if n2 == 're.compile' and meth in ('match', 'fullmatch', 'search') and len(m.args[2]) == 1 and a2:
            return meth, a2[0], m.args[2][0], tuple(a2[1:]) + tuple(kw2)
    return None


DIGITS = ("[(IN, [(CATEGORY, CATEGORY_DIGIT)])]", "[(IN, [(RANGE, (48, 57))])]")


def judge_pattern(fun, pat, prefix, extra, group):
    """-> None when right, else (definite, message)"""
    if extra:
        return (False, 'flags %s' % (extra,))
    p = fold(pat)
    if not (isinstance(p, K) and isinstance(p.v, str)):
        return (False, 'pattern %s' % show(p))
    try:
        items = list(sre_parse.parse(p.v))
    except Exception as e:
        return (True, 'pattern %r does not compile for prefix %r: %s' % (p.v, prefix, e))
    ops = [(str(o), a) for o, a in items]
    i = 0
    if ops and ops[0][0] == 'AT' and str(ops[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
        i = 1
    elif fun == 'search':
        return (True, 'pattern %r is searched anywhere in the reference' % p.v)
    want = [('LITERAL', ord(c)) for c in prefix]
    if ops[i:i + len(want)] != want:
        return (True, 'pattern %r does not match the prefix %r literally' % (p.v, prefix))
    rest = ops[i + len(want):]
    if rest and rest[-1][0] == 'AT' and str(rest[-1][1]) == 'AT_END_STRING':
        rest = rest[:-1]
    elif fun != 'fullmatch':
        if rest and rest[-1][0] == 'AT' and str(rest[-1][1]) == 'AT_END':
            return (True, 'pattern %r lets a trailing newline through' % p.v)
        if rest and rest[-1][0] == 'SUBPATTERN':
            return (True, 'pattern %r does not match to the end of the reference' % p.v)
        return (False, 'pattern %r' % p.v)
    if len(rest) != 1 or rest[0][0] != 'SUBPATTERN':
        return (False, 'pattern %r' % p.v)
    g, body = rest[0][1][0], list(rest[0][1][-1])
    if g != group:
        return (False, 'group %r' % (group,))
    if len(body) == 1 and str(body[0][0]) in ('MAX_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, what = body[0][1]
        if str(list(what)) in DIGITS:
            if lo == 1 and str(hi) == 'MAXREPEAT':
                return None
            return (True, 'pattern %r takes %s to %s digits' % (p.v, lo, hi))
    elif len(body) == 1 and str(list(body)) in DIGITS:
        return (True, 'pattern %r takes only one digit' % p.v)
    return (False, 'pattern %r' % p.v)


def int_of_group(q):
    """q = int(match.group(1)) -> (match, group)"""
    if isinstance(q, T) and q.op == 'int' and len(q.args) == 1:
        g = q.args[0]
        if isinstance(g, T) and g.op in ('mcall', 'amethod') and len(g.args) >= 3:
            meth = g.args[1].v if isinstance(g.args[1], K) else g.args[1]
            if meth == 'group':
                a = g.args[2]
                if len(a) == 1 and isinstance(a[0], K):
                    return g.args[0], a[0].v
        if isinstance(g, T) and g.op == 'item' and isinstance(g.args[1], K) and match_parts(g.args[0]):
            return g.args[0], g.args[1].v
    return None


class Judge(object):
    def __init__(self, sc, r, ch, prefix):
        self.sc, self.r, self.ch, self.prefix = sc, r, ch, prefix
        self.meth = None

    def stored(self, name, s, q, where):
        """the key that was used must be a data key"""
        f = self.fact(s, T('in', q, DATA))
        if f is True or self.meth == '__call__' and f is None:
            return
        if f is False or self.known(s):
            return self.r.viol('nodata', '%s: resolves to %s without that being a data key (path: %s)' % (
                name, show(q), facts_text(s)), where)
        self.r.undecided(name, 'no proof that %s is in data' % show(q))

    def fact(self, s, atom):
        return self.sc.E.atom_value(atom, s)

    def known(self, s):
        """The path's facts are made of known operations only."""
        return not s.taint and all(within(a, KNOWN) for a in s.facts)

    def no_name(self, s):
        """No name equals the reference, on this path."""
        if s.facts.get(T('truthy', NAMES)) is False:
            return True
        for src, lid, cond, want, rest in s.foralls:
            if rest == () and want is False and isinstance(cond, T) and cond.op == 'eq' and self.ch in cond.args and \
                    any(x in (NAMES, ) for x in walk(cond)) and \
                    any(x == NAMES for x in walk(src)):
                return True
        for a, w in s.facts.items():        # ch in names.values()
            if isinstance(a, T) and a.op == 'in' and a.args[0] == self.ch and a.args[1] == T('values', NAMES):
                return not w
        return False

    def consulted_names(self, s):
        return any(x == NAMES for a in s.facts for x in walk(a)) or \
            any(x == NAMES for f in s.foralls for y in (f[0], f[2]) if isinstance(y, V) for x in walk(y))

    def key(self, name, s, q, where):
        """The data key q was used: is that justified?"""
        ch, r = self.ch, self.r
        if q == ch:
            return self.stored(name, s, q, where)
        m = int_of_group(q)
        is_name = isinstance(q, T) and q.op == 'key' and q.args[0] == NAMES
        if not m and not is_name:
            if within(q, DATA_OPS) and self.known(s):
                return r.viol('key', '%s: uses key %s (path: %s)' % (name, show(q), facts_text(s)), where)
            return r.undecided(name, 'key %s' % show(q))
        t = self.sc.E.typeof(ch, s)
        if ch.typ == 'int':
            return r.viol('intref', '%s: an integer reference resolves to another key %s (path: %s)' % (
                name, show(q), facts_text(s)), where)
        if is_name:
            if self.fact(s, T('eq', *sorted((ch, T('item', NAMES, q)), key=repr))) is True or \
                    s.facts.get(T('eq', ch, T('item', NAMES, q))) is True:
                return self.stored(name, s, q, where)
            if not self.known(s):
                return r.undecided(name, 'names lookup by %s' % facts_text(s))
            return r.viol('name', '%s: resolves to key %s though the reference is not the name of it (path: %s)' % (
                name, show(q), facts_text(s)), where)
        mt, group = m
        if not self.no_name(s):
            if self.known(s) and not self.consulted_names(s):
                return r.viol('precedence', '%s: the fallback string is taken before the names' % name, where)
            if self.known(s) and self.named_without_data(s):
                return r.viol('nodata', '%s: a name whose key has no data resolves by the fallback string (path: %s)' % (
                    name, facts_text(s)), where)
            return r.undecided(name, 'no proof that no name equals the reference: %s' % facts_text(s))
        self.pattern(name, mt, group, where)
        self.stored(name, s, q, where)

    def observe(self, kind, s, info):
        if kind == 'iter_end' and any(x == NAMES for x in walk(info['src'])):
            for a, w in s.facts.items():
                if w and isinstance(a, T) and a.op == 'eq' and self.ch in a.args:
                    x = [y for y in a.args if y != self.ch]
                    if x and isinstance(x[0], T) and x[0].op == 'item' and x[0].args[0] == NAMES and \
                            info['it'] in list(walk(x[0])) and s.facts.get(T('in', x[0].args[1], DATA)) is False:
                        self.passed_over = True

    passed_over = False

    def named_without_data(self, s):
        if self.passed_over:
            return True
        for src, lid, cond, want, rest in s.foralls:
            if any(x == NAMES for x in walk(src)) and want is False and \
                    any(isinstance(x, T) and x.op == 'in' and x.args[1] == DATA for x in walk(cond)) and \
                    any(isinstance(x, T) and x.op == 'eq' and self.ch in x.args for x in walk(cond)) and \
                    all(not isinstance(x, T) or x.op in ('and', 'eq', 'in', 'item', 'key', 'lin') for x in walk(cond)):
                return True
        return False

    def pattern(self, name, mt, group, where):
        mp = match_parts(mt)
        if not mp:
            return self.r.undecided(name, 'match by %s' % show(mt))
        if mp[2] != self.ch:
            return self.r.undecided(name, 'matches %s' % show(mp[2]))
        bad = judge_pattern(mp[0], mp[1], self.prefix, mp[3], group)
        if bad and bad[0]:
            return self.r.viol('pattern', '%s: %s' % (name, bad[1]), where)
        if bad:
            return self.r.undecided(name, bad[1])

    def raised(self, name, s, e):
        ch, r = self.ch, self.r
        if e.implicit:
            return
        if e.name != 'KeyError':
            if self.known(s):
                r.viol('exception', '%s: raises %s, not KeyError (path: %s)' % (name, e.name, facts_text(s)), e.site)
            return
        if not self.known(s):
            return r.undecided(name, 'raise on %s' % facts_text(s))
        if self.meth == 'name' and any(isinstance(a, T) and a.op == 'in' and a.args[1] == NAMES and not w
                                       for a, w in s.facts.items()):
            return      # the key has no name
        if self.fact(s, T('in', ch, DATA)) is True:
            return r.viol('lost', '%s: KeyError for a data key (path: %s)' % (name, facts_text(s)), e.site)
        if ch.typ == 'int':
            if self.fact(s, T('in', ch, DATA)) is None:
                r.viol('lost', '%s: KeyError without looking the integer up in data' % name, e.site)
            return
        named = [a for a, w in s.facts.items() if w and isinstance(a, T) and a.op == 'eq' and ch in a.args and
                 any(isinstance(x, T) and x.op == 'item' and x.args[0] == NAMES for x in a.args)]
        if named:
            for a in named:
                x = [x for x in a.args if x != ch][0]
                if self.fact(s, T('in', x.args[1], DATA)) is True:
                    r.viol('lost', '%s: KeyError for the name of a data key (path: %s)' % (name, facts_text(s)), e.site)
            return
        if s.facts.get(T('in', ch, T('values', NAMES))) is True:
            return
        if not self.no_name(s):
            if not self.consulted_names(s):
                return r.viol('lost', '%s: KeyError without consulting the names' % name, e.site)
            return r.undecided(name, 'KeyError, no proof that no name equals the reference: %s' % facts_text(s))
        mts = [(a, w) for a, w in s.facts.items() if isinstance(a, T) and
               any(match_parts(x) for x in walk(a))]
        if not mts:
            return r.viol('lost', '%s: KeyError without trying the fallback string' % name, e.site)
        for a, w in mts:
            if a.op == 'in' and w and a.args[1] == DATA:
                return r.viol('lost', '%s: KeyError for a fallback string of a data key' % name, e.site)


def keys_of(sc, s, v, meth):
    """the data key a returned value belongs to"""
    if meth == '__call__':
        d = s.get(s.get(s.get(sc.pack).attrs['data']).d)
        for k, ref in d.lazy.items():
            if ref == v:
                return k
        return None
    ks = {x.args[1] for x in walk(v) if isinstance(x, T) and x.op == 'item' and x.args[0] == NAMES}
    outer = set(ks)
    return next(iter(outer)) if len(outer) == 1 else (None if not outer else 'many')


def check(P, r):
    wcall, wname = P.func(PACK + '.__call__').where, P.func(PACK + '.name').where
    shaped(P, r, wcall, wname)
    for prefix in ('ch', 'a.b('):
        for typ in ('int', 'str'):
            ch = Sym('ch', typ)
            for meth, args, kw, title in (('__call__', [ch], {'nof': K('ignore')}, 'pack(ch)'),
                                          ('name', [ch], {}, 'name(ch)'),
                                          ('name', [ch], {'fallback': TRUE}, 'name(ch, fallback=True)'),
                                          ('name', [ch], {'firstwordonly': TRUE}, 'name(ch, firstwordonly=True)')):
                name = '%s with %s reference, prefix %r' % (title, typ, prefix)
                with r.obligation(name):
                    sc = PackScene(P, mask=False)
                    sc.E.known_calls = CALLS
                    J = Judge(sc, r, ch, prefix)
                    sc.user_obs.append(J.observe)
                    for k, s0, v in sc.assign('FALLBACK_PREFIX', K(prefix)):
                        if k == 'raise':
                            r.undecided(name, 'prefix not assignable: %s' % v)
                            continue
                        for kind, s, v in sc.call(meth, args, kw, s0):
                            r.count('paths')
                            judge(J, r, name, kind, s, v, meth, kw, prefix, wcall if meth == '__call__' else wname)
                    r.engine(sc.E)


PACKS = [((1, 2), {1: 'a', 2: 'b'}), ((1, 2), {7: 'ch1', 1: 'a'}), ((1, 2), {1: 'ch2', 2: 'ch1'}), ((0, 10), {}),
         ((2, 0), {0: ''}), ((1, 2, 3), {3: 'ab', 2: 'a', 1: 'abc'}), ((12, 1), {12: 'x y', 1: 'X Y'}), ((), {1: 'a', 2: 'ch1'})]
REFS = [0, 1, 2, 3, 7, -1, 'a', 'b', 'A', 'ab', 'abc', 'x y', 'X Y', 'x', ' a', 'a ', '', '1', 'ch', 'ch0', 'ch1', 'ch2', 'ch7', 'ch10',
        'ch12', 'ch123', 'CH1', 'ch1x', 'xch1', 'ch1\n', 'ch 1', 'ch1 ', 'ch-1', 'ch1.0', 'ch1ch2']


def rule(ch, keys, names, prefix):
    if ch in keys:
        return ch
    if isinstance(ch, int):
        return None
    for k, n in names.items():
        if n == ch:
            return k if k in keys else None
    t = ch[len(prefix):]
    if ch.startswith(prefix) and t and all(c in '0123456789' for c in t) and int(t) in keys:
        return int(t)
    return None


def shaped(P, r, wcall, wname):
    """packs of given keys and names, every kind of reference: definite answers where the general case leaves facts open"""
    for keys, names in PACKS:
        for prefix in ('ch', '', 'c.'):
            refs = [x for x in REFS if isinstance(x, int) or prefix == 'ch' or x in ('a', '1', '', 'ch1', 'x')] + (
                ['c.1', 'cx1', 'c.2', 'c.', 'c1'] if prefix == 'c.' else [])
            name = 'data keys %s, names %s, prefix %r' % (list(keys), names, prefix)
            with r.obligation(name):
                sc = shaped_pack(P, keys, names)
                starts = [s0 for k, s0, v in sc.assign('FALLBACK_PREFIX', K(prefix), sc.st.copy()) if k != 'raise']
                for ch in refs:
                    want = rule(ch, keys, names, prefix)
                    for meth, kw, title in (('__call__', {'nof': K('ignore')}, 'pack(%r)'), ('name', {}, 'name(%r)'),
                                            ('name', {'fallback': TRUE}, 'name(%r, fallback=True)')):
                        lab = name + ': ' + title % (ch,)
                        w = wcall if meth == '__call__' else wname
                        if meth == '__call__':
                            exp = sc.cols.get(want)
                        elif kw:
                            exp = K(prefix + str(want)) if want is not None else None
                        else:
                            exp = K(names[want]) if want in names else None
                        for s0 in starts:
                            for kind, s, v in sc.call(meth, [K(ch)], kw, s0.copy()):
                                r.count('paths')
                                if s.taint or kind == 'raise' and v.implicit:
                                    r.undecided(name, '%s: depends on unknown' % lab)
                                elif kind == 'raise':
                                    if exp is not None or v.name != 'KeyError':
                                        r.viol('shaped', '%s raises %s, expected %s' % (
                                            lab, v.name, 'key %s' % want if exp is not None else 'KeyError'), w)
                                elif exp is None or v != exp:
                                    if isinstance(v, (K, Ref)) and (v in sc.cols.values() or isinstance(v, K)):
                                        got = [k for k, c in sc.cols.items() if c == v] or [v]
                                        r.viol('shaped', '%s gives %s, expected %s' % (
                                            lab, got[0], 'key %s' % want if exp is not None else 'KeyError'), w)
                                    else:
                                        r.undecided(name, '%s gives %s' % (lab, show(v)))
                r.engine(sc.E)


def judge(J, r, name, kind, s, v, meth, kw, prefix, where):
    if s.taint:
        return r.undecided(name, 'path depends on unknown: %s' % (s.taint,))
    J.meth = meth
    if kind == 'raise':
        return J.raised(name, s, v)
    J.meth = meth
    if meth == '__call__':
        q = keys_of(J.sc, s, v, meth)
        if q is None:
            return r.undecided(name, 'returned %s' % show(v))
        return J.key(name, s, q, where)
    if 'fallback' in kw:
        if isinstance(v, T) and v.op == 'concat' and len(v.args) == 2 and v.args[0] == K(prefix) and \
                isinstance(v.args[1], T) and v.args[1].op == 'str':
            return J.key(name, s, v.args[1].args[0], where)
        if v in (J.ch, T('concat', K(prefix), J.ch)):
            return r.viol('fallback', '%s: returns the reference itself' % name, where)
        if isinstance(v, T) and v.op == 'item' and v.args[0] == NAMES:
            return r.viol('fallback', '%s: returns %s, not the fallback string' % (name, show(v)), where)
        return r.undecided(name, 'returned %s' % show(v))
    if v == J.ch:
        if s.facts.get(T('in', J.ch, DATA)) is True:
            return r.viol('name', '%s: returns the reference itself' % name, where)
        if J.no_name(s) and J.known(s):
            return r.viol('name', '%s: returns the reference, which is not a name (path: %s)' % (
                name, facts_text(s)), where)
        if any(w and isinstance(a, T) and a.op == 'eq' and J.ch in a.args and NAMES in list(walk(a))
               for a, w in s.facts.items()):
            return
        return r.undecided(name, 'returns the reference')
    q = keys_of(J.sc, s, v, meth)
    if q is None or q == 'many':
        return r.undecided(name, 'returned %s' % show(v))
    if not kw and v != T('item', NAMES, q):
        if within(v, DATA_OPS | {'mcall', 'concat', 'str', 'int'}):
            return r.viol('name', '%s: returns %s, not the name of its key' % (name, show(v)), where)
        return r.undecided(name, 'returned %s' % show(v))
    return J.key(name, s, q, where)
