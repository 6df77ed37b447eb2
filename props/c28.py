RULE = """xldate_as_datetime and xldate_as_tuple are interpreted for a symbolic serial (a float, and an int) in both date
systems and with an invalid one.  The conditions of every path are thresholds on the serial, its integer part and its
rounded seconds; the constants of these conditions and of the rule (0, 1, 60, 61, first serial of year 10000) cut the serials
into regions on which every condition is constant.  In each region every feasible path must give: for datetime, the epoch of
the rule plus the serial's days; for tuple, the documented error for a bad date system, negative, too large and
ambiguous serials, (0, 0, 0, h, m, s) below one day and a date of the calendar otherwise."""
TECHNIQUE = 'path-complete abstract interpretation; region partition of the path conditions against an epoch table'
import datetime
import math
from fractions import Fraction
from .common import *       # noqa

XD = 'channelpack.xlrd.xldate.'
LARGE = (2958466, 2958466 - 1462)
BASE = 'channelpack.xlrd.xldate.XLDateError'


class NoEval(Exception):
    pass


def num(x):
    return Fraction(x) if isinstance(x, float) and math.isfinite(x) else x


def ev(v, env):
    """value of a term in a region"""
    if v in env:
        return env[v]
    if isinstance(v, K):
        return num(v.v)
    if isinstance(v, Tup):
        return tuple(ev(x, env) for x in v.items)
    if isinstance(v, Ext):
        raise NoEval(v)
    if isinstance(v, T):
        a = v.args
        if v.op == 'lin':
            s = num(a[1])
            for t, k in a[0]:
                x = ev(t, env)
                if isinstance(x, (datetime.datetime, datetime.timedelta)):
                    if k == 1:
                        s = x if s == 0 else (s + x if type(s) is not type(x) or isinstance(x, datetime.timedelta) else bad(v))
                    elif k == -1 and isinstance(s, datetime.datetime):
                        s = s - x
                    else:
                        raise NoEval(v)
                    continue
                s = s + num(k) * x
            return s
        if v.op in ('int', 'floor', 'trunc'):
            x = ev(a[0], env)
            return int(x) if v.op != 'floor' else math.floor(x)
        if v.op == 'float':
            return Fraction(ev(a[0], env))
        if v.op == 'abs':
            return abs(ev(a[0], env))
        if v.op == 'round':
            return round(ev(a[0], env)) if len(a) == 1 else bad(v)
        if v.op in ('add', 'sub', 'mul', 'div', 'floordiv', 'mod', 'rshift', 'lshift', 'bitand', 'bitor'):
            x, y = ev(a[0], env), ev(a[1], env)
            if v.op in ('div', 'floordiv', 'mod') and y == 0:
                raise NoEval(v)
            return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: Fraction(x) / y,
                    'floordiv': lambda: x // y, 'mod': lambda: x % y, 'rshift': lambda: x >> y,
                    'lshift': lambda: x << y, 'bitand': lambda: x & y, 'bitor': lambda: x | y}[v.op]()
        if v.op == 'eq':
            return ev(a[0], env) == ev(a[1], env)
        if v.op == 'lt0':
            return ev(a[0], env) < 0
        if v.op == 'le0':
            return ev(a[0], env) <= 0
        if v.op == 'truthy':
            return bool(ev(a[0], env))
        if v.op == 'not':
            return not ev(a[0], env)
        if v.op in ('and', 'or'):
            xs = [ev(x, env) for x in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a)]
            return all(xs) if v.op == 'and' else any(xs)
        if v.op == 'in':
            return ev(a[0], env) in ev(a[1], env)
        if v.op == 'item':
            return ev(a[0], env)[ev(a[1], env)]
        if v.op == 'ite':
            return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if v.op == 'call' and a[0] in ('datetime.datetime', 'datetime.timedelta'):
            f = datetime.datetime if a[0].endswith('datetime') else datetime.timedelta
            pos = [plain(ev(x, env)) for x in a[1]]
            kw = {k: plain(ev(x, env)) for k, x in a[2]}
            try:
                return f(*pos, **kw)
            except (TypeError, ValueError, OverflowError):
                raise NoEval(v)
        if v.op == 'call' and a[0] in ('math.floor', 'math.trunc') and len(a[1]) == 1:
            x = ev(a[1][0], env)
            return math.floor(x) if a[0] == 'math.floor' else int(x)
    raise NoEval(v)


def plain(x):
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else float(x)
    return x


def bad(v):
    raise NoEval(v)


def spec_tuple(x, dm):
    """(error name or None, days, seconds)"""
    if dm not in (0, 1):
        return 'XLDateBadDatemode', None
    if x < 0:
        return 'XLDateNegative', None
    d = int(x)
    s = round((x - d) * 86400)
    up = s == 86400
    if up:
        d, s = d + 1, 0
    if d >= LARGE[dm]:
        return 'XLDateTooLarge', None
    if d == 0:
        return None, (0, 0, 0, s // 3600, s // 60 % 60, s % 60)
    if d < 61 and dm == 0:
        return 'XLDateAmbiguous', None
    day = (datetime.date(1904, 1, 1) if dm else datetime.date(1899, 12, 30)) + datetime.timedelta(d)
    return ('XLDateAmbiguous?' if d == 61 and up and dm == 0 else None), \
        (day.year, day.month, day.day, s // 3600, s // 60 % 60, s % 60)


def spec_datetime(x, dm):
    epoch = datetime.datetime(1904, 1, 1) if dm else datetime.datetime(1899, 12, 31) if x < 60 else \
        datetime.datetime(1899, 12, 30)
    d = math.floor(x)
    ms = round((x - d) * 86400000)
    return epoch + datetime.timedelta(days=d, milliseconds=ms)


def regions(outs, thorough):
    cs = {-1, 0, 1, 2, 59, 60, 61, 62, 366, 1462, LARGE[0], LARGE[1]}
    for kind, s, v in outs:
        for atom in s.facts:
            for t in walk(atom):
                if is_int(t):
                    cs.add(t.v)
                if isinstance(t, T) and t.op == 'lin' and all(abs(k) == 1 for _, k in t.args[0]):
                    if isinstance(t.args[1], (int, float)):
                        cs.add(int(t.args[1]))
    ds = set()
    for c in cs:
        for c in (c, -c):
            if abs(c) < 4000000:
                ds |= {c - 1, c, c + 1}
    if thorough:
        ds |= set(range(-3, 800)) | {LARGE[m] + k for m in (0, 1) for k in range(-800, 5)}
    ds |= {30, 40, 1000, 44197, 2000000, 3900000}
    fr = [Fraction(0), Fraction(1, 86400), Fraction(1, 2), Fraction(86399, 86400), 1 - Fraction(1, 864000), Fraction(1, 864000)]
    return [Fraction(d) + f for d in sorted(ds) for f in fr]


def is_int(t):
    return isinstance(t, K) and isinstance(t.v, int) and not isinstance(t.v, bool)


def feasible(s, env):
    """True, False, or None when a condition cannot be evaluated"""
    unknown = False
    for atom, want in s.facts.items():
        try:
            if bool(ev(atom, env)) != want:
                return False
        except (NoEval, TypeError, ValueError, IndexError, KeyError):
            unknown = True
    return None if unknown else True


def check(P, r):
    from pyflow.interp import State         # noqa
    thorough = getattr(r, 'tier', 'quick') == 'thorough'
    for fn, spec in (('xldate_as_datetime', 'datetime'), ('xldate_as_tuple', 'tuple')):
        fi = P.func(XD + fn)
        for typ in ('float', 'int'):
            for dm in (0, 1) + ((2, -1, 3) if spec == 'tuple' else ()):
                name = '%s, %s serial, date system %d' % (fn, typ, dm)
                with r.obligation(name):
                    one(P, r, name, fi, spec, typ, dm, thorough)


def one(P, r, name, fi, spec, typ, dm, thorough):
    E = Engine(P)
    E.max_steps = 60000
    E.eager_gens = True
    x = Sym('xldate', typ)
    outs = E.run(fi, [x, K(dm)], {}, st=E.new_state())
    r.engine(E)
    und = set()
    pts = [p for p in regions(outs, thorough) if typ == 'float' or p.denominator == 1]
    r.count('paths', len(outs))
    r.count('regions', len(pts))
    seen = set()
    for p in pts:
        if spec == 'datetime' and not -1000 < p < LARGE[dm]:
            continue
        env = {x: p if typ == 'float' else int(p)}
        got = 0
        for i, (kind, s, v) in enumerate(outs):
            ok = feasible(s, env)
            if ok is False:
                continue
            got += 1
            sure = ok and not s.taint
            msg = judge(E, spec, kind, v, env, p, dm)
            if msg is None:
                continue
            if msg[0] == '?' or not sure:
                und.add(msg)
            elif (i, msg.split(':')[0]) not in seen:
                seen.add((i, msg.split(':')[0]))
                r.viol(msg.split(':')[0], '%s, serial %s: %s' % (name, float(p), msg), getattr(v, 'site', None) or fi.where)
        if not got:
            und.add('?no path for serial %s' % float(p))
    for m in sorted(und)[:3]:
        r.undecided(name, m)


def judge(E, spec, kind, v, env, p, dm):
    if kind == 'raise' and v.implicit:
        return None
    if spec == 'datetime':
        if kind == 'raise':
            return 'error: raises %s' % v.name
        try:
            got = ev(v, env)
        except (NoEval, TypeError, ValueError, OverflowError) as e:
            return '?value %s' % show(v)
        exp = spec_datetime(p, dm)
        if not isinstance(got, datetime.datetime):
            return '?value %r' % (got,)
        if abs(got - exp) > datetime.timedelta(milliseconds=2):
            return 'epoch: gives %s, expected %s' % (got, exp)
        return None
    err, exp = spec_tuple(p, dm)
    if kind == 'raise':
        n = v.name.split('.')[-1]
        if err and n == err.rstrip('?'):
            return None
        if err == 'XLDateBadDatemode' and p < 0 and n == 'XLDateNegative':
            return None         # both apply
        if err and not err.endswith('?'):
            return 'wrong error: raises %s, expected %s' % (n, err)
        return 'error: raises %s, expected %s' % (n, exp)
    if err and not err.endswith('?'):
        return 'no error: returns a value, expected %s' % err
    try:
        got = ev(v, env)
        got = tuple(plain(g) for g in got)
    except (NoEval, TypeError, ValueError) as e:
        return '?value %s' % show(v)
    if got != exp:
        return 'value: gives %s, expected %s' % (got, exp)
    return None
