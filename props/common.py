"""Shared by the property checks: reports, obligations, scenario helpers."""
import contextlib
import traceback

from pyflow.project import Project, AnalysisError
from pyflow.interp import Engine, Budget, Inst, DictObj, ListObj, ArrObj, Frame
from pyflow.values import (V, K, Sym, It, Old, T, Tup, Ref, Fn, Cls, Bound, Ext, Mod, Unk, Comp, NONE, TRUE,
                           FALSE, walk, has_unk, subst, lin_add, lin_parts)
from pyflow import models as M


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.obligations = []       # (name, status, detail)
        self.violations = []        # dict(key, msg, where, rule)
        self.functions = set()
        self.stats = {}
        self.notes = []
        self.samples = []

    def ok(self, name, detail=''):
        self.obligations.append((name, 'holds', detail))

    def undecided(self, name, why):
        self.obligations.append((name, 'undecided', str(why)))

    def viol(self, name, msg, where='', key=None):
        key = key or name
        self.obligations.append((name, 'violated', msg))
        if not any(v['key'] == key and v['msg'] == msg for v in self.violations):
            self.violations.append(dict(key=key, msg=msg, where=where))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def engine(self, E):
        self.functions |= set(E.stats['functions'])
        for k in ('statements', 'loops', 'forks'):
            self.count(k, E.stats[k])

    @contextlib.contextmanager
    def obligation(self, name):
        """Anything the analysis cannot handle leaves the obligation undecided,
        except a missing anchor."""
        n = len(self.obligations)
        try:
            yield self
        except Budget as e:
            self.undecided(name, 'budget: %s' % e)
        except AnalysisError:
            raise
        except RecursionError:
            self.undecided(name, 'recursion too deep')
        except Exception as e:      # an internal limit of the analysis
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(name, 'internal: %s: %s (%s:%d)' % (type(e).__name__, e, tb.filename, tb.lineno))
        else:
            if len(self.obligations) == n:
                self.ok(name)


def show(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def facts_text(st, n=6):
    out = []
    for a, w in list(st.facts.items())[-n:]:
        out.append(('' if w else 'not ') + show(a, 80))
    return '; '.join(out)


DATA_OPS = {'at', 'item', 'len', 'keys', 'min', 'max', 'key', 'lin', 'selfeq', 'eq', 'lt0', 'le0', 'not', 'and', 'or',
            'xor', 'isnan', 'cat', 'truthy', 'sorted', 'ite', 'dictmap', 'values', 'map1', 'slices', 'sub', 'attr',
            'compress'}


def within(v, ops=DATA_OPS):
    """Only operations whose meaning the analysis knows occur in v."""
    return all(not isinstance(x, (Unk, Old)) and (not isinstance(x, T) or x.op in ops) for x in walk(v))


def where_of(info):
    fi, node = info.get('fi'), info.get('node')
    return '%s:%s in %s' % (fi.mod.rel, getattr(node, 'lineno', '?'), fi.qual) if fi else '?'


# ------------------------------------------------------------------ pack scenarios
PACK = 'channelpack.pack.ChannelPack'


def column_factory(prefix='data', dk=None):
    def f(E, st, base, k):
        el = T('at', T('item', base, k), K(0))
        return st.alloc(ArrObj(el, T('len', T('item', base, k)), dk, '%s[%r]' % (prefix, k)))
    return f
