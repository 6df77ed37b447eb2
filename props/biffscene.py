"""Interpretation of the xls record handlers over records of symbolic bytes."""
from .common import *       # noqa
from .scen import spec
from pyflow import bytesim as B

XL = 'channelpack.xlrd'
SHEET = XL + '.sheet.Sheet'

SRC = '''
import sys
from channelpack.xlrd.book import Book
from channelpack.xlrd.sheet import Sheet
from channelpack.xlrd.formatting import handle_xf

def book(bv, fmt_info):
    bk = Book()
    bk.verbosity = 0
    bk.formatting_info = fmt_info
    bk.biff_version = bv
    bk.ragged_rows = 0
    bk.logfile = sys.stdout
    bk._sheet_visibility = [0]
    bk._position = 0
    bk.on_demand = 0
    bk.xf_list = []
    bk.encoding = 'cp1252'
    bk._rich_text_runlist_map = {}
    return bk

def sheet(bv, fmt_info, mem, strings, xfmap, ixfe):
    bk = book(bv, fmt_info)
    bk._sharedstrings = strings
    bk._xf_index_to_xl_type_map = xfmap
    bk.mem = mem
    bk.base = 0
    bk.stream_len = len(mem)
    sh = Sheet(bk, 0, 'S', 0)
    if bv < 30:
        bk.xf_list = [1, 2]
    sh._ixfe = ixfe
    sh.read(bk)
    return sh

def sst(data, mem):
    bk = book(80, 1)
    bk.mem = mem
    bk.base = 0
    bk.stream_len = len(mem)
    bk.handle_sst(data)
    return bk._sharedstrings, bk._rich_text_runlist_map, bk._position

def xf(bv, fmtmap, data):
    bk = book(bv, 0)
    bk.xfcount = 3
    bk.format_map = fmtmap
    handle_xf(bk, data)
    return bk.xf_list[-1]

def plain_sheet(mem):
    bk = book(80, 1)
    bk.mem = mem
    bk.base = 0
    bk.stream_len = len(mem)
    return Sheet(bk, 0, 'S', 0)

def obj(data, mem):
    return plain_sheet(mem).handle_obj(data)

def txo(data, mem):
    return plain_sheet(mem).handle_txo(data)
'''


def rec(rc, data):
    return (rc, data)


def u16(n):
    return bytes([n & 255, n >> 8])


def R(label, n, consts=(), bits=()):
    """record data with constant bytes and bits"""
    d = B.record(label, n, consts)
    if bits:
        bs = [list(b) for b in B.as_bytes(d)]
        for (o, i), v in dict(bits).items():
            bs[o][i] = v
        d = B.bstr(tuple(b) for b in bs)
    return d


EOF = (0x0a, K(b''))
SKIP_EXC = ('AttributeError', 'TypeError', 'NameError', 'Exception')


def stream(recs):
    out = []
    for rc, data in recs:
        bs = B.as_bytes(data)
        out += [B.byte(x) for x in u16(rc) + u16(len(bs))] + bs
    return B.bstr(out)


class BiffScene(object):
    def __init__(self, P, opaque=None):
        self.P = P
        if 'verif_biff' not in P.modules:
            spec(P, SRC, 'verif_biff')
        self.E = Engine(P, [], opaque=opaque or {})
        self.E.eager_gens = True
        self.E.max_steps = 200000
        B.install(self.E)
        self.st = self.E.new_state()

    def run(self, name, args, st=None):
        return self.E.run(self.P.func('verif_biff.' + name), args, {}, st=(st or self.st).copy())
