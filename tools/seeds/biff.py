import struct, io, sys, os, zipfile
P = struct.pack


def rec(rc, data=b''):
    return P('<HH', rc, len(data)) + data


def book8(sheet_records, globals_records=b'', names=('s',), formatting=False):
    "a BIFF8 workbook stream with one sheet of the given records"
    from channelpack import xlrd
    bof = lambda t: rec(0x809, P('<HHHHII', 0x600, t, 0x0DBB, 1996, 0, 6))
    xfs = b''
    for i in range(16):
        xfs += rec(0x31, P('<HHHHHBBBB', 200, 0, 0x7fff, 400, 0, 0, 0, 0, 0) + b'\x05\0Arial') if i < 5 else b''
    for i in range(21):
        xfs += rec(0xE0, P('<HHHBBBBIiH', 0, 0, 0xfff5 if i < 15 else 1, 0x20, 0, 0, 0, 0, 0, 0x20c0))
    head = bof(5) + rec(0x42, P('<H', 1200)) + xfs + globals_records
    nm = names[0].encode('latin1')
    bs = lambda pos: rec(0x85, P('<IBBBB', pos, 0, 0, len(nm), 0) + nm)
    pos = len(head) + len(bs(0)) + 4
    data = head + bs(pos) + rec(10) + bof(0x10) + sheet_records + rec(10)
    return xlrd.open_workbook(file_contents=data + b'\0' * max(0, 600 - len(data)), logfile=open(os.devnull, 'w'),
                              formatting_info=formatting)


def biff2(records, **kw):
    "a BIFF2 worksheet stream"
    from channelpack import xlrd
    data = rec(9, P('<HH', 2, 0x10)) + records + rec(10)
    return xlrd.open_workbook(file_contents=data + b'\0' * 600, logfile=open(os.devnull, 'w'), **kw)


def number(r, c, x, xf=15):
    return rec(0x203, P('<HHHd', r, c, xf, x))
