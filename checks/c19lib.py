"""Capturing output and reading written files."""
import ctypes
import tempfile
from common import *


def flush_all():
    sys.stdout.flush()
    try:
        l = ctypes.CDLL('libstdc++.so.6')
        cout = ctypes.addressof(ctypes.c_char.in_dll(l, '_ZSt4cout'))
        f = getattr(l, '_ZNSo5flushEv')
        f.argtypes = [ctypes.c_void_p]
        f.restype = ctypes.c_void_p
        f(cout)
    except Exception:
        pass


def captured(fn):
    """Text written to file descriptor 1 by Python and by the C++ code."""
    flush_all()
    keep = os.dup(1)
    with tempfile.TemporaryFile(dir=scratch()) as f:
        os.dup2(f.fileno(), 1)
        try:
            r = fn()
        finally:
            flush_all()
            os.dup2(keep, 1)
            os.close(keep)
        f.seek(0)
        return r, f.read().decode()


def lines_of(path):
    with open(path, newline='') as f:
        t = f.read()
    expect(t == '' or t.endswith('\n'), f'{path} does not end with a line end')
    return t.split('\n')[:-1]


def check_values(path, want, ctx=''):
    ls = lines_of(path)
    want = np.asarray(want).ravel()
    expect(len(ls) == len(want), f'{len(ls)} lines for {len(want)} values {ctx}')
    for s, v in zip(ls, want):
        tok = s.split()
        expect(len(tok) == 1, f'line {s!r} {ctx}')
        expect(float(tok[0]) == float('%.7E' % v) and (np.signbit(float(tok[0])) == np.signbit(v) or v == 0),
               f'line {s!r} for {v!r} {ctx}')


def check_diff(path, want, ctx=''):
    ls = lines_of(path)
    expect(len(ls) == len(want), f'{len(ls)} lines for {len(want)} values {ctx}')
    for i, (s, v) in enumerate(zip(ls, want)):
        tok = s.split()
        expect(len(tok) == 2 and tok[0] == str(i), f'line {s!r}, iteration {i} {ctx}')
        expect(float(tok[1]) == float('%.7E' % v), f'line {s!r} for {v!r} {ctx}')


