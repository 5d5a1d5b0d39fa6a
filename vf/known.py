"""The known findings: each is demonstrated on the real code before it is reported."""
import ctypes
import os

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')


def listed():
    """ids of the findings listed for each property"""
    out = {}
    try:
        with open(FILE) as f:
            for l in f:
                if l.startswith('known: '):
                    w = l.split()
                    out.setdefault(w[1].split('=')[1], {})[w[2]] = ' '.join(w[2:])
    except OSError:
        pass
    return out


INPUT = {'K1': bytes([0x52, 0x05, 0x01]), 'K2': bytes([0x08, 0x01, 0x90])}


def demonstrate(b, prop):
    """(lines to report, failing cases): runs the listed input of each finding of the property"""
    ks = listed().get(prop, {})
    if not ks:
        return [], []
    from .build import BuildError
    try:
        b.prepare('znest')
        so = b.native('znest', san=False)
    except BuildError:
        return [], []
    out = []
    l = ctypes.CDLL(so)
    for k, text in ks.items():
        d = INPUT.get(k)
        if d is None:
            continue
        m = ctypes.create_string_buffer(4096)
        g = ctypes.create_string_buffer(256)
        buf = ctypes.create_string_buffer(d, len(d))
        l.In__ctor(m)
        l.n_gr_init(g, buf, 0, len(d), 0)
        l.In__des.restype = ctypes.c_uint32
        if l.In__des(m, g) == 0:
            out.append(text)
    return out, []
