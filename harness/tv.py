"""Tagged binary form of TLA+ values, read back by LoadValue (F64Overrides)."""
import struct

_pd = struct.Struct('>cd').pack
_pi = struct.Struct('>ci').pack


class Writer(object):
    """float -> number, int -> integer, bool, str, list/tuple -> tuple,
    dict -> record."""

    def __init__(self, fh):
        self.fh = fh
        self.shapes = {}
        self.buf = []

    def dump(self, v):
        self._w(v)
        self.fh.write(b''.join(self.buf))
        self.buf = []

    def _s(self, s):
        b = s.encode('utf-8')
        self.buf.append(struct.pack('>i', len(b)))
        self.buf.append(b)

    def _w(self, v):
        t = type(v)
        if t is float:
            self.buf.append(_pd(b'd', v))
        elif t is bool:
            self.buf.append(b'T' if v else b'N')
        elif t is int:
            self.buf.append(_pi(b'i', v))
        elif t is str:
            self.buf.append(b's')
            self._s(v)
        elif t is list or t is tuple:
            self.buf.append(_pi(b'l', len(v)))
            for x in v:
                self._w(x)
        elif t is dict:
            keys = tuple(v)
            n = self.shapes.get(keys)
            if n is None:
                n = self.shapes[keys] = len(self.shapes)
                self.buf.append(_pi(b'S', len(keys)))
                for k in keys:
                    self._s(k)
            self.buf.append(_pi(b'r', n))
            for k in keys:
                self._w(v[k])
        else:
            raise TypeError('%r' % (t,))


def dump(v, path):
    with open(path, 'wb') as fh:
        Writer(fh).dump(v)
