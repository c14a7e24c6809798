"""A small independent CBOR encoder, with the freedom to serialize non-canonically."""
import struct


def head(major, n, width=None):
    """width: number of argument bytes to use (None: minimal)"""
    m = major << 5
    if width is None:
        width = 0 if n < 24 else 1 if n < 256 else 2 if n < 65536 else 4 if n < 2 ** 32 else 8
    if width == 0:
        return bytes([m | n])
    return bytes([m | {1: 24, 2: 25, 4: 26, 8: 27}[width]]) + n.to_bytes(width, "big")


class Tag:
    def __init__(self, tag, value):
        self.tag, self.value = tag, value


class Raw:
    """already encoded"""

    def __init__(self, data):
        self.data = data


def enc(x):
    """minimal (preferred) serialization, maps in insertion order"""
    if isinstance(x, Raw):
        return x.data
    if x is False:
        return b"\xf4"
    if x is True:
        return b"\xf5"
    if x is None:
        return b"\xf6"
    if isinstance(x, int):
        if 0 <= x < 2 ** 64:
            return head(0, x)
        if -2 ** 64 <= x < 0:
            return head(1, -1 - x)
        n = x if x >= 0 else -1 - x
        return (b"\xc2" if x >= 0 else b"\xc3") + enc(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    if isinstance(x, float):
        return b"\xfb" + struct.pack(">d", x)
    if isinstance(x, (bytes, bytearray)):
        return head(2, len(x)) + bytes(x)
    if isinstance(x, str):
        b = x.encode()
        return head(3, len(b)) + b
    if isinstance(x, (list, tuple)):
        return head(4, len(x)) + b"".join(map(enc, x))
    if isinstance(x, dict):
        return head(5, len(x)) + b"".join(enc(k) + enc(v) for k, v in x.items())
    if isinstance(x, Tag):
        return head(6, x.tag) + enc(x.value)
    raise TypeError(type(x))


def wide_int(x, width):
    return head(0, x, width) if x >= 0 else head(1, -1 - x, width)


def enc_map_noncanonical(m, form):
    """the same map in a different serialization; form in 0..5"""
    items = list(m.items())
    if form == 0:                                  # indefinite length
        return b"\xbf" + b"".join(enc(k) + enc(v) for k, v in items) + b"\xff"
    if form == 1:                                  # length of the map not minimal
        return head(5, len(items), 1) + b"".join(enc(k) + enc(v) for k, v in items)
    if form == 2:                                  # ... in four bytes
        return head(5, len(items), 4) + b"".join(enc(k) + enc(v) for k, v in items)
    if form == 3 and items:                        # labels not minimal
        return head(5, len(items)) + b"".join(
            (wide_int(k, 2) if isinstance(k, int) and -2 ** 16 <= k < 2 ** 16 else b"\x7f" + enc(k) + b"\xff" if
             isinstance(k, str) else enc(k)) + enc(v) for k, v in items)
    if form == 4 and len(items) > 1:               # other order
        return head(5, len(items)) + b"".join(enc(k) + enc(v) for k, v in reversed(items))
    if form == 5 and items:                        # values not minimal
        def wv(v):
            if isinstance(v, bool) or v is None:
                return enc(v)
            if isinstance(v, int) and -2 ** 32 <= v < 2 ** 32:
                return wide_int(v, 4)
            if isinstance(v, bytes):
                return head(2, len(v), 4) + v
            return enc(v)
        return head(5, len(items)) + b"".join(enc(k) + wv(v) for k, v in items)
    return b"\xbf" + b"".join(enc(k) + enc(v) for k, v in items) + b"\xff"
