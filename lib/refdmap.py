"""Independent DMap codec written from RST RFC 0006 (shares no code with pydarnio).

Abstract record: list of fields (kind, name, code, value) in record order with kind 's'/'a';
scalar value: python int / float / str; array value: numpy array of the native dtype.
"""
import struct
import numpy as np

ID = 65537
# code -> (struct char, numpy dtype, size)
TYPES = {1: ("b", np.int8, 1), 2: ("h", np.int16, 2), 3: ("i", np.int32, 4), 4: ("f", np.float32, 4),
         8: ("d", np.float64, 8), 10: ("q", np.int64, 8), 16: ("B", np.uint8, 1),
         17: ("H", np.uint16, 2), 18: ("I", np.uint32, 4), 19: ("Q", np.uint64, 8)}
STRING = 9
# DMap type code -> format letter used by pydarnio's public DmapScalar/DmapArray tuples
FMT = {1: "c", 2: "h", 3: "i", 4: "f", 8: "d", 9: "s", 10: "q", 16: "B", 17: "H", 18: "I", 19: "Q"}
CODE = {v: k for k, v in FMT.items()}
NUMERIC = sorted(TYPES)


def enc_scalar(name, code, value):
    b = name.encode() + b"\0" + bytes([code])
    if code == STRING:
        return b + value.encode() + b"\0"
    if code in (4, 8):
        return b + np.array([value], TYPES[code][1]).astype(np.dtype(TYPES[code][1]).newbyteorder("<")).tobytes()
    return b + struct.pack("<" + TYPES[code][0], value)


def enc_array(name, code, value):
    v = np.asarray(value)
    b = name.encode() + b"\0" + bytes([code]) + struct.pack("<i", v.ndim)
    for d in reversed(v.shape):
        b += struct.pack("<i", d)
    return b + np.ascontiguousarray(v).astype(np.dtype(TYPES[code][1]).newbyteorder("<")).tobytes()


def enc_record(fields):
    sc = [f for f in fields if f[0] == "s"]
    ar = [f for f in fields if f[0] == "a"]
    body = b"".join(enc_scalar(*f[1:]) for f in sc) + b"".join(enc_array(*f[1:]) for f in ar)
    return struct.pack("<iiii", ID, len(body) + 16, len(sc), len(ar)) + body


def encode(records):
    return b"".join(enc_record(r) for r in records)


class Bad(Exception):
    pass


class Cur:
    def __init__(self, b, pos, end):
        self.b, self.p, self.end = b, pos, end

    def take(self, n):
        if n < 0 or self.p + n > self.end:
            raise Bad(f"need {n} bytes at {self.p}, end {self.end}")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def i32(self):
        return struct.unpack("<i", self.take(4))[0]

    def text(self):
        z = self.b.find(b"\0", self.p, self.end)
        if z < 0:
            raise Bad("unterminated string")
        r = self.b[self.p:z]
        self.p = z + 1
        try:
            return r.decode("utf-8")
        except UnicodeDecodeError:
            raise Bad("string not text")


def decode(data, strict_id=False):
    """Returns the abstract records or raises Bad. Strict: every block is consumed exactly."""
    data = bytes(data)
    out, pos = [], 0
    while pos < len(data):
        c = Cur(data, pos, len(data))
        ident = c.i32()
        if strict_id and ident != ID:
            raise Bad("identifier")
        size = c.i32()
        if size < 16 or pos + size > len(data):
            raise Bad(f"block size {size}")
        c.end = pos + size
        ns, na = c.i32(), c.i32()
        if ns < 0 or na < 0:
            raise Bad("negative count")
        rec = []
        for _ in range(ns):
            name = c.text()
            code = c.take(1)[0]
            if code == STRING:
                rec.append(("s", name, code, c.text()))
            elif code in TYPES:
                fmt, dt, n = TYPES[code]
                rec.append(("s", name, code, struct.unpack("<" + fmt, c.take(n))[0]))
            else:
                raise Bad(f"type {code}")
        for _ in range(na):
            name = c.text()
            code = c.take(1)[0]
            if code not in TYPES:
                raise Bad(f"array type {code}")
            nd = c.i32()
            if nd <= 0:
                raise Bad("dimensions")
            dims = [c.i32() for _ in range(nd)]
            if any(d < 0 for d in dims):
                raise Bad("negative dimension")
            dims = dims[::-1]
            n = 1
            for d in dims:
                n *= d
            raw = c.take(n * TYPES[code][2])
            if nd > 64 or n > 1 << 40:
                raise Bad("absurd")
            a = np.frombuffer(raw, np.dtype(TYPES[code][1]).newbyteorder("<")).astype(TYPES[code][1])
            try:
                a = a.reshape(dims)
            except ValueError:
                raise Bad("unrepresentable shape")
            rec.append(("a", name, code, a))
        if c.p != c.end:
            raise Bad(f"block not consumed: {c.p} != {c.end}")
        out.append(rec)
        pos = c.end
    return out


def collapse(rec):
    """Fields as a name-keyed mapping (last one wins, first position kept), as a dict would."""
    d = {}
    for f in rec:
        d[f[1]] = f
    return list(d.values())


def blocks_tile(data):
    """Declared block sizes tile the data exactly (header sizes only)."""
    data = bytes(data)
    pos = 0
    while pos < len(data):
        if pos + 8 > len(data):
            return False
        size = struct.unpack("<i", data[pos + 4:pos + 8])[0]
        if size <= 0:
            return False
        pos += size
    return pos == len(data)


def encode_marked(records):
    """encode() plus the structural positions: list of (offset, length, kind)."""
    out, marks = bytearray(), []
    for rec in records:
        sc = [f for f in rec if f[0] == "s"]
        ar = [f for f in rec if f[0] == "a"]
        base = len(out)
        for k, kind in enumerate(("ident", "size", "nscalar", "narray")):
            marks.append((base + 4 * k, 4, kind))
        pos = base + 16
        for kind, name, code, v in sc + ar:
            n = len(name.encode())
            marks += [(pos, n, "name"), (pos + n, 1, "nul"), (pos + n + 1, 1, "type")]
            p = pos + n + 2
            if kind == "s":
                m = len(enc_scalar(name, code, v))
                if code == STRING:
                    marks += [(p, pos + m - p - 1, "text"), (pos + m - 1, 1, "nul")]
                else:
                    marks.append((p, pos + m - p, "value"))
            else:
                m = len(enc_array(name, code, v))
                marks.append((p, 4, "ndim"))
                marks += [(p + 4 + 4 * i, 4, "dim") for i in range(np.ndim(v))]
                q = p + 4 + 4 * np.ndim(v)
                marks.append((q, pos + m - q, "data"))
            pos += m
        b = enc_record(rec)
        assert base + len(b) == pos
        out += b
    return bytes(out), [m for m in marks if m[1] > 0]
