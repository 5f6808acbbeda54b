"""Independent h5py reader and writer of Borealis files (the way a radar writes them), used to judge both ends separately."""
from lib.harness import must, check
import h5py
import numpy as np

LIB_ATTRS = {"CLASS": np.bytes_("GROUP"), "TITLE": np.bytes_(""), "VERSION": np.bytes_("1.0")}
TOP_ATTRS = dict(LIB_ATTRS, DEEPDISH_IO_VERSION=np.int64(12), PYTABLES_FORMAT_VERSION=np.bytes_("2.1"))


def _put(group, k, v, comp, extra):
    if isinstance(v, str) and extra and v == "":
        group.attrs[k] = h5py.Empty(np.dtype("S1"))  # how PyTables stores it
    elif isinstance(v, str):
        group.attrs[k] = np.bytes_(v.encode("utf-8"))
    elif not isinstance(v, np.ndarray):
        group.attrs[k] = v
    elif v.dtype.kind == "U":
        v = np.ascontiguousarray(v.astype(v.dtype.newbyteorder("=")))
        d = group.create_dataset(k, data=v.view(np.uint8), compression=comp)
        d.attrs["strtype"] = b"unicode"
        d.attrs["itemsize"] = v.dtype.itemsize // 4
    else:
        d = group.create_dataset(k, data=v, compression=comp)
        if extra:
            d.attrs["CLASS"] = np.bytes_("CARRAY")


def write_site(path, records, comp=None, extra=False):
    with h5py.File(path, "w") as f:
        if extra:
            for k, v in TOP_ATTRS.items():
                f.attrs[k] = v
        for name, rec in records.items():
            g = f.create_group(str(name))
            if extra:
                for k, v in LIB_ATTRS.items():
                    g.attrs[k] = v
            for k, v in rec.items():
                _put(g, k, v, comp, extra)


def write_array(path, arrays, comp=None, extra=False):
    with h5py.File(path, "w") as f:
        if extra:
            for k, v in TOP_ATTRS.items():
                f.attrs[k] = v
        for k, v in arrays.items():
            _put(f, k, v, comp, extra)


def _get(group):
    out = {}
    for k, d in group.items():
        if not isinstance(d, h5py.Dataset):
            out[k] = d
            continue
        v = d[()]
        if "strtype" in d.attrs:
            v = v.view((np.str_, int(d.attrs["itemsize"])))
        out[k] = v
    for k, v in group.attrs.items():
        if k in TOP_ATTRS:
            continue
        if isinstance(v, h5py.Empty):
            v = "" if v.dtype.kind == "S" else v
        elif isinstance(v, bytes):
            v = bytes(v).decode("utf-8")
        out[k] = v
    return out


def check_compression(path, asked, default):
    """The stored data is compressed the way that was asked for."""
    want = {None: None, "zlib": "gzip", 4: "gzip"}.get(default if asked == "default" else asked, asked)

    def see(name, d):
        if isinstance(d, h5py.Dataset) and d.size:
            check(d.compression == want, lambda: f"compression {asked!r} was asked for, {name} is stored with {d.compression!r}")
    with must("reading the file with h5py"), h5py.File(path, "r") as f:
        f.visititems(see)


def read_site(path):
    with must("reading the file with h5py"), h5py.File(path, "r") as f:
        return {k: _get(f[k]) for k in f.keys()}


def read_array(path):
    with must("reading the file with h5py"), h5py.File(path, "r") as f:
        return _get(f)
