"""Reference model of the conversion of Borealis records to SuperDARN records, and the comparison with what the converter gives."""
import calendar
import math
import time
import numpy as np
from lib import bspec as S, refdmap as R, sdformats as F

BULK = {"rawacf": ("acfd", "xcfd", "pwr0", "slist"), "iqdat": ("data", "toff", "tsze", "tsc", "tus")}
TARGET = {"rawacf": "rawacf", "bfiq": "iqdat"}
DAYS, MONTHS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"], ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


class Near:
    """A floating point value computed in single precision."""
    def __init__(self, value, rel):
        self.value, self.rel = np.asarray(value, np.float64), rel

    def problem(self, got):
        got = np.asarray(got)
        if got.shape != self.value.shape:
            return f"shape {got.shape}, want {self.value.shape}"
        got64 = got.astype(np.float64)
        bad = ~((np.abs(got64 - self.value) <= self.rel * np.abs(self.value) + 1e-30) | (np.isnan(got64) & np.isnan(self.value)))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
            return f"{int(bad.sum())} of {got.size} wrong, first at {i}: {got[i]!r}, want {self.value[i]!r}"


class Trunc:
    """An integer obtained by truncating a real number known up to eps (relative), saturated at int16 if wanted."""
    def __init__(self, real, eps=1e-6, saturate=False):
        self.real = np.asarray(real, np.float64)
        a, b = np.trunc(self.real * (1 - eps)), np.trunc(self.real * (1 + eps))
        self.lo, self.hi = np.minimum(a, b), np.maximum(a, b)
        if saturate:
            self.lo, self.hi = np.clip(self.lo, -32768, 32767), np.clip(self.hi, -32768, 32767)

    def problem(self, got):
        got = np.asarray(got)
        if got.shape != self.real.shape:
            return f"shape {got.shape}, want {self.real.shape}"
        g = got.astype(np.float64)
        bad = ~((g >= self.lo) & (g <= self.hi))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
            return f"{int(bad.sum())} of {got.size} wrong, first at {i}: {got[i]!r}, want {self.real[i]!r} truncated"


class Within:
    def __init__(self, value, tol):
        self.value, self.tol = float(value), tol

    def problem(self, got):
        if not abs(float(got) - self.value) <= self.tol:
            return f"{got!r}, want {self.value!r} +- {self.tol}"


class Exact:
    def __init__(self, value):
        self.value = value

    def problem(self, got):
        if isinstance(self.value, np.ndarray):
            got = np.asarray(got)
            if got.shape != self.value.shape or not np.array_equal(got, self.value, equal_nan=self.value.dtype.kind == "f"):
                return f"{got!r}, want {self.value!r}"
        elif got != self.value and not (got != got and self.value != self.value):
            return f"{got!r}, want {self.value!r}"


def wrap16(x):
    x = int(x) & 0xffff
    return x - 0x10000 if x & 0x8000 else x


def beams(name, rec, version, ft, filename, sf, slice_id):
    """The expected SuperDARN records of one Borealis record."""
    to = TARGET[ft]
    us = [int(round(float(t) * 1e6)) for t in rec["sqn_timestamps"]]
    sec, frac = divmod(us[0], 1000000)
    tm = time.gmtime(sec)
    dims = [int(x) for x in rec[S.dims_field(version, ft)]]
    n = float(rec["data_normalization_factor"])
    nseq = int(rec["num_sequences"])
    major, minor = version.split("-")[0][1:].split(".")[:2]
    phases = rec.get("tx_antenna_phases")
    txpow = -1 if phases is None or ft == S.B else wrap16(sum(1 << i for i, z in enumerate(phases) if z != 0))
    noise = rec["noise_at_freq"]
    out = []
    for b, beam in enumerate(rec["beam_nums"]):
        e = {
            "radar.revision.major": Exact(int(major)), "radar.revision.minor": Exact(int(minor)), "origin.code": Exact(100),
            "origin.time": Exact("%s %s %2d %02d:%02d:%02d %d" % (DAYS[tm.tm_wday], MONTHS[tm.tm_mon - 1], tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_year)),
            "origin.command": Exact("Borealis %s %s" % (rec["borealis_git_hash"], rec["experiment_name"])),
            "cp": Exact(int(rec["experiment_id"])), "stid": Exact(S.STID[rec["station"]]),
            "time.yr": Exact(tm.tm_year), "time.mo": Exact(tm.tm_mon), "time.dy": Exact(tm.tm_mday), "time.hr": Exact(tm.tm_hour), "time.mt": Exact(tm.tm_min),
            "time.sc": Exact(tm.tm_sec), "time.us": Exact(frac), "txpow": Exact(txpow), "nave": Exact(nseq), "atten": Exact(0),
            "lagfr": Exact(int(rec["first_range_rtt"])), "smsep": Trunc(1e6 / float(rec["rx_sample_rate"]), 1e-9), "ercod": Exact(0),
            "stat.agc": Exact(wrap16(rec.get("agc_status_word", 0))), "stat.lopwr": Exact(wrap16(rec.get("lp_status_word", 0))),
            "noise.search": Exact(float(np.float32(noise[0]))), "noise.mean": Exact(0.0), "channel": Exact(int(slice_id)), "bmnum": Exact(int(beam)),
            "bmazm": Exact(float(np.float32(rec["beam_azms"][b]))), "scan": Exact(int(rec["scan_start_marker"])), "offset": Exact(0), "rxrise": Exact(0),
            "intt.sc": Exact(math.floor(float(rec["int_time"]))), "intt.us": Within((float(rec["int_time"]) % 1.0) * 1e6, 1.0001),
            "txpl": Exact(int(rec["tx_pulse_len"])), "mpinc": Exact(int(rec["tau_spacing"])), "mppul": Exact(len(rec["pulses"])),
            "mplgs": Exact(len(rec["lags"]) - 1), "frang": Within(rec["first_range"], 0.5), "rsep": Within(rec["range_sep"], 0.5), "tfreq": Exact(int(rec["freq"])),
            "mxpwr": Exact(-1), "lvmax": Exact(20000), to + ".revision.major" if to == "rawacf" else "iqdata.revision.major": Exact(1),
            to + ".revision.minor" if to == "rawacf" else "iqdata.revision.minor": Exact(0),
            "combf": Exact("Converted from Borealis file: %s record %s with scaling factor = %s ; Number of beams in record: %d ; %s ; %s" % (
                filename, name, sf, len(rec["beam_nums"]), rec["experiment_comment"], rec["slice_comment"])),
            "ptab": Exact(rec["pulses"].astype(np.int64)), "ltab": Exact(rec["lags"].astype(np.int64)),
        }
        if to == "rawacf":
            scale = 32767.0 ** 2 * sf / n ** 2
            cube = {k: np.asarray(rec[k]).reshape(dims)[b].astype(np.complex128) * scale for k in ("main_acfs", "xcfs")}
            pair = lambda z: np.stack([z.real, z.imag], axis=-1)  # noqa: E731
            e.update({"nrang": Exact(dims[1]), "xcf": Exact(1), "thr": Exact(0.0), "slist": Exact(np.arange(dims[1])),
                      "pwr0": Near(np.abs(cube["main_acfs"][:, 0]), 1e-5),
                      "acfd": Near(pair(cube["main_acfs"][:, :-1]), 1e-5), "xcfd": Near(pair(cube["xcfs"][:, :-1]), 1e-5)})
        else:
            nant, _, _, nsamp = dims
            names = [x.decode() if isinstance(x, bytes) else str(x) for x in rec["antenna_arrays_order"]]
            data = np.asarray(rec["data"]).reshape(dims)[:, :, b, :].astype(np.complex128) * (32767.0 * sf / n)
            real = np.empty((nseq, nant, nsamp, 2))
            for q in range(nseq):
                for a in range(nant):
                    real[q, a, :, 0], real[q, a, :, 1] = data[a, q].real, data[a, q].imag
            block = 2 * nant * nsamp
            e.update({"nrang": Exact(int(rec["num_ranges"])), "xcf": Exact(int("intf" in names)), "seqnum": Exact(nseq), "chnnum": Exact(nant), "smpnum": Exact(nsamp),
                      "skpnum": Trunc(float(rec["first_range"]) / float(rec["range_sep"])), "tsc": Exact(np.array([t // 1000000 for t in us])),
                      "tus": Exact(np.array([t % 1000000 for t in us])), "tatten": Exact(np.zeros(nseq)), "tnoise": Exact(noise.astype(np.float32)),
                      "toff": Exact(np.arange(nseq) * block), "tsze": Exact(np.full(nseq, block)), "data": Trunc(real.reshape(-1), saturate=True)})
        if set(e) - {"xcfd"} != {k for k in F.FORMATS[to]["types"]} - {"xcfd"} and set(e) - set(F.fields(to)):
            raise RuntimeError(f"model has fields the format has not: {set(e) - set(F.fields(to))}")
        out.append(e)
    return out


def expected(p, recs, filename, sf, slice_id):
    out = []
    for name, rec in recs.items():
        sid = rec["slice_id"] if "slice_id" in rec else slice_id
        out += [(name, b, e) for b, e in enumerate(beams(name, rec, p["version"], p["ft"], filename, sf, sid))]
    return out


def check_fields(got, want, names, what):
    """got: list of {field: value}; want: expected(); first problem or None. names None: all fields except the bulk data."""
    if len(got) != len(want):
        return f"{what}: {len(got)} records, want {len(want)}"
    for g, (rec, b, e) in zip(got, want):
        for k in names:
            if k not in g:
                return f"{what}: record {rec} beam {b}: no field {k}"
            m = e[k].problem(g[k])
            if m:
                return f"{what}: record {rec} beam {b}: {k}: {m}"
    return None


def decode_file(path):
    """The file as plain records, decoded independently."""
    return [{f[1]: f[3] for f in r} for r in R.decode(open(path, "rb").read(), strict_id=True)]
