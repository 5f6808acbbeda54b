"""Independent tables of the Borealis file formats (v0.2-v0.7): which fields each file type and structure has, and their types.

Written from the format documentation; the repository's own tables are never consulted.
"""
import numpy as np

FT = ("rawacf", "bfiq", "antennas_iq", "rawrf")
RESTRUCT = ("rawacf", "bfiq", "antennas_iq")
VERSIONS = ("v0.2", "v0.3", "v0.4", "v0.5", "v0.6", "v0.7")

A, B, C, D = "antennas_iq", "bfiq", "rawacf", "rawrf"
u32, i64, f32, f64, c64, u8 = np.uint32, np.int64, np.float32, np.float64, np.complex64, np.uint8

# name: (kind, type, file types); kind: a = attribute (one element per record), d = dataset (array)
V04 = {
    "antenna_arrays_order": ("d", np.str_, (A, B)),
    "beam_azms": ("d", f64, (A, B, C)),
    "beam_nums": ("d", u32, (A, B, C)),
    "blanked_samples": ("d", u32, (B, C)),
    "borealis_git_hash": ("a", str, (A, B, C, D)),
    "correlation_descriptors": ("d", np.str_, (C,)),
    "correlation_dimensions": ("d", u32, (C,)),
    "data": ("d", c64, (A, B, D)),
    "data_descriptors": ("d", np.str_, (A, B, D)),
    "data_dimensions": ("d", u32, (A, B, D)),
    "data_normalization_factor": ("a", f64, (A, B, C)),
    "experiment_comment": ("a", str, (A, B, C, D)),
    "experiment_id": ("a", i64, (A, B, C, D)),
    "experiment_name": ("a", str, (A, B, C, D)),
    "first_range": ("a", f32, (B, C)),
    "first_range_rtt": ("a", f32, (B, C)),
    "freq": ("a", u32, (A, B, C)),
    "int_time": ("a", f32, (A, B, C, D)),
    "intf_acfs": ("d", c64, (C,)),
    "intf_antenna_count": ("a", u32, (A, B, C, D)),
    "lags": ("d", u32, (B, C)),
    "main_acfs": ("d", c64, (C,)),
    "main_antenna_count": ("a", u32, (A, B, C, D)),
    "noise_at_freq": ("d", f64, (A, B, C)),
    "num_beams": ("a", u32, (A, B, C)),            # array structure only
    "num_ranges": ("a", u32, (B,)),
    "num_samps": ("a", u32, (A, B, D)),
    "num_sequences": ("a", i64, (A, B, C, D)),
    "num_slices": ("a", i64, (A, B, C, D)),
    "pulse_phase_offset": ("d", f32, (A, B)),
    "pulses": ("d", u32, (A, B, C)),
    "range_sep": ("a", f32, (B, C)),
    "rx_center_freq": ("a", f64, (D,)),
    "rx_sample_rate": ("a", f64, (A, B, C, D)),
    "samples_data_type": ("a", str, (A, B, C, D)),
    "scan_start_marker": ("a", u8, (A, B, C, D)),
    "slice_comment": ("a", str, (A, B, C)),
    "sqn_timestamps": ("d", f64, (A, B, C, D)),
    "station": ("a", str, (A, B, C, D)),
    "tau_spacing": ("a", u32, (A, B, C)),
    "tx_pulse_len": ("a", u32, (A, B, C)),
    "xcfs": ("d", c64, (C,)),
}
V05 = dict(V04)
V05.update({
    "averaging_method": ("a", str, (C,)),
    "num_blanked_samples": ("a", u32, (A, B, C)),  # array structure only
    "scheduling_mode": ("a", str, (A, B, C, D)),
    "slice_id": ("a", u32, (A, B, C)),
    "slice_interfacing": ("a", str, (A, B, C)),
    "blanked_samples": ("d", u32, (A, B, C, D)),
})
V06 = dict(V05)
V06.update({
    "agc_status_word": ("a", u32, (A, B, C, D)),
    "lp_status_word": ("a", u32, (A, B, C, D)),
    "gps_locked": ("a", u8, (A, B, C, D)),
    "gps_to_system_time_diff": ("a", f64, (A, B, C, D)),
    "experiment_id": ("a", np.int16, (A, B, C, D)),
})
V07 = dict(V06)
for _k in ("correlation_descriptors", "correlation_dimensions"):
    del V07[_k]
V07.update({
    "data_descriptors": ("d", np.bytes_, (A, B, C, D)),
    "data_dimensions": ("d", u32, (A, B, C, D)),
    "antenna_arrays_order": ("d", np.bytes_, (A, B)),
    "first_range": ("a", f32, (A, B, C)),
    "first_range_rtt": ("a", f32, (A, B, C)),
    "lags": ("d", u32, (A, B, C)),
    "num_ranges": ("a", u32, (A, B)),
    "range_sep": ("a", f32, (A, B, C)),
    "tx_antenna_phases": ("d", c64, (A, B, C, D)),
    "gps_locked": ("a", np.bool_, (A, B, C, D)),
    "scan_start_marker": ("a", np.bool_, (A, B, C, D)),
})

ARRAY_ONLY = {"num_beams", "num_blanked_samples"}
SITE_ONLY = {"correlation_dimensions", "data_dimensions"}
DESCRIPTORS = {"correlation_descriptors", "data_descriptors"}


def level(version):
    """4, 5, 6 or 7: the field layout used by a version string such as v0.5 or v0.6.1-3-gabc."""
    n = int(version.split("-")[0].split(".")[1])
    return max(n, 4)


def table(version):
    return {4: V04, 5: V05, 6: V06, 7: V07}[level(version)]


def unshared(version, ft):
    """Fields that vary from record to record (stored per record in the array structure)."""
    lv = level(version)
    u = {"num_sequences", "int_time", "sqn_timestamps", "noise_at_freq", "scan_start_marker", "beam_nums", "beam_azms", "num_slices"}
    u |= {"main_acfs", "intf_acfs", "xcfs"} if ft == C else {"data"}
    if lv >= 5:
        u |= {"blanked_samples", "slice_interfacing"}
    if lv >= 6:
        u |= {"agc_status_word", "lp_status_word", "gps_locked", "gps_to_system_time_diff"}
        if ft != C:
            u |= {"pulse_phase_offset"}
    if lv >= 7:
        u |= {"tx_antenna_phases"}
    return u


def site_fields(version, ft):
    """name -> ("a"|"d", type) of a record of a site file."""
    return {k: v[:2] for k, v in table(version).items() if ft in v[2] and k not in ARRAY_ONLY}


def array_fields(version, ft):
    """name -> ("a"|"d", type) of an array file."""
    u = unshared(version, ft)
    out = {}
    for k, v in table(version).items():
        if ft in v[2] and k not in SITE_ONLY:
            out[k] = ("d" if k in u or k in ARRAY_ONLY else v[0], v[1])
    return out


def shared(version, ft):
    return set(site_fields(version, ft)) - unshared(version, ft) - SITE_ONLY - DESCRIPTORS


def dims_field(version, ft):
    return "correlation_dimensions" if ft == C and level(version) < 7 else "data_dimensions"


def desc_field(version, ft):
    return "correlation_descriptors" if ft == C and level(version) < 7 else "data_descriptors"


def descriptors(version, ft, structure):
    d = {(C, "site"): ["num_beams", "num_ranges", "num_lags"],
         (C, "array"): ["num_records", "max_num_beams", "num_ranges", "num_lags"],
         (B, "site"): ["num_antenna_arrays", "num_sequences", "num_beams", "num_samps"],
         (B, "array"): ["num_records", "num_antenna_arrays", "max_num_sequences", "max_num_beams", "num_samps"],
         (A, "site"): ["num_antennas", "num_sequences", "num_samps"],
         (A, "array"): ["num_records", "num_antennas", "max_num_sequences", "num_samps"],
         (D, "site"): ["num_sequences", "num_antennas", "num_samps"]}[ft, structure]
    return np.array(d, dtype=np.bytes_ if level(version) >= 7 else np.str_)


def flattened(version, ft):
    """Is the bulk data stored flat in a site record?"""
    return not (ft == C and level(version) >= 7)


BULK = {C: ("main_acfs", "intf_acfs", "xcfs"), A: ("data",), B: ("data",), D: ("data",)}

STID = {
    "tst": 0,
    "gbr": 1, "sch": 2, "kap": 3, "hal": 4, "sas": 5, "pgr": 6, "kod": 7, "sto": 8, "pyk": 9, "han": 10, "san": 11, "sys": 12, "sye": 13,
    "tig": 14, "ker": 15, "ksr": 16, "unw": 18, "zho": 19, "mcm": 20, "fir": 21, "sps": 22, "bpk": 24, "wal": 32, "bks": 33, "hok": 40,
    "hkw": 41, "inv": 64, "rkn": 65, "cly": 66, "dce": 96, "svb": 128, "fhw": 204, "fhe": 205, "cvw": 206, "cve": 207, "adw": 208,
    "ade": 209, "ekb": 512,
}
