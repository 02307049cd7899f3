"""P18: arrays, sparse matrices, tensors and tables survive serialization in every layout."""
import asyncio
import itertools

import cloudpickle
import numpy as np
import pandas as pd

import xoscar as xo
from vlib.scen import run_world
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize

try:
    import scipy.sparse as sps
except ImportError:
    sps = None
try:
    import torch
except ImportError:
    torch = None

TECHNIQUE = "bounded-exhaustive enumeration of element types, shapes, memory layouts and flags, each value taken through the real serialiser and compared"
RULE = (
    "a case is one array, sparse matrix, tensor or table: the product of element type, shape, layout operation sequence and flags, taken through the "
    "serialiser with a pickled header and bytes, bytearray or memoryview buffers, alone and inside containers, and through a real actor call; "
    "distinct: distinct (kind, type, shape, layout)"
)
ASSUMPTIONS = [
    "element type equality includes byte order, field names, offsets and item size",
    "a layout that is neither C nor Fortran contiguous may arrive as C contiguous",
    "whether the restored array can be written to is left open",
    "GPU arrays and MLX arrays cannot exist in this sandbox; their serialisers are not covered",
]


def dtypes():
    out = list("?bBhHiIqQefdgFDG")
    out += ["S1", "S5", "U1", "U3", "V1", "V3", "M8[s]", "M8[ns]", "m8[D]", "M8[25us]", ">i4", ">f8", ">U2", ">M8[s]", ">c8", "S0", "U0", "V0", "O"]
    out = [np.dtype(d) for d in out]
    out += [
        np.dtype([("a", "i4"), ("b", "f8")]),
        np.dtype([("a", "i1"), ("b", "f8")], align=True),
        np.dtype([("a", ">i2"), ("b", "S3", (2,))]),
        np.dtype({"names": ["x", "y"], "formats": ["i2", "f4"], "offsets": [4, 0]}),
        np.dtype({"names": ["x"], "formats": ["i2"], "offsets": [3], "itemsize": 12}),
        np.dtype([("n", [("p", "i4"), ("q", "?")]), ("z", "u1")]),
        np.dtype([("", "i4"), ("", "i4")]),
        np.dtype([("ä", "i4"), ("a b", "i4")]),
        np.dtype([(("title", "nm"), "i4"), ("k", "u1")]),
        np.dtype([("o", "O"), ("i", "i4")]),
        np.dtype([("m", "M8[ms]"), ("c", "c16")]),
        np.dtype([]),
        np.dtype([("a", "i4"), ("b", "f8"), ("c", "u1")])[["c", "a"]],
        np.dtype([("a", "i4"), ("b", "f8"), ("c", "u1")])[["b"]],
        np.dtype("i4", metadata={"k": 1}),
    ]
    return out


def fill(dt, shape):
    n = int(np.prod(shape, dtype=int)) if shape else 1
    if dt == np.dtype(object):
        a = np.empty(n, dtype=dt)
        for i in range(n):
            a[i] = [i, "s%d" % i, None, (i,)][i % 4]
        return a.reshape(shape)
    if dt.hasobject:
        a = np.zeros(n, dtype=dt)
        for i in range(n):
            a[i] = ("o%d" % i, i)
        return a.reshape(shape)
    a = np.zeros(n, dtype=dt)
    if dt.kind in "SU" and dt.itemsize:
        a[:] = np.array([chr(97 + i % 26) * (1 + i % 3) for i in range(n)], dtype=str).astype(dt) if n else []
    elif dt.itemsize and n:
        raw = np.arange(1, n * dt.itemsize + 1, dtype="u8").astype("u1")
        if dt.kind == "b":
            raw &= 1
        if dt.kind in "fcMm":
            a = (np.arange(n) * 1.5 - 2).astype("i8" if dt.kind in "Mm" else "f8").astype(dt)
        elif dt.kind == "U":
            pass
        elif dt.fields or dt.subdtype or dt.kind == "V":
            a = zeros_with(raw, dt, n)
        else:
            a = raw.view(dt)
    return a.reshape(shape)


def zeros_with(raw, dt, n):
    a = np.zeros(n, dtype=dt)

    def put(x, d, k):
        if d.fields:
            for f in d.names:
                put(x[f], d.fields[f][0], k + 1)
                k += 3
        elif x.dtype.kind in "SU":
            x[...] = np.array("ab%d" % k).astype(x.dtype)
        elif x.dtype.kind == "V":
            x[...] = np.frombuffer(bytes(range(1, 1 + x.dtype.itemsize)), dtype=x.dtype)[0] if x.dtype.itemsize else x
        elif x.dtype.kind in "Mm":
            x[...] = np.arange(x.size).reshape(x.shape).astype("i8").astype(x.dtype)
        else:
            x[...] = (np.arange(x.size).reshape(x.shape) + k).astype(x.dtype)

    put(a, dt, 1)
    return a


SHAPES = [(), (1,), (3,), (0,), (2, 3), (1, 3), (3, 1), (0, 3), (3, 0), (1, 1), (2, 2, 2), (2, 1, 3), (0, 0), (2, 0, 3), (1, 1, 1, 2)]

LAYOUTS = {
    "C": lambda a: a,
    "F": lambda a: np.asfortranarray(a),
    "T": lambda a: a.T,
    "rev": lambda a: a[tuple(slice(None, None, -1) for _ in a.shape)] if a.ndim else a,
    "rev0": lambda a: a[::-1] if a.ndim else a,
    "step": lambda a: np.repeat(a, 2, axis=-1)[..., ::2] if a.ndim else a,
    "step0": lambda a: np.repeat(a, 3, axis=0)[1::3] if a.ndim else a,
    "sub": lambda a: np.concatenate([a, a, a], axis=0)[len(a) : 2 * len(a)] if a.ndim else a,
    "last": lambda a: np.concatenate([a, a], axis=-1)[..., : a.shape[-1]] if a.ndim else a,
    "bcast": lambda a: np.broadcast_to(a, (2,) + a.shape),
    "bcast-in": lambda a: np.broadcast_to(a[..., :1], a.shape[:-1] + (a.shape[-1] if a.shape[-1] == 0 else 4,)) if a.ndim else a,
    "newaxis": lambda a: a[..., None],
    "newaxis0": lambda a: a[None][:, ...],
    "swap": lambda a: a.swapaxes(0, -1) if a.ndim else a,
    "strided0": lambda a: np.lib.stride_tricks.as_strided(a, shape=a.shape, strides=tuple(0 for _ in a.shape)),
    "odd": lambda a: np.lib.stride_tricks.as_strided(a, shape=a.shape, strides=tuple(s if n > 1 else 12345 for s, n in zip(a.strides, a.shape))),
    "unaligned": lambda a: unaligned(a),
    "readonly": lambda a: readonly(a),
}


def unaligned(a):
    if a.dtype.hasobject or not a.nbytes or not a.flags.c_contiguous:
        return a
    raw = np.frombuffer(b"\0" + a.tobytes(), dtype="u1")[1:]
    return np.ndarray(a.shape, a.dtype, raw.data)


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def eq_arr(a, b):
    """both arrays element-wise identical, nan and nat included"""
    if a.dtype.hasobject:
        return a.tolist() == b.tolist()
    return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes() or (a.dtype.fields is not None and a.tolist() == b.tolist())


def norm_dt(d):
    """everything that is observable about an element type"""
    if d.subdtype:
        return ("sub", norm_dt(d.subdtype[0]), d.subdtype[1])
    if d.fields is not None:
        return ("rec", d.itemsize, d.type, tuple((n, d.fields[n][1], norm_dt(d.fields[n][0]), d.fields[n][2:]) for n in d.names))
    return (d.str, d.type is np.record, d.itemsize, np.datetime_data(d) if d.kind in "mM" else None)


def cmp_array(a, b):
    if type(a) is not type(b):
        return "type %s became %s" % (type(a).__name__, type(b).__name__)
    if a.shape != b.shape:
        return "shape %r became %r" % (a.shape, b.shape)
    if norm_dt(a.dtype) != norm_dt(b.dtype):
        return "element type %r became %r" % (a.dtype, b.dtype)
    if not eq_arr(a, b):
        return "values %r became %r" % (a.tolist(), b.tolist())
    if a.flags.c_contiguous and not b.flags.c_contiguous:
        return "C layout lost"
    if a.flags.f_contiguous and not b.flags.f_contiguous:
        return "Fortran layout lost"
    if isinstance(a, np.ma.MaskedArray):
        if not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
            return "mask %r became %r" % (a.mask, b.mask)
        if repr(a.fill_value) != repr(b.fill_value):
            return "fill value"
    return None


def trips(obj):
    h, bufs = serialize(obj)
    hp = cloudpickle.dumps(h)
    nb = [b.nbytes if hasattr(b, "nbytes") else len(b) for b in bufs]
    raw = [bytes(b) for b in bufs]
    assert [len(r) for r in raw] == nb, "announced buffer sizes %r, real %r" % (nb, [len(r) for r in raw])
    for kind in (bytes, bytearray, lambda b: memoryview(b)):
        yield deserialize(cloudpickle.loads(hp), [kind(r) for r in raw])


def array_case(case):
    di, shape, ops = case
    dt = dtypes()[di]
    a = fill(dt, shape)
    for o in ops:
        try:
            a = LAYOUTS[o](a)
        except ValueError:
            return {"outcome": None}
    before = repr(a)
    v = None
    for wrapd in (False, True):
        obj = {"k": [a, (a,)]} if wrapd else a
        for r in trips(obj):
            if wrapd:
                if r["k"][1][0] is not r["k"][0]:
                    v = v or "sharing lost"
                r = r["k"][0]
            v = v or cmp_array(a, r)
            if v is None and a.size and not a.dtype.hasobject and np.may_share_memory(a, r):
                v = "the restored array uses the memory of the original"
    if repr(a) != before:
        v = v or "the original changed"
    return {"outcome": (str(dt), shape, ops), "violation": v, "tag": "%s-%s-%s" % (dt.str if dt.names is None else di, shape, "+".join(ops))}


# --- subclasses and special arrays ------------------------------------------
class MyArr(np.ndarray):
    def __array_finalize__(self, o):
        self.info = getattr(o, "info", None)

    def __reduce__(self):
        f, a, s = super().__reduce__()
        return f, a, s + (self.info,)

    def __setstate__(self, s):
        self.info = s[-1]
        super().__setstate__(s[:-1])


class PlainSub(np.ndarray):
    pass


def special():
    import collections

    m = np.arange(6).reshape(2, 3).view(MyArr)
    m.info = {"a": 1}
    big = np.arange(200000, dtype="i4").reshape(200, 1000)
    out = {
        "matrix": np.matrix([[1, 2], [3, 4]]),
        "recarray": np.rec.array([(1, 2.0), (3, 4.0)], dtype=[("a", "i4"), ("b", "f8")]),
        "masked": np.ma.array([1, 2, 3], mask=[0, 1, 0]),
        "masked2": np.ma.array(np.arange(6.0).reshape(2, 3).T, mask=np.eye(3, 2), fill_value=7),
        "nomask": np.ma.array([1, 2, 3]),
        "masked-scalar": np.ma.array(3, mask=True),
        "chararray": np.char.array(["a", "bc"]),
        "myarr": m,
        "plain": np.arange(3).view(PlainSub),
        "plainF": np.asfortranarray(np.arange(6).reshape(2, 3)).view(PlainSub),
        "big": big,
        "bigF": big.T,
        "bigslice": big[::2, 1::3],
        "object-nested": np.array([np.arange(3), None, [1, {"a": np.float32(2)}]], dtype=object),
        "object2d": np.array([[1, "a"], [None, 2.5]], dtype=object)[:, ::-1],
        "nan": np.array([np.nan, np.inf, -0.0]),
        "nat": np.array(["NaT", "2020-01-01"], dtype="M8[D]"),
        "memoryview-of": np.frombuffer(bytearray(b"abcdefgh"), dtype="i4"),
        "zero-item": np.zeros(3, dtype="V0"),
        "dict": collections.OrderedDict(a=np.arange(3)),
    }
    return out


def special_case(name):
    a = special()[name]
    v = None
    for r in trips(a):
        if name == "dict":
            v = v or cmp_array(a["a"], r["a"])
            continue
        if name == "object-nested":
            v = v or (None if np.array_equal(a[0], r[0]) and r[1] is None and r[2] == a[2] and r.dtype == a.dtype else "%r" % r)
            continue
        v = v or cmp_array(a, r)
        if name == "myarr":
            v = v or (None if r.info == a.info else "attribute lost")
        if name == "recarray":
            v = v or (None if list(r.a) == [1, 3] else "field access lost")
    return {"outcome": name, "violation": v, "tag": name}


# --- sparse -----------------------------------------------------------------
def sparse_cases():
    for dt in ("?", "b", "B", "h", "i", "q", "Q", "f", "d", "g", "F", "D"):
        for fmt in ("csr", "csc", "coo", "bsr", "lil", "dok", "dia", "csr_array", "coo_array"):
            for shape in ((1, 1), (3, 2), (2, 3), (0, 3), (3, 0), (4, 4)):
                for state in ("plain", "empty"):
                    yield dt, fmt, shape, state
        for shape in ((3, 4), (1, 5), (5, 1)):
            for state in ("unsorted", "dups", "zeros", "tail", "i64", "sorted-flag", "canonical-flag", "readonly"):
                yield dt, "csr", shape, state


def sparse_case(case):
    dt, fmt, shape, state = case
    rng = np.arange(shape[0] * shape[1]).reshape(shape)
    dense = np.where(rng % 3 == 1, rng, 0).astype(dt)
    if state == "empty":
        dense = np.zeros(shape, dt)
    if fmt.endswith("_array"):
        m = getattr(sps, fmt)(dense)
    else:
        m = getattr(sps, fmt + "_matrix")(dense)
    if fmt == "csr":
        if state == "unsorted":
            n = shape[1]
            idx = np.tile(np.arange(n)[::-1].astype("i4"), shape[0])
            m = sps.csr_matrix((np.arange(1, len(idx) + 1).astype(dt), idx, np.arange(0, len(idx) + 1, n).astype("i4")), shape=shape)
        elif state == "dups":
            m = sps.csr_matrix((np.ones(2 * shape[0], dt), np.zeros(2 * shape[0], "i4"), np.arange(0, 2 * shape[0] + 1, 2).astype("i4")), shape=shape)
        elif state == "zeros":
            if m.nnz:
                m.data[0] = 0
        elif state == "tail":
            m.data = np.concatenate([m.data, m.data])
            m.indices = np.concatenate([m.indices, m.indices])
        elif state == "i64":
            m.indices = m.indices.astype("i8")
            m.indptr = m.indptr.astype("i8")
        elif state == "sorted-flag":
            m.has_sorted_indices
        elif state == "canonical-flag":
            m.has_canonical_format
        elif state == "readonly":
            m.data.flags.writeable = False
    want = m.toarray()
    v = None
    for wrapd in (False, True):
        for r in trips([m, m] if wrapd else m):
            if wrapd:
                if r[0] is not r[1]:
                    v = v or "sharing lost"
                r = r[0]
            if type(r) is not type(m):
                v = v or "type %s became %s" % (type(m).__name__, type(r).__name__)
            elif r.shape != m.shape or r.dtype != m.dtype:
                v = v or "%r %r became %r %r" % (m.shape, m.dtype, r.shape, r.dtype)
            elif not np.array_equal(r.toarray(), want):
                v = v or "%r became %r" % (want.tolist(), r.toarray().tolist())
            elif fmt == "csr":
                for k in ("data", "indices", "indptr"):
                    v = v or (lambda d: d and k + ": " + d)(cmp_array(getattr(m, k), getattr(r, k)))
                if v is None:
                    # what is derived from the (cached) format flags
                    if bool(r.has_sorted_indices) != bool(m.copy().has_sorted_indices):
                        v = "has_sorted_indices became %r" % r.has_sorted_indices
                    elif bool(r.has_canonical_format) != bool(m.copy().has_canonical_format):
                        v = "has_canonical_format became %r" % r.has_canonical_format
                    else:
                        c = r.copy()
                        c.sum_duplicates()
                        c2 = m.copy()
                        c2.sum_duplicates()
                        if not np.array_equal(c.indices, c2.indices) or not np.array_equal(c.data, c2.data):
                            v = "sum_duplicates differs"
                        elif dt != "?" and dt != "g" and not np.array_equal((r + r).toarray(), (m + m).toarray()):
                            v = "r + r = %r, m + m = %r" % ((r + r).toarray().tolist(), (m + m).toarray().tolist())
                        elif state != "tail" and not np.array_equal(r[:, ::-1].toarray(), m[:, ::-1].toarray()):
                            v = "slices differ"
    return {"outcome": case, "violation": v, "tag": "-".join(map(str, case))}


# --- tensors -----------------------------------------------------------------
T_DTYPES = [
    "uint8", "int8", "int16", "int32", "int64", "float16", "bfloat16", "float32", "float64", "complex64", "complex128", "complex32", "bool",
    "uint16", "uint32", "uint64", "float8_e4m3fn", "float8_e5m2",
]
T_LAYOUTS = ("C", "T", "step", "expand", "offset", "flip", "channels", "chan-slice", "neg", "conj", "unsq")
T_SHAPES = [(), (1,), (3,), (0,), (2, 3), (0, 3), (2, 0), (1, 3, 2, 2), (1, 1)]


def tensor_make(dn, shape, layout, grad):
    dt = getattr(torch, dn)
    n = int(np.prod(shape, dtype=int)) if shape else 1
    base = torch.arange(1, n + 1).reshape(shape)
    t = (base % 2).to(torch.bool) if dn == "bool" else base.to(torch.complex64).to(dt) * (1 + 2j) if dn in ("complex64", "complex128") else base.to(torch.float32).to(dt)
    if layout == "T":
        t = t.T if t.ndim == 2 else t.transpose(0, -1) if t.ndim else t
    elif layout == "step":
        t = torch.stack([t, t], dim=-1).reshape(t.shape[:-1] + (-1,))[..., ::2] if t.ndim and t.numel() else t
    elif layout == "expand":
        t = t.expand((2,) + tuple(t.shape))
    elif layout == "offset":
        t = torch.stack([t, t])[1]
    elif layout == "flip":
        t = t.flip(0) if t.ndim else t
    elif layout == "channels":
        if t.ndim != 4:
            return None
        t = t.contiguous(memory_format=torch.channels_last)
    elif layout == "chan-slice":
        if t.ndim != 4:
            return None
        t = t.contiguous(memory_format=torch.channels_last)[:, 1:]
    elif layout == "neg":
        if not dn.startswith("complex") or dn == "complex32":
            return None
        t = t.conj().imag
    elif layout == "conj":
        if not dn.startswith("complex") or dn == "complex32":
            return None
        t = t.conj()
    elif layout == "unsq":
        t = t.unsqueeze(-1)
    if grad == "grad":
        if not (t.is_floating_point() or t.is_complex()):
            return None
        t = t.detach().requires_grad_(True)
    elif grad == "param":
        if dn in ("complex32", "float8_e4m3fn", "float8_e5m2") or not (t.is_floating_point() or t.is_complex()):
            return None
        t = torch.nn.Parameter(t.detach())
    elif grad == "nonleaf":
        if dn not in ("float32", "float64", "float16", "bfloat16"):
            return None
        t = t.detach().requires_grad_(True) * 1
    return t


def tbytes(t):
    t = t.detach().resolve_conj().resolve_neg()
    if t.numel() == 0:
        return b""
    c = torch.empty(t.shape, dtype=t.dtype)
    c.copy_(t)
    return c.reshape(-1).view(torch.uint8).numpy().tobytes()


def cmp_tensor(t, r):
    if type(t) is not type(r):
        return "type %s became %s" % (type(t).__name__, type(r).__name__)
    if t.dtype != r.dtype or tuple(t.shape) != tuple(r.shape) or t.device != r.device:
        return "%s %s became %s %s" % (t.dtype, tuple(t.shape), r.dtype, tuple(r.shape))
    if tbytes(t) != tbytes(r):
        return "values %r became %r" % (tbytes(t)[:40], tbytes(r)[:40])
    if t.requires_grad != r.requires_grad:
        return "requires_grad %r became %r" % (t.requires_grad, r.requires_grad)
    if not t.is_sparse and t.layout == torch.strided and t.is_contiguous() and not r.is_contiguous():
        return "layout lost"
    return None


def tensor_case(case):
    dn, shape, layout, grad = case
    try:
        t = tensor_make(dn, shape, layout, grad)
    except (RuntimeError, NotImplementedError, TypeError):
        t = None
    if t is None:
        return {"outcome": None}
    before = tbytes(t)
    v = None
    for wrapd in (False, True):
        for r in trips([t, {"a": t}] if wrapd else t):
            if wrapd:
                if r[0] is not r[1]["a"]:
                    v = v or "sharing lost"
                r = r[0]
            v = v or cmp_tensor(t, r)
    if tbytes(t) != before:
        v = v or "the original changed"
    return {"outcome": case, "violation": v, "tag": "-".join(map(str, case))}


def tensor_special():
    t = torch.arange(6.0).reshape(2, 3)
    q = torch.quantize_per_tensor(t, 0.1, 10, torch.quint8)
    return {
        "sparse": t.to_sparse(),
        "csr": t.to_sparse_csr(),
        "quantized": q,
        "dict": {"w": t, "b": torch.zeros(3, dtype=torch.bfloat16)},
        "buffer": torch.nn.Linear(2, 3),
        "nested": [t, (t[0], t[1])],
        "inference": inference(),
        "meta": torch.empty(3, device="meta"),
    }


def inference():
    with torch.inference_mode():
        return torch.arange(4.0) + 1


def tensor_special_case(name):
    t = tensor_special()[name]
    v = None
    for r in trips(t):
        if name in ("sparse", "csr"):
            ok = r.layout == t.layout and torch.equal(r.to_dense(), t.to_dense())
        elif name == "quantized":
            ok = r.dtype == t.dtype and torch.equal(r.dequantize(), t.dequantize()) and r.q_scale() == t.q_scale()
        elif name == "dict":
            ok = list(r) == list(t) and all(cmp_tensor(t[k], r[k]) is None for k in t)
        elif name == "buffer":
            ok = all(cmp_tensor(a, b) is None for a, b in zip(t.parameters(), r.parameters()))
        elif name == "nested":
            ok = cmp_tensor(t[0], r[0]) is None and cmp_tensor(t[1][1], r[1][1]) is None
        elif name == "inference":
            ok = torch.equal(t, r)
        elif name == "meta":
            ok = r.device == t.device and r.shape == t.shape and r.dtype == t.dtype
        if not ok:
            v = "%r became %r" % (t, r)
    return {"outcome": name, "violation": v, "tag": name}


# --- tables ------------------------------------------------------------------
def series():
    n = 4
    cols = {
        "i8": np.arange(n, dtype="i1"), "u64": np.arange(n, dtype="u8"), "f4": np.arange(n, dtype="f4"), "nan": np.array([1, np.nan, 3, 4]), "bool": np.array([True, False] * 2),
        "obj": np.array(["a", None, [1], 2.5], dtype=object), "str": np.array(["a", "b", "", "ä"], dtype=object), "dt": pd.date_range("2020", periods=n),
        "tz": pd.date_range("2020", periods=n, tz="Europe/Berlin"), "td": pd.timedelta_range("1s", periods=n), "cat": pd.Categorical(["a", "b", "a", None]),
        "ocat": pd.Categorical([3, 1, 3, 2], categories=[3, 2, 1], ordered=True), "Int": pd.array([1, None, 3, 4], dtype="Int64"), "boolean": pd.array([True, None, False, True], dtype="boolean"),
        "string": pd.array(["a", None, "b", "c"], dtype="string"), "period": pd.period_range("2020", periods=n, freq="M"), "interval": pd.interval_range(0, n), "sparse": pd.arrays.SparseArray([0, 0, 1, 2]),
        "Float": pd.array([1.5, None, 3, 4], dtype="Float32"), "complex": np.arange(n) * 1j,
    }
    return cols


def indexes():
    return {
        "range": pd.RangeIndex(2, 10, 2), "int": pd.Index([3, 1, 3, 2], name="ix"), "str": pd.Index(list("abca")), "dt": pd.date_range("2020", periods=4, freq="D", name="t"), "multi": pd.MultiIndex.from_product([["a", "b"], [1, 2]], names=["x", None]),
        "cat": pd.CategoricalIndex(list("aabb")), "interval": pd.interval_range(0, 4), "tz": pd.date_range("2020", periods=4, tz="UTC"),
    }


def table_cases():
    cols = list(series())
    for c in cols:
        for i in indexes():
            yield "series", c, i
    for a in cols:
        for b in cols:
            yield "frame", a, b
    for i in indexes():
        yield "index", i, ""
        yield "columns", i, ""
    for s in ("empty", "nocols", "norows", "slice", "rev", "T", "dup", "attrs", "nested", "arrow", "arrow-cols"):
        yield "shape", s, ""


def table_case(case):
    kind, a, b = case
    cols, ix = series(), indexes()
    if kind == "series":
        obj = pd.Series(cols[a], index=ix[b], name=(a, b))
    elif kind == "frame":
        obj = pd.DataFrame({a: pd.Series(cols[a]), b + "_": pd.Series(cols[b]), "k": np.arange(4)})
    elif kind == "index":
        obj = ix[a]
    elif kind == "columns":
        obj = pd.DataFrame(np.arange(8).reshape(2, 4), columns=ix[a])
    else:
        df = pd.DataFrame({"a": np.arange(6), "b": list("abcdef"), "c": np.arange(6) * 0.5})
        obj = {
            "empty": pd.DataFrame(), "nocols": df[[]], "norows": df[:0], "slice": df[1:5:2], "rev": df.iloc[::-1, ::-1], "T": df[["a", "c"]].T,
            "dup": pd.concat([df, df], axis=1), "attrs": df, "nested": [df, {"x": df["a"]}], "arrow": None, "arrow-cols": df,
        }[a]
        if a == "attrs":
            obj.attrs["k"] = [1]
        if a.startswith("arrow"):
            import pyarrow as pa

            t = pa.table({"a": [1, 2, None], "b": ["x", None, "z"], "c": [[1], [], None]})
            obj = t if a == "arrow" else pd.DataFrame({"a": pd.arrays.ArrowExtensionArray(t["a"]), "b": pd.arrays.ArrowExtensionArray(t["b"])})
    v = None
    for r in trips(obj):
        try:
            if type(r) is not type(obj):
                v = "type"
            elif isinstance(obj, pd.Series):
                pd.testing.assert_series_equal(obj, r, check_freq=True)
            elif isinstance(obj, pd.DataFrame):
                pd.testing.assert_frame_equal(obj, r, check_freq=True)
                assert r.attrs == obj.attrs
            elif isinstance(obj, pd.Index):
                pd.testing.assert_index_equal(obj, r, exact=True)
            elif isinstance(obj, list):
                pd.testing.assert_frame_equal(obj[0], r[0])
                pd.testing.assert_series_equal(obj[1]["x"], r[1]["x"])
            else:
                assert obj.equals(r)
        except AssertionError as e:
            v = v or str(e)[:300]
    return {"outcome": case, "violation": v, "tag": "-".join(case)}


# --- through actors: independence of the sender's memory ------------------------
class Keep(xo.Actor):
    def __init__(self):
        super().__init__()
        self.kept = []

    def keep(self, x):
        self.kept.append(x)
        return len(self.kept)

    def give(self):
        self.out = OWN[0]()
        return self.out

    def scribble(self):
        wipe(self.out)

    def check(self):
        return [digest(x) for x in self.kept]


OWN = [None]


def digest(x):
    if isinstance(x, (list, tuple)):
        return [digest(i) for i in x]
    if torch is not None and isinstance(x, torch.Tensor):
        return tbytes(x)
    if sps is not None and sps.issparse(x):
        return x.toarray().tolist()
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.values.tolist()
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    return x.tolist()


def wipe(x):
    if isinstance(x, (list, tuple)):
        for i in x:
            wipe(i)
    elif torch is not None and isinstance(x, torch.Tensor):
        x.detach().zero_()
    elif sps is not None and sps.issparse(x):
        x.data[:] = 0
    elif isinstance(x, pd.DataFrame):
        x.iloc[:, :] = 0
    elif isinstance(x, bytearray):
        x[:] = bytes(len(x))
    else:
        x[...] = 0


def values():
    return {
        "array": lambda: np.arange(1, 50),
        "big": lambda: np.arange(1, 300000),
        "fortran": lambda: np.asfortranarray(np.arange(1.0, 13).reshape(3, 4)),
        "slice": lambda: np.arange(1, 50)[::2],
        "list": lambda: [np.arange(1, 5), bytearray(b"abc" * 1000)],
        "csr": lambda: sps.csr_matrix(np.eye(3)),
        "tensor": lambda: torch.arange(1.0, 5),
        "bf16": lambda: torch.arange(1.0, 5).to(torch.bfloat16),
        "frame": lambda: pd.DataFrame({"a": np.arange(1, 4), "b": np.arange(1, 4)}),
    }


def actor_case(case):
    """values received stay what they were when the sender changes its own afterwards"""
    name, dest, delay = case
    if (sps is None and name == "csr") or (torch is None and name in ("tensor", "bf16")):
        return {"outcome": None}
    make = values()[name]

    async def main(w):
        pool = await w.start_pool(n_process=1)
        main = pool.external_address
        idx = {"main": 0, "sub": 1}[dest]
        ref = await xo.create_actor(Keep, address=main, uid="k", allocate_strategy=xo.allocate_strategy.ProcessIndex(idx))
        x = make()
        want = digest(x)
        w.begin()
        t = asyncio.create_task(ref.keep(x))
        if delay:
            for _ in range(delay):
                await asyncio.sleep(0)
        await t
        wipe(x)
        assert digest(x) != want
        assert await ref.check() == [want], "the value received changed with the sender's"
        OWN[0] = make
        y = await ref.give()
        await ref.scribble()
        assert digest(y) == want, "the result changed with the callee's object"
        return name

    return run_world(main)


def run(ctx):
    n = len(dtypes())
    one = [(o,) for o in LAYOUTS]
    two = list(itertools.product(LAYOUTS, repeat=2))
    few = [i for i, d in enumerate(dtypes()) if d.str in ("<i4", "|u1", "|S5", ">f8", "|O") or d.names == ("a", "b")]
    fam = {
        "arrays": ([(d, s, o) for d in range(n) for s in SHAPES for o in one], array_case),
        "arrays-2": ([(d, s, o) for d in (range(n) if ctx.thorough else few) for s in SHAPES for o in two], array_case),
        "special": (list(special()), special_case),
        "tables": (list(table_cases()), table_case),
        "actors": ([(v, d, k) for v in values() for d in ("main", "sub") for k in (0, 1, 3)], actor_case),
    }
    if ctx.thorough:
        fam["arrays-3"] = ([(d, s, o) for d in few for s in SHAPES for o in itertools.product(LAYOUTS, repeat=3)], array_case)
    if sps is not None:
        fam["sparse"] = (list(sparse_cases()), sparse_case)
    if torch is not None:
        fam["tensors"] = (list(itertools.product([d for d in T_DTYPES if hasattr(torch, d)], T_SHAPES, T_LAYOUTS, ("", "grad", "param", "nonleaf"))), tensor_case)
        fam["tensors-special"] = (list(tensor_special()), tensor_special_case)
    ctx.enumerate(fam)
