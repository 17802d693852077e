"""C29: the python package agrees with pyarrow and plain python on what it is given."""
import math, os, struct, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import vxpbt
from vxpbt import Fail

if sys.argv[1:2] != ["check"]:
    import vortex
    from vortex.dataset import VortexDataset
warnings.simplefilter("ignore")

INTS = [pa.int8(), pa.int16(), pa.int32(), pa.int64(), pa.uint8(), pa.uint16(), pa.uint32(), pa.uint64()]
FLOATS = [pa.float16(), pa.float32(), pa.float64()]
STRS = [pa.string(), pa.large_string(), pa.string_view()]
BINS = [pa.binary(), pa.large_binary(), pa.binary_view()]
TIMES = [pa.date32(), pa.date64(), pa.time32("s"), pa.time32("ms"), pa.time64("us"), pa.time64("ns")] + [
    pa.timestamp(u, tz) for u in ("s", "ms", "us", "ns") for tz in (None, "UTC", "Europe/Paris", "+02:30")]
T = pa.types


def is_str(t):
    return t in STRS


def is_bin(t):
    return t in BINS


def is_time(t):
    return T.is_temporal(t)


def storage(t):
    return pa.int32() if t.bit_width == 32 else pa.int64()


def gen_flat(g, times=True, null=True):
    k = g.weighted([5, 3, 2, 3, 2, 2 if times else 0, 1 if null else 0])
    if k == 0:
        return g.pick(INTS)
    if k == 1:
        return g.pick(FLOATS)
    if k == 2:
        return pa.bool_()
    if k == 3:
        return g.pick(STRS)
    if k == 4:
        return g.pick(BINS)
    if k == 5:
        return g.pick(TIMES)
    return pa.null()


NAMES = ["a", "b", "c", "d", "E f", "", "ü", "a.b"]


def gen_struct(g, depth=1, lo=1, times=True, null=True):
    k = g.range(lo, 4)
    names = []
    for i in range(k):
        names.append(NAMES[(i + (g.below(4) if g.chance(1, 4) else 0)) % len(NAMES)])
        if names.count(names[-1]) > 1:
            names[-1] = "n%d" % i
    fs = []
    for n in names:
        t = gen_struct(g, depth - 1) if depth > 0 and g.chance(1, 6) else gen_flat(g, times, null)
        fs.append(pa.field(n, t, nullable=T.is_null(t) or not g.chance(1, 3)))
    return pa.struct(fs)


def gen_len(g, big=False):
    k = g.weighted([6, 4, 2, 1])
    if k == 0:
        return g.range(0, 12)
    if k == 1:
        return g.range(0, 80)
    if k == 2:
        return g.pick([0, 1, 63, 64, 65, 127, 128, 129, 256])
    return g.range(0, 3000) if big else g.range(0, 300)


def f_round(x, t):
    if t == pa.float16():
        with np.errstate(all="ignore"):
            return float(np.float16(x))
    if t == pa.float32():
        with np.errstate(all="ignore"):
            return float(np.float32(x))
    return x


def gen_one(g, t, clean):
    if T.is_boolean(t):
        return g.bool()
    if T.is_integer(t):
        b = t.bit_width
        lo, hi = (0, (1 << b) - 1) if T.is_unsigned_integer(t) else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        k = g.weighted([5, 2, 1])
        if k == 0:
            return g.below(10) - (5 if lo < 0 else 0)
        if k == 1:
            return max(lo, min(hi, g.below(1 << 20) - (1 << 19 if lo < 0 else 0)))
        return g.pick([lo, hi, lo + 1, hi - 1, hi // 2])
    if T.is_floating(t):
        k = g.weighted([5, 2, 1])
        if k == 0:
            return f_round((g.below(200) - 100) / g.pick([1, 2, 10, 100]) + 0.0, t)
        if k == 1:
            return f_round((g.below(1 << 30) - (1 << 29)) / 1000.0 + 0.0, t)
        return f_round(g.pick([0.0, 1.5, math.inf, -math.inf, 1e300, 5e-324, 6e-8] + ([] if clean else [math.nan, -0.0])), t)
    if is_str(t):
        k = g.weighted([4, 3, 1])
        if k == 0:
            return g.pick(["", "a", "b", "ab", "ü", "z"])
        if k == 1:
            return "x" * g.below(5) + str(g.below(1000))
        return g.pick(["0123456789ab", "0123456789abc", "prefix-that-is-long-", "äöü€𝄞" * 3]) + str(g.below(5))
    if is_bin(t):
        k = g.below(3)
        if k == 0:
            return g.pick([b"", b"a", b"\x00", b"\xff\xfe", b"ab"])
        return bytes(g.below(256) for _ in range(g.pick([1, 3, 12, 13, 20])))
    if is_time(t):
        if T.is_time(t):
            n = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[t.unit] * 86400
            return g.pick([0, n - 1, g.below(n)])
        if t == pa.date32():
            return g.below(40000) - 20000
        if t == pa.date64():
            return (g.below(40000) - 20000) * 86400000
        k = g.weighted([3, 2, 1])
        m = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[t.unit]
        if k == 0:
            return g.below(1000) - 500
        if k == 1:
            return (g.below(3 * 10**9) - 10**9) * m + g.below(m)
        return (g.below(8 * 10**9) - 4 * 10**9) * m
    raise AssertionError(t)


def gen_vals(g, t, n, nulls=True, clean=False):
    """python values; structs are tuples of values; times are integers; None is null"""
    if T.is_null(t):
        return [None] * n
    mode = g.weighted([3, 3, 1]) if nulls else 0
    mask = [False] * n
    if mode == 1:
        p = g.pick([2, 3, 10])
        mask = [g.chance(1, p) for _ in range(n)]
    elif mode == 2:
        mask = [True] * n
    if T.is_struct(t):
        cols = [gen_vals(g, f.type, n, f.nullable, clean) for f in t]
        return [None if m else tuple(c[i] for c in cols) for i, m in enumerate(mask)]
    k = g.weighted([4, 2, 1, 1])
    if k == 0:
        vs = [gen_one(g, t, clean) for _ in range(n)]
    elif k == 1:
        d = [gen_one(g, t, clean) for _ in range(g.range(1, 5))]
        vs = [g.pick(d) for _ in range(n)]
    elif k == 2:
        v = gen_one(g, t, clean)
        vs = [v] * n
    else:
        vs, v = [], None
        for i in range(n):
            if i == 0 or g.chance(1, 5):
                v = gen_one(g, t, clean)
            vs.append(v)
    return [None if m else v for v, m in zip(vs, mask)]


def mk(t, vs):
    """arrow array of the values"""
    if T.is_struct(t):
        cols = []
        for i, f in enumerate(t):
            # under a null row a field without nulls has to hold something
            c = [None if v is None else v[i] for v in vs]
            if not f.nullable:
                z = next((x for x in c if x is not None), None)
                z = zero(f.type) if z is None else z
                c = [z if x is None else x for x in c]
            cols.append(mk(f.type, c))
        m = pa.array([v is None for v in vs], pa.bool_())
        if not cols:
            raise AssertionError
        return pa.StructArray.from_arrays(cols, fields=list(t), mask=m if any(v is None for v in vs) else None)
    if is_time(t):
        return pa.array(vs, storage(t)).view(t)
    if t == pa.float16():
        a = np.array([0.0 if v is None else v for v in vs], dtype=np.float16)
        return pa.array(a, type=t, mask=np.array([v is None for v in vs], dtype=bool))
    return pa.array(vs, t)


def zero(t):
    if T.is_boolean(t):
        return False
    if T.is_floating(t):
        return 0.0
    if is_str(t):
        return ""
    if is_bin(t):
        return b""
    if T.is_struct(t):
        return tuple(zero(f.type) if not f.nullable else None for f in t)
    return 0


def raw(a):
    """the values of an arrow array, inverse of mk"""
    if isinstance(a, pa.ChunkedArray):
        return [v for c in a.chunks for v in raw(c)]
    t = a.type
    if T.is_struct(t):
        ok = a.is_valid().to_pylist()
        cols = [raw(c) for c in a.flatten()]
        return [tuple(c[i] for c in cols) if ok[i] else None for i in range(len(a))]
    if is_time(t):
        return a.view(storage(t)).to_pylist()
    return a.to_pylist()


def canon(v):
    if isinstance(v, np.floating):
        v = float(v)
    if isinstance(v, float):
        return ("f", "nan" if v != v else struct.pack("<d", v))
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, bool):
        return ("b", v)
    return v


def same(got, want, what):
    if len(got) != len(want):
        raise Fail("%s: length | %d instead of %d" % (what, len(got), len(want)))
    for i, (x, y) in enumerate(zip(got, want)):
        if canon(x) != canon(y):
            raise Fail("%s: value | at %d of %d: %r instead of %r" % (what, i, len(want), x, y))


def arrow_type(t):
    """the arrow type that comes back"""
    if is_str(t):
        return pa.string_view()
    if is_bin(t):
        return pa.binary_view()
    if T.is_struct(t):
        return pa.struct([pa.field(f.name, arrow_type(f.type), f.nullable) for f in t])
    return t


def check_arrow(a, t, vs, what):
    if a.type != arrow_type(t):
        raise Fail("%s: type | %s instead of %s" % (what, a.type, arrow_type(t)))
    a.validate(full=True)
    same(raw(a), vs, what)


def split(g, n, k):
    """k cut points"""
    cuts = sorted(g.range(0, n) for _ in range(k - 1))
    return list(zip([0] + cuts, cuts + [n]))


def sliced_arrow(g, t, vs):
    """an arrow array of the values, possibly a slice of a longer one"""
    if g.chance(1, 3) and not T.is_null(t):
        a, b = g.below(4), g.below(4)
        pad = vs[:1] or [None if not has_nonnull(t) else zero(t)]
        if T.is_struct(t) and pad == [None]:
            pad = [zero(t)]
        return mk(t, pad * a + vs + pad * b).slice(a, len(vs))
    return mk(t, vs)


def has_nonnull(t):
    return T.is_struct(t)


def build(g, t, vs, ops=True):
    """a vortex array of the values, made in one of several ways"""
    k = g.weighted([4, 3, 2, 2, 2, 2]) if ops else g.weighted([4, 3, 2])
    n = len(vs)
    if k == 1:
        g.label("compressed")
        return vortex.encoding.compress(vortex.array(sliced_arrow(g, t, vs)))
    if k == 2:
        g.label("chunked")
        v = vortex.array(pa.chunked_array([sliced_arrow(g, t, vs[a:b]) for a, b in split(g, n, g.range(1, 4))], type=t))
        return vortex.encoding.compress(v) if g.chance(1, 3) else v
    if k == 3 and not T.is_null(t):
        g.label("slice")
        a, b = g.below(5), g.below(5)
        pad = vs[:1] or [zero(t)]
        v = vortex.array(mk(t, pad * a + vs + pad * b))
        if g.bool():
            v = vortex.encoding.compress(v)
        return v.slice(a, a + n)
    if k == 4 and n > 0:
        g.label("take")
        p = list(range(n))
        for i in range(n - 1, 0, -1):
            j = g.below(i + 1)
            p[i], p[j] = p[j], p[i]
        v = vortex.array(mk(t, [vs[i] for i in p]))
        if g.bool():
            v = vortex.encoding.compress(v)
        inv = [0] * n
        for i, x in enumerate(p):
            inv[x] = i
        return v.take(vortex.array(pa.array(inv, pa.uint32())))
    if k == 5 and not T.is_null(t):
        g.label("filter")
        pad = (vs[:1] or [zero(t)])[0]
        full, keep = [], []
        for v in vs:
            while g.chance(1, 3):
                full.append(pad)
                keep.append(False)
            full.append(v)
            keep.append(True)
        v = vortex.array(mk(t, full))
        if g.bool():
            v = vortex.encoding.compress(v)
        return v.filter(vortex.array(pa.array(keep, pa.bool_())))
    return vortex.array(sliced_arrow(g, t, vs))


def repr_of(t, nullable):
    n = str(bool(nullable))
    if T.is_null(t):
        return "null()"
    if T.is_boolean(t):
        return "bool(%s)" % n
    if T.is_signed_integer(t):
        return "int(%d, %s)" % (t.bit_width, n)
    if T.is_unsigned_integer(t):
        return "uint(%d, %s)" % (t.bit_width, n)
    if T.is_floating(t):
        return "float(%d, %s)" % (t.bit_width, n)
    if is_str(t):
        return "utf8(%s)" % n
    if is_bin(t):
        return "binary(%s)" % n
    if T.is_struct(t):
        return "struct({%s}, %s)" % (", ".join('"%s": %s' % (f.name, repr_of(f.type, f.nullable)) for f in t), n)
    return None


def has_time(t):
    return is_time(t) or (T.is_struct(t) and any(has_time(f.type) for f in t))


def gen_case(g, big=False):
    t = gen_struct(g) if g.chance(1, 4) else gen_flat(g)
    n = gen_len(g, big)
    vs = gen_vals(g, t, n)
    g.note(lambda: "%s %r" % (t, vs[:20]))
    g.label(str(t) if not T.is_struct(t) else "struct")
    if n > 1 and len(set(map(repr, vs))) > 1:
        g.nontrivial = True
    return t, vs


# ---------------------------------------------------------------------------------------------


def p_convert(g):
    t, vs = gen_case(g, True)
    arr = sliced_arrow(g, t, vs)
    way = g.weighted([3, 2, 2])
    nulls = any(v is None for v in vs)
    if way == 0:
        v = vortex.array(arr)
        want = repr_of(t, nulls)
        if not has_time(t) and repr(v.dtype) != want:
            raise Fail("dtype of array | %r instead of %s" % (v.dtype, want))
        if v.nbytes < 0 or not isinstance(v.encoding, str) or not v.tree_display().startswith("root"):
            raise Fail("description of array")
        out = v.to_arrow_array()
        if not isinstance(out, pa.Array):
            raise Fail("array did not come back as an array")
    elif way == 1:
        chunks = [sliced_arrow(g, t, vs[a:b]) for a, b in split(g, len(vs), g.range(1, 4))]
        if g.chance(1, 12):
            chunks, vs = [], []
            nulls = False
        v = vortex.array(pa.chunked_array(chunks, type=t))
        if not has_time(t) and repr(v.dtype) not in (repr_of(t, True), repr_of(t, nulls)):
            raise Fail("dtype of chunked array | %r with nulls %s" % (v.dtype, nulls))
        out = v.to_arrow_array()
    else:
        v = vortex.encoding.compress(vortex.array(arr))
        out = v.to_arrow_array()
    if len(v) != len(vs):
        raise Fail("length | %d instead of %d" % (len(v), len(vs)))
    check_arrow(out, t, vs, "to_arrow_array")
    if T.is_struct(t) and not nulls:
        tb = v.to_arrow_table()
        check_table(tb, t, vs, "to_arrow_table")
    if (T.is_integer(t) or T.is_floating(t) or T.is_boolean(t)) and vs:
        if isinstance(out, pa.ChunkedArray):
            got = v.to_numpy(zero_copy_only=False)
        else:
            got = v.to_numpy(zero_copy_only=False)
            if not nulls and not T.is_boolean(t):
                z = v.to_numpy()
                if z.dtype != got.dtype or z.tobytes() != got.tobytes():
                    raise Fail("zero copy numpy array differs")
        want = mk(t, vs).to_numpy(zero_copy_only=False)
        if got.dtype != want.dtype:
            raise Fail("to_numpy: type | %s instead of %s" % (got.dtype, want.dtype))
        same(list(got), list(want), "to_numpy")
    if t != pa.float16() and (T.is_integer(t) or T.is_floating(t) or T.is_boolean(t) or is_str(t) or is_bin(t)):
        same(v.to_polars_series().to_list(), vs, "to_polars_series")


def check_table(tb, t, vs, what):
    if not isinstance(tb, pa.Table):
        raise Fail("%s: not a table" % what)
    want = pa.schema([pa.field(f.name, arrow_type(f.type), f.nullable) for f in t])
    if tb.schema != want:
        raise Fail("%s: schema | %s instead of %s" % (what, tb.schema, want))
    tb.validate(full=True)
    if tb.num_rows != len(vs):
        raise Fail("%s: rows | %d instead of %d" % (what, tb.num_rows, len(vs)))
    for i, f in enumerate(t):
        same(raw(tb.column(i)), [v[i] for v in vs], "%s column %s" % (what, f.name if f.name else "''"))


def p_table(g):
    t = gen_struct(g)
    vs = gen_vals(g, t, gen_len(g, True), nulls=False)
    g.note(lambda: "%s %r" % (t, vs[:20]))
    if len(vs) > 1:
        g.nontrivial = True
    v, parts = gen_table(g, t, vs)
    check_table(v.to_arrow_table(), t, vs, "table")
    check_arrow(v.to_arrow_array(), t, vs, "to_arrow_array of table")
    simple = all(T.is_integer(f.type) or T.is_boolean(f.type) or is_str(f.type) or f.type == pa.float64() for f in t)
    if simple and vs:
        g.label("pandas, polars")
        df = v.to_pandas()
        if list(df.columns) != [f.name for f in t]:
            raise Fail("to_pandas: columns | %s" % list(df.columns))
        for i, f in enumerate(t):
            import pandas
            got = [None if x is pandas.NA else x for x in df[f.name].tolist()]
            same([py(x) for x in got], [r[i] for r in vs], "to_pandas")
        if any(not f.name for f in t):
            return  # polars names such columns itself
        pl = v.to_polars_dataframe()
        for i, f in enumerate(t):
            same(pl[f.name].to_list(), [r[i] for r in vs], "to_polars_dataframe")


def py(x):
    return x.item() if isinstance(x, np.generic) else x


def gen_table(g, t, vs, compress=True):
    """a vortex array from an arrow table of several batches"""
    n = len(vs)
    parts = split(g, n, g.range(1, 3))
    schema = pa.schema(list(t))
    if g.chance(1, 3):
        v = vortex.array(mk(t, vs))
        g.label("one array")
    else:
        tb = pa.Table.from_batches([pa.RecordBatch.from_arrays([mk(f.type, [r[i] for r in vs[a:b]]) for i, f in enumerate(t)], schema=schema)
                                    for a, b in parts], schema=schema)
        if g.chance(1, 4):
            a, b = g.below(3), g.below(3)
            if n:
                x = pa.Table.from_batches([pa.RecordBatch.from_arrays([mk(f.type, [vs[0][i]] * k) for i, f in enumerate(t)], schema=schema) for k in (a, b)], schema=schema)
                tb = pa.concat_tables([x.slice(0, a), tb, x.slice(a, b)]).slice(a, n)
        v = vortex.array(tb)
    if compress and g.bool():
        v = vortex.encoding.compress(v)
        g.label("compressed")
    return v, parts


OPS = ["<", "<=", "==", "!=", ">=", ">"]


def cmp(op, x, y):
    if x is None or y is None:
        return None
    return {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y, ">=": x >= y, ">": x > y}[op]


def apply_op(op, x, y):
    return x < y if op == "<" else x <= y if op == "<=" else x == y if op == "==" else x != y if op == "!=" else x >= y if op == ">=" else x > y


def p_compare(g):
    t = gen_flat(g, False, False)
    n = gen_len(g)
    xs, ys = gen_vals(g, t, n, clean=True), gen_vals(g, t, n, clean=True)
    if g.chance(1, 2):
        ys = [x if g.bool() else y for x, y in zip(xs, ys)]
    op = g.pick(OPS)
    g.note(lambda: "%s %s: %r / %r" % (t, op, xs[:20], ys[:20]))
    g.label(op)
    a, b = build(g, t, xs), build(g, t, ys)
    if n > 1 and len(set(map(str, xs))) > 1:
        g.nontrivial = True
    out = apply_op(op, a, b)
    want = [cmp(op, x.encode() if isinstance(x, str) else x, y.encode() if isinstance(y, str) else y) for x, y in zip(xs, ys)]
    if len(out) != n:
        raise Fail("comparison: length")
    if n == 0:
        return
    check_arrow(out.to_arrow_array(), pa.bool_(), want, "comparison %s" % op)


def gen_mask(g, n):
    k = g.below(4)
    if k == 0:
        return [g.bool() for _ in range(n)]
    if k == 1:
        return [g.chance(1, 10) for _ in range(n)]
    if k == 2:
        return [not g.chance(1, 10) for _ in range(n)]
    a, b = sorted((g.range(0, n), g.range(0, n)))
    return [a <= i < b for i in range(n)]


def p_rows(g):
    t, vs = gen_case(g)
    n = len(vs)
    v = build(g, t, vs)
    for _ in range(g.range(1, 3)):
        k = g.below(3)
        if k == 0:
            a, b = sorted((g.range(0, len(vs)), g.range(0, len(vs))))
            g.note(lambda: "slice %d %d" % (a, b))
            v, vs = v.slice(a, b), vs[a:b]
        elif k == 1:
            if not vs:
                continue
            it = g.pick(INTS)
            idx = [g.below(min(len(vs), 127)) if it.bit_width == 8 else g.below(len(vs)) for _ in range(gen_len(g))]
            g.note(lambda: "take %s %r" % (it, idx[:20]))
            v, vs = v.take(vortex.array(pa.array(idx, it))), [vs[i] for i in idx]
        else:
            m = gen_mask(g, len(vs))
            g.note(lambda: "filter %r" % m[:20])
            v, vs = v.filter(vortex.array(pa.array(m, pa.bool_()))), [x for x, k in zip(vs, m) if k]
    if len(v) != len(vs):
        raise Fail("rows: length | %d instead of %d" % (len(v), len(vs)))
    check_arrow(v.to_arrow_array(), t, vs, "rows")


def recursive(v, t):
    if v is None:
        return None
    if T.is_struct(t):
        return {f.name: recursive(x, f.type) for f, x in zip(t, v)}
    return v


def canon_py(v):
    if isinstance(v, dict):
        return {k: canon_py(x) for k, x in v.items()}
    return canon(v)


def p_scalar(g):
    t, vs = gen_case(g)
    v = build(g, t, vs)
    for _ in range(min(len(vs), 6)):
        i = g.below(len(vs))
        x = v.scalar_at(i)
        want = recursive(vs[i], t)
        if want is None:
            if x is not None:
                raise Fail("scalar_at: %r instead of None" % (x,))
            continue
        if isinstance(x, (vortex.scalar.Buffer, vortex.scalar.BufferString)):
            x = x.into_python()
        elif isinstance(x, vortex.scalar.VortexStruct):
            shallow = x.into_python()
            if list(shallow) != list(want):
                raise Fail("scalar_at: fields %s instead of %s" % (list(shallow), list(want)))
            x = x.into_python(recursive=True)
            for k, y in shallow.items():
                if hasattr(y, "into_python"):
                    y = y.into_python(recursive=True) if isinstance(y, vortex.scalar.VortexStruct) else y.into_python()
                if canon_py(y) != canon_py(want[k]):
                    raise Fail("scalar_at: field %s %r instead of %r" % (k, y, want[k]))
        if type(x) is not type(want) or canon_py(x) != canon_py(want):
            raise Fail("scalar_at: value | %r instead of %r (%s)" % (x, want, t))
    for bad, err in ((len(vs), ValueError), (len(vs) + g.below(1000), ValueError), (-1 - g.below(5), OverflowError)):
        try:
            v.scalar_at(bad)
        except err:
            continue
        except Exception as e:
            raise Fail("scalar_at out of bounds: %s %s" % (type(e).__name__, e))
        raise Fail("scalar_at out of bounds: no error for %d of %d" % (bad, len(vs)))
    a, b = g.range(0, len(vs)), len(vs) + 1 + g.below(3)
    for a, b, err in ((a, b, ValueError), (-1, 0, OverflowError)):
        try:
            v.slice(a, b)
        except err:
            continue
        raise Fail("slice out of bounds: no error")


def p_fill(g):
    t = g.pick(INTS + FLOATS + [pa.bool_()])
    vs = gen_vals(g, t, gen_len(g))
    g.note(lambda: "%s %r" % (t, vs[:20]))
    v = build(g, t, vs)
    if any(x is None for x in vs) and any(x is not None for x in vs):
        g.nontrivial = True
    last, want = zero(t), []
    for x in vs:
        last = last if x is None else x
        want.append(last)
    try:
        out = v.fill_forward()
    except ValueError as e:
        # not every encoding can be filled
        g.label("error: %s" % str(e)[:40])
        return
    if not vs:
        return
    check_arrow(out.to_arrow_array(), t, want, "fill_forward")


def p_list(g):
    """plain python lists"""
    k = g.below(6)
    n = gen_len(g)
    if k == 0:
        t, vs = pa.int64(), gen_vals(g, pa.int64(), n)
    elif k == 1:
        t, vs = pa.float64(), gen_vals(g, pa.float64(), n)
    elif k == 2:
        t, vs = pa.string(), gen_vals(g, pa.string(), n)
    elif k == 3:
        t, vs = pa.binary(), gen_vals(g, pa.binary(), n)
    elif k == 4:
        t, vs = pa.bool_(), gen_vals(g, pa.bool_(), n)
    else:
        t = pa.struct([pa.field("a", pa.int64()), pa.field("b", pa.string())])
        vs = gen_vals(g, t, n)
    if n > 1:
        g.nontrivial = True
    g.note(lambda: "%s %r" % (t, vs[:20]))
    ref = mk(t, vs)
    if all(v is None for v in vs):
        t = pa.null()
    if T.is_struct(t):
        for i, f in enumerate(t):
            if all(v is None or v[i] is None for v in vs):
                return
        v = vortex.array([None if x is None else {"a": x[0], "b": x[1]} for x in vs])
    else:
        v = vortex.array(list(vs))
    if len(v) != n:
        raise Fail("list: length")
    check_arrow(v.to_arrow_array(), t, vs, "list")
    for bad in (5, "a", {"a": 1}, (1, 2)):
        try:
            vortex.array(bad)
        except ValueError:
            continue
        raise Fail("list: %r was accepted" % (bad,))


# --- files -------------------------------------------------------------------------------------


def logic(op, x, y):
    """documented: null where either side is null"""
    if x is None or y is None:
        return None
    return x and y if op == "&" else x or y


def kleene(op, x, y):
    if op == "&":
        if x is False or y is False:
            return False
        return None if x is None or y is None else True
    if x is True or y is True:
        return True
    return None if x is None or y is None else False


def vdtype(t):
    d = vortex.dtype
    if T.is_boolean(t):
        return d.bool(False)
    if T.is_signed_integer(t):
        return d.int(t.bit_width, False)
    if T.is_unsigned_integer(t):
        return d.uint(t.bit_width, False)
    if T.is_floating(t):
        return d.float(t.bit_width, False)
    return d.utf8(False) if is_str(t) else d.binary(False)


def substrait_type(t):
    """what a schema that pyarrow passes on as plain Substrait types may have"""
    if T.is_struct(t):
        return all(substrait_type(f.type) for f in t)
    return T.is_boolean(t) or T.is_signed_integer(t) or t in (pa.float32(), pa.float64())


def plain_type(g, t):
    """the type, with simple ones instead of what Substrait has no plain type for"""
    if T.is_struct(t):
        return pa.struct([pa.field(f.name, plain_type(g, f.type), f.nullable) for f in t])
    if substrait_type(t):
        return t
    return g.pick([pa.bool_(), pa.float64(), pa.int8(), pa.int32(), pa.int64()])


def comparable(t):
    return T.is_integer(t) or T.is_floating(t) or T.is_boolean(t) or is_str(t) or is_bin(t)


def gen_pred(g, t, vs, arrow, depth=2):
    """(expression, function of a row, text); None when there is nothing to compare"""
    if depth > 0 and g.chance(2, 5):
        a, b, op = gen_pred(g, t, vs, arrow, depth - 1), gen_pred(g, t, vs, arrow, depth - 1), g.pick("&|")
        if a is None or b is None:
            return a or b
        e = a[0] & b[0] if op == "&" else a[0] | b[0]
        f = kleene if arrow else logic
        return e, (lambda r: f(op, a[1](r), b[1](r))), "(%s %s %s)" % (a[2], op, b[2])
    cols = [i for i, f in enumerate(t) if comparable(f.type)]
    if arrow:
        # what pyarrow can express as Substrait, and compare itself
        cols = [i for i in cols if T.is_boolean(t[i].type) or T.is_signed_integer(t[i].type) or t[i].type in (pa.float32(), pa.float64())]
        if not all(substrait_type(f.type) for f in t):
            return None
    if not cols:
        return None
    i = g.pick(cols)
    f = t[i]
    op = g.pick(OPS)
    same_t = [j for j in cols if t[j].type == f.type]
    c = pc.field(f.name) if arrow else vortex.expr.column(f.name)
    if g.chance(1, 5):
        j = g.pick(same_t)
        d = pc.field(t[j].name) if arrow else vortex.expr.column(t[j].name)
        return apply_op(op, c, d), (lambda r: cmp(op, key(r[i]), key(r[j]))), "%s %s %s" % (f.name, op, t[j].name)
    pool = [r[i] for r in vs if r[i] is not None]
    v = g.pick(pool) if pool and g.chance(2, 3) else gen_one(g, f.type, True)
    flip = g.chance(1, 4)
    if arrow:
        lt = pa.string() if is_str(f.type) else pa.binary() if is_bin(f.type) else f.type
        lit = pc.scalar(pa.scalar(v, lt))
        e = apply_op(op, lit, c) if flip else apply_op(op, c, lit)
    else:
        plain = f.type in (pa.int64(), pa.float64(), pa.bool_()) or is_str(f.type) or is_bin(f.type)
        lit = v if plain and g.bool() else vortex.expr.literal(vdtype(f.type), v)
        e = apply_op(op, lit, c) if flip else apply_op(op, c, lit)
    return e, (lambda r: cmp(op, key(v), key(r[i])) if flip else cmp(op, key(r[i]), key(v))), \
        ("%r %s %s" % (v, op, f.name) if flip else "%s %s %r" % (f.name, op, v))


def key(x):
    return x.encode() if isinstance(x, str) else x


def gen_file(g, plain=False):
    t = gen_struct(g)
    if plain:
        t = pa.struct([pa.field(f.name, plain_type(g, f.type), f.nullable) for f in t])
    vs = gen_vals(g, t, gen_len(g, True), nulls=False, clean=True)
    g.note(lambda: "%s %d rows %r" % (t, len(vs), vs[:12]))
    v, _ = gen_table(g, t, vs)
    path = "%s/py-%d.vortex" % (os.environ["VX_TMP"], os.getpid())
    vortex.io.write(v, path)
    if len(vs) > 1:
        g.nontrivial = True
    return t, vs, path


def gen_columns(g, t):
    p = list(range(len(t)))
    for i in range(len(p) - 1, 0, -1):
        j = g.below(i + 1)
        p[i], p[j] = p[j], p[i]
    return p[: g.range(1, len(p))]


def sub(t, vs, cols):
    if cols is None:
        return t, vs
    return pa.struct([t[i] for i in cols]), [tuple(r[i] for i in cols) for r in vs]


def p_io(g):
    t, vs, path = gen_file(g)
    cols = gen_columns(g, t) if g.bool() else None
    proj = None if cols is None else [t[i].name if g.bool() else i for i in cols]
    pred = gen_pred(g, t, vs, False) if g.chance(2, 3) else None
    g.note(lambda: "projection %s filter %s" % (proj, pred and pred[2]))
    want_t, want = sub(t, [r for r in vs if pred is None or pred[1](r) is True], cols)
    kw = {}
    if proj is not None:
        kw["projection"] = proj
    if pred is not None:
        kw["row_filter"] = pred[0]
        g.label("filter keeps %s" % ("none" if not want else "all" if len(want) == len(vs) else "some"))
    a = vortex.io.read(path, **kw)
    if len(a) != len(want):
        raise Fail("read: rows | %d instead of %d" % (len(a), len(want)))
    check_table(a.to_arrow_table(), want_t, want, "read")


def p_dataset(g):
    t, vs, path = gen_file(g, g.chance(1, 2))
    ds = VortexDataset(path)
    want_schema = pa.schema([pa.field(f.name, arrow_type(f.type), f.nullable) for f in t])
    if ds.schema != want_schema:
        raise Fail("dataset: schema | %s instead of %s" % (ds.schema, want_schema))
    cols = gen_columns(g, t) if g.bool() else None
    names = None if cols is None else [t[i].name for i in cols]
    pred = gen_pred(g, t, vs, True) if g.chance(3, 4) else None
    if pred is not None:
        g.label("filter")
        if any("|" in pred[2] and pred[1](r) is True and None in r for r in vs):
            # KF6: or is null where either side is
            g.excluded += 1
            pred = None
    bs = g.pick([None, 1, 7, 100, 1 << 16])
    rows = [r for r in vs if pred is None or pred[1](r) is True]
    want_t, want = sub(t, rows, cols)
    g.note(lambda: "columns %s filter %s batch_size %s" % (names, pred and pred[2], bs))
    flt = pred and pred[0]
    how = g.below(7)
    args = dict(columns=names, filter=flt, batch_size=bs)
    g.label(["to_table", "head", "take", "to_batches", "reader", "scanner", "engines"][how])
    if how == 0:
        check_table(ds.to_table(**args), want_t, want, "to_table")
    elif how == 1:
        k = g.pick([0, 1, len(rows), len(rows) + 1, g.range(0, len(rows) + 5)])
        check_table(ds.head(k, **args), want_t, want[:k], "head")
    elif how == 2:
        if not rows:
            return
        idx = [g.below(len(rows)) for _ in range(g.range(1, 20))]
        check_table(ds.take(pa.array(idx), **args), want_t, [want[i] for i in idx], "take")
    elif how == 3:
        got = list(ds.to_batches(**args))
        check_batches(got, want_t, want, bs, "to_batches")
    elif how == 4:
        r = ds.to_record_batch_reader(**args)
        sch = pa.schema([pa.field(f.name, arrow_type(f.type), f.nullable) for f in want_t])
        if r.schema != sch:
            raise Fail("reader: schema | %s instead of %s" % (r.schema, sch))
        check_batches(list(r), want_t, want, bs, "reader")
    elif how == 5:
        s = ds.scanner(**args)
        k = g.below(5)
        if k == 0:
            check_table(s.to_table(), want_t, want, "scanner.to_table")
        elif k == 1:
            check_batches(list(s.to_batches()), want_t, want, bs, "scanner.to_batches")
        elif k == 2:
            check_batches(list(s.to_reader()), want_t, want, bs, "scanner.to_reader")
        elif k == 3 and want:
            n = g.range(1, len(want) + 2)
            check_table(s.head(n), want_t, want[:n], "scanner.head")
        elif k == 4 and ds.schema != want_schema:
            raise Fail("scanner: schema")
    else:
        simple = all(T.is_integer(f.type) or T.is_boolean(f.type) or is_str(f.type) or f.type == pa.float64() for f in t)
        if simple and all(t[i].name for i in range(len(t))):
            import polars
            pl = polars.scan_pyarrow_dataset(ds).collect()
            for i, f in enumerate(t):
                same(pl[f.name].to_list(), [r[i] for r in vs], "polars")
            g.label("polars ok")


def check_batches(bs, t, vs, size, what):
    sch = pa.schema([pa.field(f.name, arrow_type(f.type), f.nullable) for f in t])
    for b in bs:
        if b.schema != sch:
            raise Fail("%s: schema | %s instead of %s" % (what, b.schema, sch))
    check_table(pa.Table.from_batches(bs, schema=sch), t, vs, what)


# --- types -------------------------------------------------------------------------------------


def p_dtype(g):
    t = gen_struct(g, 2) if g.chance(1, 3) else gen_flat(g)
    nullable = g.bool()
    g.note(lambda: "%s %s" % (t, nullable))
    g.nontrivial = True
    d = vortex.dtype.__class__ and vortex.array(pa.array([1])).dtype.__class__
    x = d.from_arrow(t, nullable)
    want = repr_of(t, nullable)
    if has_time(t):
        if "ext(" not in repr(x):
            raise Fail("from_arrow: %r of %s" % (x, t))
    elif repr(x) != want:
        raise Fail("from_arrow: %r instead of %s" % (x, want))
    cols = x.maybe_columns()
    if cols != ([f.name for f in t] if T.is_struct(t) else None):
        raise Fail("maybe_columns: %s" % cols)
    if not T.is_struct(t) and not has_time(t):
        y = eval(repr(x), {k: getattr(vortex.dtype, k) for k in ("null", "bool", "int", "uint", "float", "utf8", "binary")} | {"True": True, "False": False})
        if repr(y) != repr(x) or str(y) != str(x):
            raise Fail("%r is not what its text says" % x)
    for f, ok in ((vortex.dtype.int, (8, 16, 32, 64)), (vortex.dtype.uint, (8, 16, 32, 64)), (vortex.dtype.float, (16, 32, 64))):
        w = g.below(128)
        try:
            r = f(w, nullable)
        except ValueError:
            if w in ok:
                raise Fail("width %d was refused" % w)
            continue
        if w not in ok:
            raise Fail("width %d was accepted" % w)


def p_unsupported(g):
    """whatever cannot be expressed is an exception (never a panic)"""
    k = g.below(5)
    t = gen_struct(g)
    vs = gen_vals(g, t, g.range(1, 6), nulls=False, clean=True)
    v = vortex.array(mk(t, vs))
    path = "%s/py-%d.vortex" % (os.environ["VX_TMP"], os.getpid())
    vortex.io.write(v, path)
    g.nontrivial = True
    f = g.pick(list(t))
    g.note(lambda: "%d %s %s" % (k, t, f))
    try:
        if k == 0:
            lit = g.pick([None, 1, 1.5, "a", b"a", True, 1 << 70, [1], {}])
            g.note(lambda: "column %r literal %r" % (f.name, lit))
            e = apply_op(g.pick(OPS), vortex.expr.column(f.name), lit)
            vortex.io.read(path, row_filter=e)
        elif k == 1:
            u = gen_flat(g)
            d = vortex.array(pa.array([1])).dtype.__class__.from_arrow(g.pick([u, pa.list_(u), t]), True)
            lit = g.pick([None, 1, 1.5, "a", b"a", True, 1 << 70, [1], [None], {}, {"a": 1}])
            g.note(lambda: "literal %r %r" % (d, lit))
            e = vortex.expr.literal(d, lit)
            str(e)
        elif k == 2:
            n = g.pick(["nope", "", "a", 0, 17, -1, None])
            g.note(lambda: "projection %r" % (n,))
            vortex.io.read(path, projection=[n])
        elif k == 3:
            c = pc.field(f.name)
            e = g.pick([c.is_null(), c.is_valid(), ~(c == c), c.isin([1, 2]), c + 1 == 2, c.cast(pa.int8()) == 1, pc.scalar(True),
                        c, c == pc.scalar(None), (c == c) & ~(c == c), (~(c == c)) == (c == c), (c < c) | ~(c == c)])
            g.note(lambda: "filter %s" % e)
            got = VortexDataset(path).to_table(filter=e)
            g.label("accepted")
            # there is no expression for these: taking them for others would give wrong rows
            if any(w in str(e) for w in ("is_null", "is_valid", "is_in", "invert", "add")):
                raise Fail("filter %s was accepted" % e)
        else:
            a, b = build(g, gen_flat(g), []), vortex.array([1, 2, 3])
            w = g.below(4)
            if w == 0:
                b < a
            elif w == 1:
                b.take(a)
            elif w == 2:
                b.filter(a)
            else:
                b.slice(2, 1)
    except Exception as e:
        if isinstance(e, (Fail, AssertionError, SystemError, AttributeError, NameError)):
            raise
        g.label("%s" % type(e).__name__)


KF6 = """
import os, pyarrow as pa, pyarrow.compute as pc, vortex
from vortex.dataset import VortexDataset
path = os.environ["VX_TMP"] + "/kf6.vortex"
vortex.io.write(vortex.array(pa.table({"a": [1, 2, 3], "b": pa.array([None, None, 5], pa.int64())})), path)
f = (pc.field("a") == 1) | (pc.field("b") == 5)
print(VortexDataset(path).to_table(filter=f).num_rows)
"""


def kf6():
    import subprocess
    os.makedirs(os.environ["VX_TMP"], exist_ok=True)
    r = subprocess.run([sys.executable, "-c", KF6], capture_output=True, text=True, timeout=60)
    if r.stdout.strip() == "2":
        return None
    return "a filter with | of rows where one side is true and the other null keeps %s of 2 rows" % r.stdout.strip()


PROP = {
    "id": "C29",
    "rule": "more than one row (and different values, where values matter)",
    "assumptions": [
        "CPython 3.12 with pyarrow 17; lists, decimals, durations and intervals are not converted and not generated",
        "filters made of comparisons, & and |; comparisons without NaN and -0.0",
    ],
    "subs": [
        ("convert", p_convert, 3000, 66666),
        ("table", p_table, 1000, 20000),
        ("compare", p_compare, 2000, 41666),
        ("rows", p_rows, 2000, 41666),
        ("scalar", p_scalar, 1500, 33333),
        ("fill", p_fill, 1000, 16666),
        ("list", p_list, 1000, 16666),
        ("io", p_io, 1500, 33333),
        ("dataset", p_dataset, 1500, 33333),
        ("dtype", p_dtype, 1000, 16666),
        ("unsupported", p_unsupported, 1000, 16666),
    ],
    "known": [("KF6", kf6)],
}

if __name__ == "__main__":
    sys.exit(vxpbt.main([PROP]))
