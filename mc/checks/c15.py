"""C15: data loading selects exactly the requested observations or fails"""
import itertools

import numpy as np
import pandas as pd

from common import Fail, fclose, quiet, read
from checks.c01 import build

ID = "C15"
HOW = "every data frame of the grammar (kind of index, order of columns, additional columns, position of missing values) is loaded by the real loader with every selection; the outcome is compared with a list-based selection of rows and columns. Every rejected load follows an accepted one, whose data have to be still in place"
ASSUMPTIONS = ["indices are unique; selections refer to existing labels, or to any value if the index is sorted"]
TEXT = build(
    ["x", "r", "u"],
    ["x = 0.3*x(+1) - 0.5*r + u", "u = 0.6*u(-1) + e_u"],
    "r = 1.5*x",
    ["e_u"],
    [("s", ".5"), ("x_bar", "-0.4")],
    [("oz", "x"), ("oa", "2*r"), ("om", "u")],
    cov={"e_u": "s"},
)
TEXT3 = build(
    ["x", "r", "u", "w"],
    ["x = 0.3*x(+1) - 0.5*r + u + e_x", "u = 0.6*u(-1) + e_u", "w = 0.2*w(-1) + e_w"],
    "r = 1.5*x + w",
    ["e_u", "e_x", "e_w"],
    [("s", ".5"), ("x_bar", "-0.4")],
    [("oz", "x"), ("oa", "2*r"), ("om", "u")],
    cov={"e_u": "s", "e_x": "s", "e_w": "s"},
)
OBS = ["oz", "oa", "om"]
NR = {"quick": 5, "thorough": 7}
YEARS = lambda n: [1999 + i for i in range(n)]


def quarters(n):
    return [(1999 + (i + 2) // 4, (i + 2) % 4) for i in range(n)]  # from 1999Q3


def index(kind, n):
    """index, keys of the rows, and selections: (value, key as start, key as end)"""
    if kind == "range":
        k = list(range(n))
        return pd.RangeIndex(n), k, [(v, v, v) for v in (0, 1, n - 2, n - 1, n + 5)]
    if kind == "int":
        k = [10 * i + 3 for i in range(n)]
        return pd.Index(k), k, [(v, v, v) for v in (3, 13, 20, k[-1], 2, 1000)]
    if kind == "negative":
        k = [i - 2 for i in range(n)]
        return pd.Index(k), k, [(v, v, v) for v in (-2, -1, 0, 1)]
    if kind == "float":
        k = [1999 + 0.25 * i for i in range(n)]
        return pd.Index(k), k, [(v, v, v) for v in (1999.0, 1999.25, 1999.3, k[-1], 1999)]
    if kind == "years":
        k = YEARS(n)
        return pd.Index(k), k, [(v, v, v) for v in (1999, 2001, k[-1])]
    if kind == "strings":  # not sorted
        lab = ["d", "b", "e", "a", "c", "g", "f"][:n]
        return pd.Index(lab), list(range(n)), [(lab[i], i, i) for i in (0, 1, n - 2, n - 1)]
    if kind == "yearstrings":
        k = YEARS(n)
        return pd.Index([str(v) for v in k]), k, [(v, v, v) for v in (1999, 2001)] + [(str(v), v, v) for v in (2000, k[-1])]
    if kind in ("quarters", "quarterstart", "periods"):
        q = quarters(n)
        k = [4 * y + j for y, j in q]
        sel = []
        for i in (0, 1, 3, n - 1):
            y, j = q[i]
            sel.append(("%dQ%d" % (y, j + 1), k[i], k[i]))
        sel.append((2000, 4 * 2000, 4 * 2000 + 3))
        sel.append(("1999", 4 * 1999, 4 * 1999 + 3))
        p = pd.period_range("1999Q3", periods=n, freq="Q")
        if kind == "periods":
            sel.append((p[1], k[1], k[1]))
            return p, k, sel
        ix = pd.DatetimeIndex(list(p.to_timestamp(how="s"))) if kind == "quarterstart" else pd.DatetimeIndex([pd.Timestamp(x.end_time.date()) for x in p])
        sel.append((ix[2], k[2], k[2]))
        sel.append((str(ix[1].date()), k[1], k[1]))
        return ix, k, sel
    if kind == "days":
        ix = pd.date_range("2000-02-27", periods=n, freq="D")
        k = [d.toordinal() for d in ix]
        import datetime as dt

        o = lambda *a: dt.date(*a).toordinal()
        sel = [("2000-02", o(2000, 2, 1), o(2000, 2, 29)), ("2000-03", o(2000, 3, 1), o(2000, 3, 31)), (ix[1], k[1], k[1]), (ix[3].to_pydatetime(), k[3], k[3]), ("2000-02-29", k[2], k[2]), (2000, o(2000, 1, 1), o(2000, 12, 31))]
        return ix, k, sel


KINDS = ["range", "int", "negative", "float", "years", "strings", "yearstrings", "quarters", "quarterstart", "periods", "days"]
EXTRA = ["none", "front", "between", "text"]
BOUNDS = {
    t: "%d-row frames x %d kinds of index x all orders of 3 observables x %s additional columns x all pairs of 4-8 start/end values and none x missing values in any row of any column, of several or all observables, or none; every observable missing; %d wrong types; all histories of 2 (thorough: 3) loads (two data sets, with and without start, two rejected frames) with 5 scales of measurement errors"
    % (NR[t], len(KINDS), EXTRA, 7)
    for t in NR
}


def cases(tier):
    out = [dict(kind="types")]
    for k in KINDS:
        for x in EXTRA:
            out.append(dict(kind="frame", index=k, extra=x))
    for k in KINDS:
        out.append(dict(kind="nan", index=k))
    for k in KINDS:
        out.append(dict(kind="derived", index=k))
    return out


VAL = lambda c, i: {"oz": 1.0, "oa": 2.0, "om": 3.0}[c] + 10 * i


def make(ix, n, order, extra):
    d = {c: [VAL(c, i) for i in range(n)] for c in order}
    df = pd.DataFrame(d, index=ix, columns=list(order))
    if extra == "front":
        df.insert(0, "x", np.arange(n) * 1.0)
        df["zz"] = np.nan
    elif extra == "between":
        df.insert(2, "oz2", 7.0)
        df.insert(1, "r", [np.nan] + [1.0] * (n - 1))
    elif extra == "text":
        df.insert(1, "date", ["t%d" % i for i in range(n)])
    return df


def snapshot(df):
    return df.copy(deep=True), list(df.columns), list(df.index)


def unchanged(df, snap):
    d, c, i = snap
    return list(df.columns) == c and list(df.index) == i and d.equals(df)


def verify(m, d, rows, ix, what):
    for f, name in ((d, "returned"), (m.data, "stored")):
        if not isinstance(f, pd.DataFrame) or [str(c) for c in f.columns] != OBS:
            raise Fail("columns", "%s: %s data has columns %s, expected %s" % (what, name, list(getattr(f, "columns", [])), OBS))
        if len(f) != len(rows) or list(f.index) != [ix[i] for i in rows]:
            raise Fail("rows", "%s: %s data has rows %s, expected %s" % (what, name, list(f.index), [ix[i] for i in rows]))
        want = np.array([[VAL(c, i) for c in OBS] for i in rows], float).reshape(len(rows), 3)
        if not fclose(f.to_numpy(float), want, 0, 1e-12):
            raise Fail("values", "%s: %s data is %s, expected %s" % (what, name, f.to_numpy().tolist(), want.tolist()))


def selections(sel):
    opts = [None] + sel
    for s, e in itertools.product(opts, opts):
        yield s, e


def chosen(keys, s, e):
    return [i for i, k in enumerate(keys) if (s is None or k >= s[1]) and (e is None or k <= e[2])]


def load(m, df, s, e, no):
    kw = {}
    if s is not None or no % 2:
        kw["start"] = None if s is None else s[0]
    if e is not None or no % 3 == 0:
        kw["end"] = None if e is None else e[0]
    f = m.load_data if no % 2 else m.get_data
    return quiet(f, df, **kw)


MOD = []


def model(api):
    if not MOD:
        m = read(api, TEXT)
        quiet(m.set_par, "calib")
        MOD.append(m)
    return MOD[0]


def run_frame(case, api):
    m = model(api)
    n = NR[api.tier]
    ix, keys, sel = index(case["index"], n)
    no = 0
    for order in itertools.permutations(OBS):
        for s, e in selections(sel):
            if case["index"] == "strings" and s and e and s[1] > e[1]:
                continue
            df = make(ix, n, order, case["extra"])
            snap = snapshot(df)
            d = load(m, df, s, e, no)
            no += 1
            what = "%s index, start=%r, end=%r, columns %s" % (case["index"], s and s[0], e and e[0], list(df.columns))
            rows = chosen(keys, s, e)
            verify(m, d, rows, ix, what)
            if not unchanged(df, snap):
                raise Fail("argument", what + ": the given frame was altered")
            # what happens to the frame later must not matter
            for c in OBS:
                df.loc[:, c] = -1.0
            df.iloc[0, list(df.columns).index("oa")] = np.nan
            verify(m, m.data, rows, ix, what + " (frame changed afterwards)")
            api.states += 1
            api.transitions += 1
            api.outcome(case["index"], len(rows))
    api.traces += 1


MISSING = [("oz",), ("oa",), ("om",), ("x",), ("oz", "om"), ("oz", "oa", "om"), ("oa", "x"), ("oz", "oa", "om", "x")]


def run_nan(case, api):
    m = model(api)
    n = NR[api.tier]
    ix, keys, sel = index(case["index"], n)
    good = make(pd.RangeIndex(n), n, OBS, "none")
    no = 0
    for c in MISSING:
        for r in range(n):
            for s, e in selections(sel):
                if case["index"] == "strings" and s and e and s[1] > e[1]:
                    continue
                rows = chosen(keys, s, e)
                if not rows:
                    continue
                quiet(m.load_data, good)
                before = m.fdict["data"]
                df = make(ix, n, (OBS[1], OBS[2], OBS[0]), "front")
                for q in c:
                    df.iloc[r, list(df.columns).index(q)] = np.nan
                snap = snapshot(df)
                no += 1
                what = "%s index, start=%r, end=%r, %s missing in row %d" % (case["index"], s and s[0], e and e[0], c, r)
                try:
                    d = load(m, df, s, e, no)
                    ok = True
                except Exception:
                    ok = False
                if ok != (c == ("x",) or r not in rows):
                    raise Fail("missing", what + (": accepted" if ok else ": rejected"))
                if ok:
                    verify(m, d, rows, ix, what)
                else:
                    verify(m, m.data, range(n), good.index, what + ", previous data")
                    if m.fdict["data"] is not before and m.fdict["data"] != before:
                        raise Fail("previous", what + ": data to be saved were replaced")
                if not unchanged(df, snap):
                    raise Fail("argument", what + ": the given frame was altered")
                api.states += 1
                api.transitions += 2
    api.traces += 1


def run_types(case, api):
    m = model(api)
    n = NR[api.tier]
    good = make(pd.RangeIndex(n), n, OBS, "none")
    bad = [("array", good.to_numpy()), ("dict", {c: list(good[c]) for c in OBS}), ("series", good["oz"]), ("list", good.to_numpy().tolist()), ("none", None), ("path", "data.csv"), ("dict of series", {c: good[c] for c in OBS})]
    for o in OBS:
        bad.append(("frame without %s" % o, good.drop(columns=o)))
        bad.append(("frame with misspelled %s" % o, good.rename(columns={o: o.upper()})))
    bad.append(("empty frame", pd.DataFrame()))
    bad.append(("transposed frame", good.T))
    bad.append(("observables as index", pd.DataFrame(np.ones((3, 3)), index=OBS)))
    for name, b in bad:
        for kw in ({}, dict(start=1), dict(start=0, end=2)):
            quiet(m.load_data, good)
            before = m.fdict["data"]
            try:
                quiet(m.load_data, b, **kw)
            except Exception:
                verify(m, m.data, range(n), good.index, "after rejecting " + name)
                if m.fdict["data"] != before:
                    raise Fail("previous", "rejecting %s replaced the data to be saved" % name)
            else:
                raise Fail("accepted", "%s was accepted as data" % name)
            api.states += 1
            api.transitions += 2
    # loading replaces everything loaded before
    a = make(pd.RangeIndex(n), n, OBS, "none")
    quiet(m.load_data, a)
    d = quiet(m.load_data, a, start=2)
    verify(m, d, range(2, n), a.index, "second load")
    d = quiet(m.load_data, a, end=1)
    verify(m, d, range(2), a.index, "third load")
    d = quiet(m.load_data, a)
    verify(m, d, range(n), a.index, "fourth load")
    api.traces += 1


def irregular(ix, n, seed):
    """a frame whose columns have different and changing variances"""
    v = [[((7 * (i + seed) * (j + 2) ** 2) % 11) / (j + 1.0) - seed * j for j in range(3)] for i in range(n)]
    return pd.DataFrame(v, index=ix, columns=["oa", "om", "oz"]), [[r[["oa", "om", "oz"].index(o)] for o in OBS] for r in v]


def run_derived(case, api):
    """measurement errors and shock masks follow the data through all histories of loads"""
    n = NR[api.tier]
    ix, keys, sel = index(case["index"], n)
    ops = []
    for seed in (1, 2):
        df, vals = irregular(ix, n, seed)
        ops += [("data %d from %r" % (seed, s and s[0]), df, vals, s) for s in (None, sel[1])]
    broken = irregular(ix, n, 3)[0].drop(columns="om")
    hole = irregular(ix, n, 3)[0]
    hole.iloc[n - 1, 1] = np.nan
    ops += [("frame without om", broken, None, None), ("frame with a missing value", hole, None, None)]
    m = read(api, TEXT3)
    quiet(m.set_par, "calib")
    names = ["e_u", "e_x", "e_w"]
    for hist in itertools.product(range(len(ops)), repeat=3 if api.tier == "thorough" else 2):
        if ops[hist[0]][2] is None:
            continue
        cur = None
        for o in hist:
            name, df, vals, s = ops[o]
            try:
                quiet(m.load_data, df, start=None if s is None else s[0])
                ok = True
            except Exception:
                ok = False
            if ok != (vals is not None):
                raise Fail("accepted", "%s index: %s %s" % (case["index"], name, "accepted" if ok else "rejected"))
            if vals is not None:
                rows = chosen(keys, s, None)
                cur = [vals[i] for i in rows], [ix[i] for i in rows]
            what = "%s index, after %s" % (case["index"], [ops[h][0] for h in hist])
            api.transitions += 1
            for sc in (None, 0.1, 0.35, 1.0, 2):
                R = quiet(m.create_obs_cov) if sc is None else quiet(m.create_obs_cov, sc)
                sc = 0.1 if sc is None else sc
                want = np.zeros((3, 3))
                for j in range(3):
                    col = [r[j] for r in cur[0]]
                    mean = sum(col) / len(col)
                    want[j, j] = sum((x - mean) ** 2 for x in col) / len(col) * sc * sc
                if not fclose(np.asarray(R, float), want, 1e-9, 1e-12):
                    raise Fail("obs_cov", "%s: measurement errors at scale %s are %s, expected %s" % (what, sc, np.asarray(R).tolist(), want.tolist()))
            k = m.mask
            if list(k.columns) != names or list(k.index) != cur[1][:-1] or not k.isna().to_numpy().all():
                raise Fail("mask", "%s: mask %s with index %s, expected all missing for %s over %s" % (what, list(k.columns), list(k.index), names, cur[1][:-1]))
            if not fclose(m.data.to_numpy(float), np.array(cur[0]), 0, 1e-12) or [str(c) for c in m.data.columns] != OBS or list(m.data.index) != cur[1]:
                raise Fail("values", "%s: the data were altered by reading measurement errors or mask" % what)
            api.states += 1
    api.traces += 1


def run(case, api):
    {"types": run_types, "frame": run_frame, "nan": run_nan, "derived": run_derived}[case["kind"]](case, api)
