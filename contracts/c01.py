"""C01: catalog selection keeps exactly the requested quasars."""
from vf.run import scenario

TRUSTED = ["healpy.ang2pix as an opaque function of (nside, RA, DEC); its "
           "arguments lonlat=True, nest=True are checked",
           "in-memory fitsio stand-in: read(columns) returns those columns"]

SURV = ("main", "sv1", "sv3")


def _ang2pix(cx):
    """Oracle for healpix numbers, same in both modes."""
    if cx.symbolic:
        f = cx.map3("ang2pix")

        def sym(nside, lon, lat, lonlat=False, nest=False, **kw):
            cx.check("ang2pix called with lonlat, nest",
                     lonlat is True and nest is True)
            return f(nside, lon, lat)
        cx.hook("healpy.ang2pix", sym=sym)
        return lambda ns, ra, dec: f.scalar(ns, ra, dec)
    import healpy
    return lambda ns, ra, dec: int(healpy.ang2pix(
        ns, float(ra), float(dec), lonlat=True, nest=True))


def _cat(cx, is_mock, is_tile, hpx, names, survey):
    cols = dict(
        TARGETID=dict(kind='i', lo=1, hi=None, pool=list(range(1, 60))),
        Z=dict(kind='f', gt=0, hi=8, pool=[0.5, 1.5, 2.0, 2.5, 3.0, 4.0]))
    ra, dec = ("TARGET_RA", "TARGET_DEC") if names == "target" else (
        "RA", "DEC")
    cols[ra] = dict(kind='f', lo=0, lt=360)
    cols[dec] = dict(kind='f', lo=-90, hi=90)
    if names == "both":
        cols["TARGET_RA"] = dict(kind='f', lo=0, lt=360)
        cols["TARGET_DEC"] = dict(kind='f', lo=-90, hi=90)
    if survey:
        cols["SURVEY"] = dict(kind='s', pool=SURV)
    return cols, ra, dec


def _run(cx, is_mock, is_tile):
    hpx = False if is_tile else cx.flag("has HPXPIXEL")
    # column spellings and extension names are handled independently by the
    # code, so they are varied together
    names, ln, ext = cx.choice("spellings", [
        ("plain", "LASTNIGHT", "QSO_CAT"),
        ("target", "COADD_LASTNIGHT", "ZCATALOG"),
        ("both", "LAST_NIGHT", "METADATA")])
    survey = True if not is_mock else cx.flag("has SURVEY")
    if is_mock:
        ln = None
    keep = cx.choice("keep", [None, ["sv1", "main"]] + (
        [] if is_tile else [["main"]]))
    a2p = _ang2pix(cx)
    C = cx.load("qsonic.catalog")
    n = cx.length("n", 1, conc=(1, 9))
    cols, ra, dec = _cat(cx, is_mock, is_tile, hpx, names, survey)
    if ln:
        cols[ln] = dict(kind='i', lo=20200101, hi=20240101)
    if hpx:
        cols["HPXPIXEL"] = dict(kind='i', lo=0, hi=49151, pool=[3, 4, 5])
    if is_tile:
        cols["TILEID"] = dict(kind='i', lo=0, pool=[70, 71, 72])
        cols["PETAL_LOC"] = dict(kind='i', lo=0, hi=9, pool=[0, 1])
        cols["TARGETID"]["pool"] = list(range(1, 12))
    cols["DUMMY"] = dict(kind='f')
    t = cx.table("cat", n, **cols)
    src = t.copy()
    fname = cx.tmp() + "/cat.fits"
    cx.put_file(fname, [("PRIMARY", None, {}), (ext, t, {})])
    zmin = cx.real("zmin", lo=0, hi=5, pool=[0., 1.5, 2.0, 2.5])
    zmax = cx.real("zmax", lo=0, hi=9, pool=[2.5, 3.0, 4.0, 8.0])
    out, ex = cx.call(C.read_quasar_catalog, fname, is_mock, is_tile,
                      keep, zmin, zmax)
    keys = ["TARGETID", "TILEID"] if is_tile else ["TARGETID"]

    def sel(r):
        c = cx.And(src["Z"][r] >= zmin, src["Z"][r] <= zmax)
        if survey and keep is not None:
            c = cx.And(c, cx.Or(*[cx.eq(src["SURVEY"][r], s)
                                  for s in keep]))
        return c

    def same(i, j):
        return cx.And(*[cx.eq(src[k][i], src[k][j]) for k in keys])
    if ex is not None:
        # rejected: duplicates or nothing selected, never otherwise
        cx.check("rejected only for duplicates or empty selection", cx.Or(
            cx.exists(n, lambda i: cx.exists_pair(i, n, same)),
            cx.Not(cx.exists(n, sel))))
        return
    m = cx.n(out)
    # no duplicates accepted
    cx.forall("duplicates rejected", (n, n), lambda i, j: cx.Implies(
        same(i, j), cx.eq(i, j)))
    cx.check("every selected quasar is returned (count)",
             cx.eq(m, cx.count(n, sel)))
    cx.check("not empty", m > 0)
    out_names = set(out.dtype.names)
    want = {"TARGETID", "Z", "RA", "DEC", "HPXPIXEL"}
    if survey:
        want.add("SURVEY")
    if ln:
        want.add("LASTNIGHT")
    if is_tile:
        want |= {"TILEID", "PETAL_LOC"}
    cx.check("column names", want <= out_names and "DUMMY" not in out_names)
    nside = 16 if is_mock else 64

    def row_ok(k):
        r = cx.source_row(out, k, src, keys)
        cs = [r >= 0, r < n, sel(r)]
        for c in ("TARGETID", "Z"):
            cs.append(cx.eq(out[c][k], src[c][r]))
        cs.append(cx.eq(out["RA"][k], src[ra][r]))
        cs.append(cx.eq(out["DEC"][k], src[dec][r]))
        if survey:
            cs.append(cx.eq(out["SURVEY"][k], src["SURVEY"][r]))
        if ln:
            cs.append(cx.eq(out["LASTNIGHT"][k], src[ln][r]))
        for c in (("TILEID", "PETAL_LOC") if is_tile else ()):
            cs.append(cx.eq(out[c][k], src[c][r]))
        cs.append(cx.eq(out["HPXPIXEL"][k], src["HPXPIXEL"][r] if hpx else
                        a2p(nside, src[ra][r], src[dec][r])))
        return cx.And(*cs)
    cx.forall("each row is a selected file row with its own values", m,
              row_ok)
    cx.forall("no file row returned twice", (m, m), lambda i, j: cx.Implies(
        cx.eq(cx.source_row(out, i, src, keys),
              cx.source_row(out, j, src, keys)), cx.eq(i, j)))
    if is_tile:
        order = ["TILEID", "PETAL_LOC", "TARGETID"]
    elif survey:
        order = ["HPXPIXEL", "SURVEY", "TARGETID"]
    else:
        order = ["HPXPIXEL", "TARGETID"]

    def lex(k):
        cx.hint(k, m)
        cx.hint(k + 1, m)
        r = True
        for c in reversed(order):
            x, y = out[c][k], out[c][k + 1]
            r = cx.Or(x < y, cx.And(cx.eq(x, y), r))
        return r
    cx.forall("sorted", m - 1, lex)


@scenario("C01", ["read_quasar_catalog", "_read",
                  "_validate_adjust_column_names", "_prime_catalog",
                  "_add_healpix"], quick_s=400)
def data_catalog(cx):
    _run(cx, False, False)


@scenario("C01", ["read_quasar_catalog", "_validate_adjust_column_names",
                  "_prime_catalog"], quick_s=400)
def mock_catalog(cx):
    _run(cx, True, False)


@scenario("C01", ["read_quasar_catalog", "_validate_adjust_column_names",
                  "_prime_catalog"], quick_s=400)
def tile_catalog(cx):
    _run(cx, False, True)


@scenario("C01", ["_check_required_columns", "_read"], conc_n=40)
def missing_column(cx):
    """A file lacking any required column (all spellings) is rejected."""
    is_mock = cx.flag("mock")
    is_tile = (not is_mock) and cx.flag("tile")
    req = ["TARGETID", "Z", "RA", "DEC"]
    if not is_mock:
        req += ["SURVEY", "LASTNIGHT"]
    if is_tile:
        req += ["TILEID", "PETAL_LOC"]
    miss = cx.choice("missing", req + [None])
    C = cx.load("qsonic.catalog")
    n = cx.length("n", 1, conc=(1, 5))
    cols = {}
    for c in req + ["HPXPIXEL"]:
        if c == miss:
            continue
        cols[c] = dict(kind='s', pool=SURV) if c == "SURVEY" else dict(
            kind='f', gt=0, hi=80) if c in ("Z", "RA", "DEC") else dict(
            kind='i', lo=1, pool=list(range(1, 500)))
    if not cx.symbolic and "TARGETID" in cols:
        import numpy as np
        cols["TARGETID"] = np.arange(int(n)) + 1
    t = cx.table("cat", n, **cols)
    fname = cx.tmp() + "/cat.fits"
    cx.put_file(fname, [("PRIMARY", None, {}), ("QSO_CAT", t, {})])
    out, ex = cx.call(C.read_quasar_catalog, fname, is_mock, is_tile, None,
                      0, 100)
    if miss is not None:
        cx.check_raises("missing column rejected", ex)
    elif cx.symbolic:
        cx.check("complete file accepted unless duplicates", cx.Or(
            ex is None, cx.exists(n, lambda i: cx.exists_pair(
                i, n, lambda i, j: cx.eq(t["TARGETID"][i],
                                         t["TARGETID"][j])))))
    else:
        cx.check("complete file accepted unless duplicates", ex is None)
