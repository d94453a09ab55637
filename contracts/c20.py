"""C20: coadding delta files preserves the information of each target."""
from types import SimpleNamespace
from vf.run import scenario
from contracts.common import *

TRUSTED = ["glob.glob, multiprocessing.Pool (replaced by a serial map), "
           "healpy.ang2pix and the FITS reader/writer"]
ASSUME = ["input pixels lie on a common grid of step 0.8 A",
          "an input pixel has positive weight exactly when it has positive "
          "ivar (C08)"]
W1, DW = 3600., 0.8


class Hdu(Stand):
    """One table of a delta file."""

    def __init__(self, cols, header):
        self.cols, self.header = cols, header

    def read_header(self):
        return self.header

    def get_colnames(self):
        return list(self.cols)

    def read(self):
        return self.cols


def mkdelta(cx, S, p, tid=5, lo=-4, hi=8, reso=None, blind=False,
            log=False, key="TARGETID", off=None):
    np = cx.np()
    n = cx.length(f"n{p}", 1, conc=(1, 7))
    if off is None:
        off = cx.int(f"off{p}", lo, hi, conc=(lo, hi))
    wave = cx.affine_grid(W1, DW, n, off)
    delta = cx.array(f"d{p}", n)
    weight = cx.array(f"w{p}", n, lo=0, pool=[0., 0., .25, 1., 2.])
    ivar = weight + cx.array(f"iv{p}", n, lo=0, pool=[0., .5, 1., 4.])
    ivar = np.where(weight > 0, ivar, 0.)
    cols = {"LAMBDA": wave, ("DELTA_BLIND" if blind else "DELTA"): delta,
            "IVAR": ivar, "WEIGHT": weight,
            "CONT": cx.array(f"c{p}", n, pool=[.5, 1., 3.])}
    r = None
    if reso is not None:
        r = cx.array(f"r{p}", (n, reso), pool=[0., .25, .5, 1.])
        cols["RESOMAT"] = r
    hdr = {key: tid, "MEANSNR": 1., "RA": 0.3, "DEC": 0.2}
    d = S.Delta(Hdu(cols, hdr))
    return SimpleNamespace(
        obj=d, n=n, off=off, delta=delta, weight=weight, ivar=ivar,
        cont=cols["CONT"], reso=r, ndia=reso, hdr=hdr, wave=wave)


@scenario("C20", ["Delta.__init__"], quick_s=60)
def read(cx):
    """A table is read as it is, with masked pixels set to zero delta."""
    S = cx.load("qsonic.spectrum")
    blind = cx.flag("blind")
    key = cx.choice("key", ["TARGETID", "MOCKID", "THING_ID"])
    d = mkdelta(cx, S, "a", blind=blind, key=key,
                reso=3 if cx.flag("reso") else None)
    o = d.obj
    cx.check("identifier", o.targetid == 5 and o.mean_snr == 1.)
    cx.forall("pixels", d.n, lambda k: cx.And(
        cx.eq(o.wave[k], d.wave[k]), cx.eq(o.ivar[k], d.ivar[k]),
        cx.eq(o.weight[k], d.weight[k]), cx.eq(o.cont[k], d.cont[k]),
        cx.eq(o.delta[k], cx.ite(cx.eq(d.ivar[k], 0), 0., d.delta[k]))))
    if d.reso is not None:
        for j in range(3):
            cx.forall("resolution", d.n, lambda k, j=j: cx.eq(
                o.reso[j, k], d.reso[k, j]))
    else:
        cx.check("no resolution", o.reso is None)
    bad = cx.choice("missing", ["LAMBDA", "DELTA", "ID"])
    hdr = {"MEANSNR": 1., "RA": 0.3, "DEC": 0.2}
    if bad != "ID":
        hdr[key] = 5
    cols = {"LAMBDA": d.wave, "DELTA": d.delta, "IVAR": d.ivar,
            "WEIGHT": d.weight, "CONT": d.cont}
    cols.pop(bad, None)
    r, ex = cx.call(S.Delta, Hdu(cols, hdr))
    cx.check("incomplete tables are refused", isinstance(ex, RuntimeError))


@scenario("C20", ["Delta.coadd"], quick_s=200,
          note="any lengths, offsets and masking of the two inputs")
def pair(cx):
    """Weighted averages with propagated variance; a pixel masked in one
    input is the other input's pixel."""
    S = cx.load("qsonic.spectrum")
    order = cx.flag("order")
    a = mkdelta(cx, S, "a", off=0)
    b = mkdelta(cx, S, "b", lo=0)
    hdr = (a if order else b).hdr
    x, y = (a.obj, b.obj) if order else (b.obj, a.obj)
    end = cx.ite(a.n > b.off + b.n, a.n, b.off + b.n)
    for c in (cx.eq(end, 1), cx.eq(b.off, 0), a.n > b.off + b.n):
        cx.is_true(c)       # the proof is by cases

    def at(k, d, off):
        i = k - off
        if not cx.is_true(cx.And(i >= 0, i < d.n)):
            return None
        if cx.is_true(cx.eq(d.weight[i], 0)):
            return None
        v = 1 / d.ivar[i]
        cx.check("lemma", d.weight[i] * v <= 1)
        return d.weight[i], d.delta[i], d.cont[i], d.ivar[i], v
    pixels = [(k, at(k, a, 0), at(k, b, b.off)) for k in (
        [cx.anyidx(end)] if cx.symbolic else range(int(end)))]
    cx.step_hint(DW)
    x.coadd(y)
    cx.check("grid covers both", cx.And(
        *[cx.eq(v.shape[0], end) for v in (
            x.wave, x.delta, x.ivar, x.weight, x.cont)]))
    cx.forall("wavelength", end, lambda k: cx.eq(x.wave[k], W1 + k * DW))

    def pixel(k, pa, pb):
        got = (x.weight[k], x.delta[k], x.cont[k], x.ivar[k])
        if pa is None and pb is None:
            cx.check("masked in both", cx.And(
                cx.eq(got[0], 0.), cx.eq(got[1], 0.), cx.eq(got[3], 0.)))
            return
        if pa is None or pb is None:
            for nm, g, v in zip(("weight", "delta", "cont", "ivar"), got,
                                pa or pb):
                cx.check("masked in one: " + nm, cx.eq(g, v))
            return
        (wa, da, ca, ia, va), (wb, db, cb, ib, vb) = (
            (pa, pb) if order else (pb, pa))
        s = wa + wb
        cx.check("weighted delta", cx.eq(got[1] * s, wa * da + wb * db))
        cx.check("weighted cont", cx.eq(got[2] * s, wa * ca + wb * cb))
        cx.check("propagated ivar", cx.eq(
            got[3], s * s / (wa * wa * va + wb * wb * vb)))
        lss = ((1 - wa * va) + (1 - wb * vb)) / s
        cx.check("lemma", cx.And(lss >= 0, got[3] > 0))
        cx.check("lemma", got[3] * lss >= 0)
        cx.check("propagated weight", cx.eq(
            got[0] * (1 + got[3] * lss), got[3]))
    for q in pixels:
        pixel(*q)
    cx.check("header follows", hdr["MEANSNR"] is x.mean_snr
             or cx.eq(hdr["MEANSNR"], x.mean_snr))
    cx.check("same target", x.targetid == 5)


@scenario("C20", ["Delta.coadd", "Delta._coadd_reso"], quick_s=300,
          bound="any lengths, offsets, masking; 1 to 5 diagonals")
def resolution(cx):
    """Weighted average of the resolution; finite everywhere; none if one of
    the inputs has none. Blinded if one of the inputs is."""
    S = cx.load("qsonic.spectrum")
    order = cx.flag("order")
    nd = cx.choice("ndia", [(1, 3), (3, None), (None, 3)] + (
        [] if cx.symbolic and not cx.thorough else
        [(3, 3), (3, 5), (5, 3)]))
    bl = cx.choice("blind", [(False, False), (True, False), (False, True)])
    a = mkdelta(cx, S, "a", off=0, reso=nd[0], blind=bl[0])
    b = mkdelta(cx, S, "b", lo=0, reso=nd[1], blind=bl[1])
    x, y = (a.obj, b.obj) if order else (b.obj, a.obj)
    end = cx.ite(a.n > b.off + b.n, a.n, b.off + b.n)
    if cx.symbolic and None not in nd and any(bl):
        return
    for c in (cx.eq(end, 1), cx.eq(b.off, 0), a.n > b.off + b.n):
        cx.is_true(c)       # the proof is by cases

    def at(k, d, off):
        i = k - off
        if not cx.is_true(cx.And(i >= 0, i < d.n)):
            return None
        z = cx.is_true(cx.eq(d.weight[i], 0))
        return i, None if z else d.weight[i]
    if None not in nd:
        pixels = [(k, at(k, a, 0), at(k, b, b.off)) for k in (
            [cx.anyidx(end)] if cx.symbolic else range(int(end)))]
    cx.step_hint(DW)
    x.coadd(y)
    out = cx.tmp() + "/o"
    if not cx.symbolic:
        import os
        os.makedirs(out, exist_ok=True)
    C = cx.load("qsonic.scripts.qsonic_coadd_deltas")
    C.write_one_hpx(7, [x], out)
    t = cx.read_hdus(out + "/delta-7.fits")
    cx.check("one table", len(t) == 1 and str(t[0][0]) == "5")
    names = list(t[0][1])
    cx.check("blinded", ("DELTA_BLIND" in names, "DELTA" in names) == (
        any(bl), not any(bl)))
    if None in nd:
        cx.check("no resolution", x.reso is None and
                 "RESOMAT" not in names)
        return
    m = max(nd)
    cx.check("shape", cx.And(x.reso.shape[0] == m,
                             cx.eq(x.reso.shape[1], end)))

    def row(d, i, j):
        q = j - (m - d.ndia) // 2
        return d.reso[i, q] if 0 <= q < d.ndia else 0.
    for k, pa, pb in pixels:
        for j in range(m):
            g = x.reso[j, k]
            if pa is None and pb is None:
                cx.check("gap", cx.eq(g, 0.))
            elif pa is None or pb is None:
                d, i = (a, pa[0]) if pb is None else (b, pb[0])
                cx.check("one input", cx.eq(g, row(d, i, j)))
            elif pa[1] is not None and pb[1] is not None:
                cx.check("weighted", cx.eq(
                    g * (pa[1] + pb[1]), pa[1] * row(a, pa[0], j)
                    + pb[1] * row(b, pb[0], j)))
            elif pa[1] is None and pb[1] is None:
                cx.check("masked in both", cx.eq(2 * g, row(
                    a, pa[0], j) + row(b, pb[0], j)))
            elif not cx.symbolic:
                r = row(a, pa[0], j) if pb[1] is None else row(b, pb[0], j)
                cx.check("masked in one", abs(g - r) < 1e-6 * (
                    1 + 1 / (pa[1] or pb[1])))


class Pool:
    """Serial stand-in for multiprocessing.Pool."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, *a, **k):
        return [f(x) for x in it]
    imap = imap_unordered = map

    def starmap(self, f, it, *a, **k):
        return [f(*x) for x in it]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def close(self):
        pass
    join = terminate = close

    def __getattr__(self, name):
        raise Unsupported(f"Pool.{name}")


@scenario("C20", ["read_dirs_to_dict", "main (qsonic_coadd_deltas)",
                  "write_one_hpx"], quick_s=120,
          bound="up to 4 tables in 3 files of 2 directories, any identifiers")
def targets(cx):
    """Every table enters the coadd of its own target exactly once; every
    target is written once, to the file of its own pixel."""
    C = cx.load("qsonic.scripts.qsonic_coadd_deltas")
    n = cx.choice("n", [1, 2, 3, 4])
    ids = [cx.choice(f"id{i}", [11, 12, 13][:i + 1]) for i in range(n)]
    where = [cx.choice(f"f{i}", ["/a/delta-1.fits", "/b/delta-1.fits",
                                 "/b/delta-2.fits"]) for i in range(n)] \
        if not cx.symbolic else ["/a/delta-1.fits", "/b/delta-1.fits",
                                 "/b/delta-2.fits", "/b/delta-2.fits"][:n]
    ra = {t: cx.choice(f"ra{t}", [0.1, 2.5]) for t in (11, 12, 13)}

    class D(Stand):
        def __init__(self, i):
            self.targetid, self.parts = ids[i], [i]
            self.ra, self.dec = ra[ids[i]], 0.3

        def coadd(self, o, **k):
            self.parts += o.parts

        def write(self, f):
            wrote.append((f.name, self))
    files = ["/a/delta-1.fits", "/b/delta-1.fits", "/b/delta-2.fits"]
    pats, wrote, opened = [], [], []

    def glob(p, **k):
        pats.append(p)
        return [f for f in files if f.startswith(p[:3])]

    def rd(f):
        return [D(i) for i in range(n) if where[i] == f]
    C.glob = Partial(glob=glob, iglob=lambda *a, **k: iter(glob(*a, **k)))
    C.Pool = Pool
    C.qsonic = Partial(io=Partial(read_deltas=rd))

    class F(Stand):
        def __init__(self, name, *a, **k):
            opened.append(name)
            self.name = name

        def __enter__(self):
            return self

        def close(self):
            pass

        def __exit__(self, *a):
            return False
    C.fitsio = Partial(FITS=F)
    hp = []

    def ang(nside, r, d, nest=False, lonlat=False):
        hp.append((nside, lonlat, nest))
        import numpy
        return int(r) if numpy.ndim(r) == 0 else numpy.array(r).astype(int)
    C.healpy = Partial(ang2pix=ang)
    args = Partial(input_dirs=["/a", "/b"], output_dir="/out",
                   nside=4, nest=cx.flag("nest"), nproc=2)
    C.get_parser = lambda: Partial(parse_args=lambda *a: args)
    C.logging = Quiet()
    C.main()
    cx.check("directories", sorted(
        p.replace("//", "/") for p in pats)
        == ["/a/delta-*.fits", "/b/delta-*.fits"])
    cx.check("pixels as requested", all(
        h == (4, True, args.nest) for h in hp))
    cx.check("each target once", sorted(d.targetid for _, d in wrote)
             == sorted(set(ids)))
    for f, d in wrote:
        cx.check("tables of the target", sorted(d.parts) == [
            i for i in range(n) if ids[i] == d.targetid])
        cx.check("file of the pixel",
                 f == f"/out/delta-{int(ra[d.targetid])}.fits")
    cx.check("one file for each pixel", sorted(opened) == sorted(set(
        f"/out/delta-{int(ra[t])}.fits" for t in ids)))
    files.clear()
    r, ex = cx.call(C.main)
    cx.check("no files is an error", ex is not None)


@scenario("C20", ["main (qsonic_coadd_deltas)", "Delta", "read_deltas"],
          sym=False, conc_n=10, bound="sampled end to end: up to 3 "
          "directories, 4 targets")
def program(cx):
    """The whole program on real files."""
    import numpy as np
    import healpy
    import os
    import sys
    d = cx.tmp()
    nd = cx.choice("nd", [1, 2, 3])
    rng = np.random.default_rng(cx.int("rs", 0, 99, conc=(0, 99)))
    reso, npix = cx.flag("reso"), 12
    seen = {}
    for j in range(nd):
        hd = []
        for t in range(1, 5):
            if rng.random() < 0.4:
                continue
            o = int(rng.integers(0, 9))
            iv = np.where(rng.random(npix) < .2, 0, rng.uniform(1, 9, npix))
            L = rng.uniform(.05, .3)
            c = [3600 + .8 * (o + np.arange(npix)), rng.normal(size=npix),
                 iv, iv / (1 + iv * L), np.full(npix, 2.)]
            nm = "LAMBDA,DELTA,IVAR,WEIGHT,CONT"
            if reso:
                c.append(np.ones((npix, 3)) / 3)
                nm += ",RESOMAT"
            tab = np.zeros(npix, dtype=[(k, 'f8', v.shape[1:]) for k, v in
                                        zip(nm.split(","), c)])
            for k, v in zip(nm.split(","), c):
                tab[k] = v
            hd.append((f"{t}", tab, dict(
                TARGETID=t, MEANSNR=1., RA=t * 1., DEC=t * .2)))
            seen.setdefault(t, []).append((o, tab))
        if hd:
            cx.put_file(f"{d}/in{j}/delta-{j}.fits", hd)
        else:
            os.makedirs(f"{d}/in{j}")
    if not seen:
        return
    os.makedirs(d + "/out")
    C = cx.load("qsonic.scripts.qsonic_coadd_deltas")
    C.Pool = Pool
    old = sys.argv
    sys.argv = ["qsonic-coadd", "-i"] + [f"{d}/in{j}" for j in range(nd)] + [
        "-o", d + "/out", "--nside", "8"]
    try:
        C.main()
    finally:
        sys.argv = old
    got = {}
    for f in cx.files():
        if "/out/" in f:
            for nme, cols, h in cx.read_hdus(f):
                cx.check("each target once", h["TARGETID"] not in got)
                got[h["TARGETID"]] = cols
                p = healpy.ang2pix(8, np.degrees(h["RA"]),
                                   np.degrees(h["DEC"]), lonlat=True)
                cx.check("file of the pixel",
                         f.endswith(f"/delta-{p}.fits"))
    cx.check("all targets", sorted(got) == sorted(seen))
    for t, parts in seen.items():
        g = got[t]
        o = np.rint((g["LAMBDA"] - 3600) / .8).astype(int)
        cx.check("grid", bool(np.all(np.diff(o) == 1)) and o[0] == min(
            p[0] for p in parts) and o[-1] == max(
                p[0] for p in parts) + npix - 1)
        cov = np.zeros(o.size, int)
        one = np.zeros(o.size)
        for po, tab in parts:
            i = po - o[0]
            good = tab["IVAR"] > 0
            cov[i:i + npix] += good
            one[i:i + npix] += np.where(good, tab["DELTA"], 0)
        cx.check("masked exactly where all inputs are", bool(np.all(
            (g["IVAR"] > 0) == (cov > 0))) and bool(np.all(
                (g["WEIGHT"] > 0) == (cov > 0))))
        w = cov == 1
        cx.check("pixels of a single input", bool(np.allclose(
            g["DELTA"][w], one[w])))
        cx.check("finite", all(bool(np.all(np.isfinite(g[k]))) for k in g))
