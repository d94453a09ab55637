"""C12: delta files hold each spectrum's deltas exactly once."""
import math

from vf.run import scenario
from contracts.common import *

TRUSTED = ["in-memory fitsio stand-in: FITS.write(columns, names, header, "
           "extname) (symbolic run; the concrete runs use the real fitsio)"]
IDS = ('TILEID', 'FIBER', 'PETAL_LOC', 'EXPID', 'NIGHT')


def _args(mock=True, skip=False, w1=1040.):
    import types
    return Partial(mock_analysis=mock, skip_resomat=skip,
                                 forest_w1=w1)


def _finish(cx, S, spec, arms, n, p="", snr=None):
    """The state after a continuum fit, arbitrary contents."""
    cont = {a: cx.array(f"{p}cont_{a}", n[a], gt=0) for a in arms}
    wt = {a: cx.array(f"{p}weight_{a}", n[a], lo=0) for a in arms}
    spec.cont_params["cont"] = cont
    spec.cont_params["valid"] = True
    spec._forestweight = wt
    spec.mean_snr = {a: (cx.real(f"{p}snr_{a}", pool=[0., 1.5, -0.5])
                         if snr is None else snr) for a in arms}
    return ({a: v.copy() for a, v in cont.items()},
            {a: v.copy() for a, v in wt.items()})


def _opaque_reso(cx, S):
    """mean_resolution by its contract: some number (symbolic run)."""
    if cx.symbolic:
        vals = {}
        S.Spectrum.mean_resolution = lambda self, arm, weight=None: \
            vals.setdefault((id(self), arm), cx.real(f"mreso{len(vals)}"))


def _table(cx, spec, hdu, a, nn, cont, wt, snr, expid, blind="DELTA"):
    """hdu is the table of this spectrum's arm."""
    name, data, hdr = hdu
    fl, iv, wv, reso = spec[1]
    sp = spec[0]
    cx.check("extension name", name == f"{sp.targetid}-{a}{expid}")
    want = {"LAMBDA", blind, "IVAR", "WEIGHT", "CONT"} | (
        {"RESOMAT"} if reso else set())
    cx.check("columns", set(data) == want)
    if set(data) != want:
        return
    cx.check("pixels", cx.And(*[cx.eq(
        data[c].shape[0], nn) for c in sorted(want)]))
    cx.forall("wavelength", nn, lambda k: cx.eq(data["LAMBDA"][k], wv[a][k]))
    cx.forall("continuum", nn, lambda k: cx.eq(data["CONT"][k], cont[a][k]))
    cx.forall("delta", nn, lambda k: cx.eq(
        data[blind][k], cx.ite(iv[a][k] == 0, 0.,
                               fl[a][k] / cont[a][k] - 1)))
    cx.forall("ivar", nn, lambda k: cx.eq(
        data["IVAR"][k], iv[a][k] * cont[a][k]**2))
    cx.forall("weight", nn, lambda k: cx.eq(
        data["WEIGHT"][k], wt[a][k] * cont[a][k]**2))
    if reso:
        cx.check("resolution shape", cx.And(
            len(data["RESOMAT"].shape) == 2,
            cx.eq(data["RESOMAT"].shape[1], 3)))
        cx.forall("resolution", (3, nn), lambda d, k: cx.eq(
            data["RESOMAT"][k, d], reso[a][d, k]))
    rad = math.pi / 180
    cx.check("header", cx.And(
        cx.eq(hdr["TARGETID"], sp.targetid), cx.eq(hdr["LOS_ID"], sp.targetid),
        cx.eq(hdr["Z"], sp.catrow["Z"]),
        cx.eq(hdr["MEANSNR"], snr),
        cx.eq(hdr["SMSCALE"], sp._smoothing_scale),
        hdr["BLINDING"] == "none",
        cx.eq(hdr["RSNR"], sp.rsnr), cx.eq(hdr["DELTA_LAMBDA"], sp.dwave)))
    for c, v in (("RA", sp.catrow["RA"]), ("DEC", sp.catrow["DEC"])):
        if cx.symbolic:
            cx.check("header position", cx.eq(hdr[c], cx.np().radians(v)))
        else:
            cx.check("header position", cx.eq(hdr[c], v * rad))
    for c in IDS:
        if c in sp.catrow.dtype.names:
            cx.check("header exposure", c in hdr and cx.eq(
                hdr[c], sp.catrow[c]))


@scenario("C12", ["Spectrum.write"], quick_s=300)
def one_spectrum(cx):
    """Every arm with nonzero mean SNR is one table with the right columns."""
    S = cx.load("qsonic.spectrum")
    np = cx.np()
    arms, reso, expo = cx.choice("cfg", [
        (("B", "R"), None, False), (("B", "R"), 3, True)] + (
        [(("B", "R", "Z"), 3, False), (("R",), None, True)]
        if cx.thorough or not cx.symbolic else []))
    # blinding from any history of calls; whether resolution is requested
    # need not match what the data has
    S.Spectrum.set_blinding(20200101, _args(skip=cx.flag("skip")))
    row = dict(TARGETID=39627,
               RA=cx.real("ra", lo=0, hi=360), DEC=cx.real("dec", lo=-90,
                                                           hi=90))
    if expo:
        row.update(EXPID=7, NIGHT=cx.int("night", 1, 99),
                   TILEID=cx.int("tile", 1, 99), FIBER=cx.int("fib", 0, 9),
                   PETAL_LOC=cx.int("petal", 0, 9))
    _opaque_reso(cx, S)
    spec, wave, n, z = forest(cx, S, arms, row=row, reso=reso, conc=(3, 7))
    if reso and not cx.symbolic:
        for a in arms:      # a peaked profile (mean_resolution)
            spec.forestreso[a][:] = np.array(
                [[.2], [.6], [.2]]) + 0.01 * spec.forestreso[a] / (
                    1 + np.abs(spec.forestreso[a]).max())
    cont, wt = _finish(cx, S, spec, arms, n)
    if reso and not cx.symbolic:
        S.Spectrum.mean_resolution = lambda self, arm, weight=None: 1.5
    fl, iv, wv = snapshot(spec)
    R = {a: spec.forestreso[a].copy() for a in arms} if reso else {}
    snr = dict(spec.mean_snr)
    path = f"{cx.tmp()}/delta-1.fits"
    F = cx.load("qsonic.io").fitsio.FITS(path, 'rw', clobber=True)
    spec.write(F)
    F.close()
    hd = cx.read_hdus(path)
    keep = [a for a in arms if not cx.is_true(cx.eq(snr[a], 0.))]
    cx.check("one table for each arm", len(hd) == len(keep))
    if len(hd) != len(keep):
        return
    by = {h[0]: h for h in hd}
    ex = "-7" if expo else ""
    for a in keep:
        cx.check("extension of the arm", f"39627-{a}{ex}" in by)
        if f"39627-{a}{ex}" in by:
            _table(cx, (spec, (fl, iv, wv, R)), by[f"39627-{a}{ex}"], a, n[a],
                   cont, wt, snr[a], ex)
    # saving does not change the spectrum
    for a in arms:
        cx.forall("spectrum unchanged", n[a], lambda k: cx.And(
            cx.eq(spec.forestflux[a][k], fl[a][k]),
            cx.eq(spec.forestivar[a][k], iv[a][k]),
            cx.eq(spec.forestweight[a][k], wt[a][k]),
            cx.eq(spec.cont_params["cont"][a][k], cont[a][k])))


PIX = {1: [(7,)], 2: [(7, 7), (7, 3), (3, 7)],
       3: [(7, 3, 7), (5, 3, 7), (7, 5, 3), (3, 7, 7), (7, 7, 3)]}


@scenario("C12", ["save_deltas", "valid_spectra", "Spectrum.write"],
          quick_s=300, bound="symbolic run: lists of at most 3 spectra, "
          "pixels in every order pattern, every validity; contents unbounded")
def layout(cx):
    """Every valid spectrum is in exactly one file: its own."""
    S = cx.load("qsonic.spectrum")
    IO = cx.load("qsonic.io")
    S.Spectrum.set_blinding(20200101, _args(skip=True))
    by_hpx, ns = cx.choice("mode", [(True, 3), (False, 2), (True, 2)] if
                           not cx.thorough else
                           [(b, k) for b in (True, False) for k in (1, 2, 3)])
    if not cx.symbolic and by_hpx:
        ns = cx.choice("ns", [1, 3, 5, 8])
        pix = [cx.int(f"pix{i}", 1, 4) for i in range(ns)]
    else:
        pix = cx.choice("pix", PIX[ns])
    valid = [cx.flag(f"valid{i}") for i in range(ns)]
    same = cx.choice("ids", ["distinct", "same target"]) if (
        not cx.symbolic) else "distinct"
    share, specs = None, []
    for i in range(ns):
        row = dict(TARGETID=100 + (0 if same != "distinct" and not by_hpx
                                   else i), HPXPIXEL=pix[i])
        if same != "distinct":
            row["EXPID"] = 40 + i
        sp, wave, n, z = forest(cx, S, ("B",), f"s{i}", row=row, share=share,
                                conc=(2, 4))
        share = (wave, n)
        cont, wt = _finish(cx, S, sp, ("B",), n, f"s{i}", snr=2.0)
        sp.cont_params["valid"] = bool(valid[i])
        specs.append((sp, cont, wt, snapshot(sp), f"-{40 + i}" if
                      same != "distinct" else ""))
    outdir = f"{cx.tmp()}/out"
    if not cx.symbolic:
        import os
        os.makedirs(outdir, exist_ok=True)
    rank = cx.choice("rank", [5, 0]) if not by_hpx else None
    IO.save_deltas([s[0] for s in specs], outdir, save_by_hpx=by_hpx,
                   mpi_rank=rank)
    tables = {}
    for f in cx.files():
        base = f.rsplit("/", 1)[1]
        cx.check("file name", base in {
            f"delta-{x}.fits" for x in (pix if by_hpx else [rank])})
        for h in cx.read_hdus(f):
            tables.setdefault(h[0], []).append((base, h))
    want = [i for i in range(ns) if valid[i]]
    cx.check("as many tables as valid spectra", sum(
        len(v) for v in tables.values()) == len(want))
    for i in want:
        sp, cont, wt, (fl, iv, wv), ex = specs[i]
        t = tables.get(f"{100 + i if same == 'distinct' or by_hpx else 100}"
                       f"-B{ex}", [])
        cx.check("exactly one table", len(t) == 1)
        if len(t) != 1:
            return
        cx.check("in its own file", t[0][0] ==
                 f"delta-{pix[i] if by_hpx else rank}.fits")
        _table(cx, (sp, (fl, iv, wv, {})), t[0][1], "B", n["B"], cont, wt,
               2.0, ex)


@scenario("C12", ["save_deltas"], quick_s=60)
def refused(cx):
    """Nothing is written without an output directory; without a layout or a
    blinding saving fails."""
    S = cx.load("qsonic.spectrum")
    IO = cx.load("qsonic.io")
    case = cx.choice("case", ["no outdir", "no layout", "no blinding"])
    if case != "no blinding":
        S.Spectrum.set_blinding(20200101, _args(skip=True))
    sp, wave, n, z = forest(cx, S, ("B",), conc=(2, 4))
    _finish(cx, S, sp, ("B",), n, snr=2.0)
    out = f"{cx.tmp()}/out"
    if not cx.symbolic:
        import os
        os.makedirs(out, exist_ok=True)
    if case == "no outdir":
        r, ex = cx.call(IO.save_deltas, [sp], cx.choice("o", [None, ""]),
                        mpi_rank=0)
        cx.no_exc("no output directory: nothing to do", ex)
    elif case == "no layout":
        r, ex = cx.call(IO.save_deltas, [sp], out)
        cx.check_raises("a layout is required", ex, IO.QsonicException)
    else:
        r, ex = cx.call(IO.save_deltas, [sp], out, save_by_hpx=cx.flag("h"),
                        mpi_rank=0)
        cx.check_raises("blinding is required", ex, IO.QsonicException)
    cx.check("no file", not [f for f in cx.files() if "delta-" in f])


@scenario("C12", ["Spectrum.mean_resolution"], sym=False, conc_n=60,
          bound="sampled: Gaussian profiles")
def mean_resolution(cx):
    """MEANRESO is the Gaussian sigma (km/s) of a Gaussian resolution
    matrix."""
    S = cx.load("qsonic.spectrum")
    np = cx.np()
    nd = cx.choice("nd", [7, 9, 11])
    spec, wave, n, z = forest(cx, S, ("B",), reso=nd, start=3600., step=0.5,
                              conc=(3, 8))
    sg = cx.choice("sigma", [0.8, 1., 1.3, 2.])
    x = np.arange(nd) - nd // 2
    spec.forestreso["B"][:] = np.exp(-x**2 / (2 * sg**2))[:, None]
    w = cx.choice("w", ["own", "given"])
    nn = n["B"]
    wt = cx.array("wt", nn, gt=0, hi=4)
    if w == "own":
        spec._forestweight = {"B": wt}
        r = spec.mean_resolution("B")
    else:
        r = spec.mean_resolution("B", wt)
    lam = np.dot(spec.forestwave["B"], wt) / np.sum(wt)
    cx.check("Gaussian sigma", abs(
        r / (sg * 3e5 * spec.dwave / lam) - 1) < 1e-6)
    s2, _, _, _ = forest(cx, S, ("B",), "q", share=(wave, n))
    cx.check("none without resolution", s2.mean_resolution("B") is None)
