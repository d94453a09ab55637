"""C19: the calibration script uses every delta exactly once."""
import inspect
from types import SimpleNamespace
from vf.run import scenario
from contracts.common import *

TRUSTED = ["glob.glob, numpy.loadtxt and the FITS reader",
           "MPI collectives (lock-step stand-in)"]
ASSUME = ["forest grids are aligned with the stacking grid (pixel positions "
          "are whole multiples of DELTA_LAMBDA from wave1) in `stack`"]
SURV = ("main", "sv1", "sv3")


class Part:
    """One arbitrary member stands for the files of the part."""

    def __init__(self, a):
        self.a = a

    def _vf_len(self):
        return self.a.shape[0]

    def __getitem__(self, k):
        return Part(self.a[k])

    def __iter__(self):
        return iter([self])


@scenario("C19", ["mpi_read_all_deltas"], quick_s=120,
          bound="1 to 4 ranks (8 in the thorough run), any number of files")
def every_file_once(cx):
    """Every file is read by exactly one rank."""
    size = cx.choice("size", [1, 2, 3, 4] + (
        [5, 6, 7, 8] if cx.thorough or not cx.symbolic else []))
    n = cx.length("n", 0, conc=(0, 19))
    args = Partial(input_dir="/nowhere")
    np = cx.np()
    ids = np.arange(n)

    def body(comm, load):
        C = load("qsonic.scripts.qsonic_calib")
        if cx.symbolic:
            files = Part(ids)
            C.len = lambda x: x._vf_len() if isinstance(x, Part) else len(x)
        else:
            files = [f"f{k}" for k in range(n)]
            if comm.Get_rank():     # the listing may differ between hosts
                files = files[::-1]
        C.glob = Partial(glob=lambda pat, **k: files,
                         iglob=lambda pat, **k: files)
        mine = []
        C.qsonic.io.read_deltas = lambda f: mine.append(f) or [f]
        r = C.mpi_read_all_deltas(args, comm, comm.Get_rank(), size)
        return mine, [x for y in r for x in y]
    out = cx.world(size, body)
    for r, ex in out:
        cx.no_exc("no failure", ex)
    if not cx.symbolic:
        allf = sorted(int(f[1:]) for r, _ in out for f in r[1])
        cx.check("every file once", allf == list(range(n)))
        cx.check("only its own files", all(r[0] == r[1] for r, _ in out))
        return
    parts = [r[1][0].a for r, _ in out if r[1]]
    cx.check("one part for each rank", len(parts) == size)
    # the parts are runs of consecutive files that follow each other
    pos = 0
    for a in parts:
        m = a.shape[0]
        cx.forall("consecutive files", m, lambda k: cx.eq(a[k], pos + k))
        pos = pos + m
    cx.check("no file is left", cx.eq(pos, n))


@scenario("C19", ["mpi_set_targetid_list_to_remove"], quick_s=120)
def removed(cx):
    """The excluded targets are those listed, BAL quasars and other
    surveys, when asked for; nothing else."""
    M = cx.load("qsonic.scripts.qsonic_calib")
    use_list, use_cat, bal, surv = cx.choice("options", [
        (a, b, c, d) for a in (0, 1) for b in (0, 1) for c in (0, 1)
        for d in (None, ["main"], ["sv1", "main"])
        if not cx.symbolic or b or not (c or d)])
    nl = cx.length("nl", 0, conc=(0, 3))
    ids = cx.array("ids", nl, kind="i", lo=1, hi=9)
    n = cx.length("n", 1, conc=(1, 6))
    nb = 2
    cat = cx.table(
        "cat", n, TARGETID=dict(kind='i', lo=1, hi=9),
        SURVEY=dict(kind='s', pool=SURV))
    bcols = {c: cx.array(c, (n, nb), pool=[-1., 0., 5., 9.])
             for c in ('VMIN_CIV_450', 'VMAX_CIV_450', 'VMIN_CIV_2000',
                       'VMAX_CIV_2000')}

    class Cat(Stand):
        class dtype:
            names = ("TARGETID", "SURVEY") + tuple(bcols)

        def __getitem__(self, k):
            return bcols[k] if k in bcols else cat[k]
    calls = []

    def readcat(fn, comm, rank, is_mock, *a, **k):
        calls.append((fn, is_mock))
        return Cat()
    M.qsonic.catalog.mpi_read_quasar_catalog = readcat
    args = Partial(
        remove_targetid_list=None, catalog="cat.fits" if use_cat else None,
        mock_analysis=cx.flag("mock"), remove_bal_qsos=bal,
        keep_surveys=surv)
    if use_list:
        args.remove_targetid_list = cx.tmp() + "/list.txt"
        if cx.symbolic:
            M.mpi_fnc_bcast = lambda f, c, r, msg, *a, **k: ids
        else:
            with open(args.remove_targetid_list, "w") as f:
                f.write("".join(f"{x}\n" for x in ids))
    got = M.mpi_set_targetid_list_to_remove(args)
    if use_cat:
        cx.check("catalog as analysed", calls == [
            ("cat.fits", args.mock_analysis)])
    m = got.shape[0]

    def bad(k):
        c = []
        if bal:
            for s in ("450", "2000"):
                for j in range(nb):
                    c.append(cx.And(bcols[f"VMIN_CIV_{s}"][k, j] > 0,
                                    bcols[f"VMAX_CIV_{s}"][k, j] > 0))
        if surv:
            c.append(cx.Not(cx.Or(*[cx.eq(cat["SURVEY"][k], s)
                                    for s in surv])))
        return cx.Or(*c) if c else False

    def isin(t):
        return cx.exists(m, lambda k: cx.eq(got[k], t))
    if use_list and not cx.is_true(cx.eq(nl, 0)):
        k = cx.anyidx(nl)
        cx.hint(k, m)
        cx.check("listed targets", isin(ids[k]))
    if use_cat and (bal or surv):
        k = cx.anyidx(n)
        cx.check("targets of the catalog", cx.Implies(
            bad(k), isin(cat["TARGETID"][k])))

    def why(j):
        w = []
        if use_list:
            w.append(cx.exists(nl, lambda k: cx.eq(ids[k], got[j])))
        if use_cat and (bal or surv):
            w.append(cx.exists(n, lambda k: cx.And(
                bad(k), cx.eq(cat["TARGETID"][k], got[j]))))
        return cx.Or(*w) if w else False
    if not cx.is_true(cx.eq(m, 0)):
        cx.check("nothing else", why(cx.anyidx(m)))


@scenario("C19", ["mpi_run_all (qsonic_calib)"], quick_s=120,
          bound="3 deltas in 2 files on this rank, any identifiers and SNR")
def selection(cx):
    """Exactly the kept deltas enter the variance statistics and the stack,
    each once."""
    M = cx.load("qsonic.scripts.qsonic_calib")
    nl = cx.length("nl", 0, conc=(0, 3))
    ids = cx.array("ids", nl, kind="i", lo=1, hi=6)
    lo = cx.real("min_snr", lo=0, hi=2, pool=[0., 1.])
    hi = cx.real("max_snr", lo=2, pool=[3., 100.])
    args = Partial(
        outdir=cx.tmp() + "/out", wave1=3600., wave2=3624., nwbins=3,
        var1=0.01, var2=1., nvarbins=2, var_use_cov=cx.flag("cov"),
        min_snr=lo, max_snr=hi, fbase="x")
    ds = [Partial(
        targetid=cx.int(f"tid{i}", 1, 6, conc=(1, 6)),
        mean_snr=cx.real(f"snr{i}", lo=0, pool=[0., 0.5, 1., 2., 3., 5.]),
        wave=cx.array(f"wave{i}", 3), delta=cx.array(f"delta{i}", 3),
        ivar=cx.array(f"ivar{i}", 3)) for i in range(3)]
    M.mpi_parse = lambda *a, **k: args
    M.os_makedirs = lambda *a, **k: None
    M.mpi_set_targetid_list_to_remove = lambda *a, **k: ids
    M.mpi_read_all_deltas = lambda *a, **k: [ds[:2], [], ds[2:]]
    np = cx.np()
    added, made, stacked, saved = [], [], [], []

    class Fitter(Stand):
        nwbins = 3
        waveobs = np.array([1., 2., 3.])

        def __init__(self, *a, **k):
            made.append((a, k))

        def add(self, wave, delta, ivar):
            added.append((wave, delta, ivar))

        def fit(self, initial_guess, smooth=True):
            return initial_guess, initial_guess

        def write(self, mpi_saver, *a, **k):
            saved.append("stats")

    class Saver(Stand):
        def __init__(self, *a, **k):
            pass

        def write(self, data, names=None, extname="", header=None):
            saved.append(extname)

        def close(self):
            pass
    sig = inspect.signature(M.VarLSSFitter.__init__)
    M.VarLSSFitter, M.MPISaver = Fitter, Saver

    def stack(args, comm, deltas_list):
        stacked.extend(deltas_list)
        return Fitter.waveobs, Fitter.waveobs
    M.mpi_stack_fluxes = stack
    M.mpi_run_all(None, 0, 1)
    exp = []
    for d in ds:
        keep = cx.And(
            cx.Not(cx.exists(nl, lambda k: cx.eq(ids[k], d.targetid))),
            d.mean_snr > lo, d.mean_snr < hi)
        if cx.is_true(keep):
            exp.append(d)
    cx.check("variance statistics", len(added) == len(exp) and all(
        a[0] is d.wave and a[1] is d.delta and a[2] is d.ivar
        for a, d in zip(added, exp)))
    cx.check("stack", len(stacked) == len(exp) and all(
        a is b for a, b in zip(stacked, exp)))
    got = sig.bind(None, *made[0][0], **made[0][1])
    got.apply_defaults()
    got = got.arguments
    cx.check("bins as requested", [got[x] for x in (
        "w1obs", "w2obs", "nwbins", "var1", "var2", "nvarbins", "use_cov")]
        == [3600., 3624., 3, 0.01, 1., 2, args.var_use_cov])
    cx.check("all results are saved", sorted(saved) == [
        "STACKED_FLUX", "VAR_FUNC", "stats"])


W1, DW = 3600., 2.


@scenario("C19", ["mpi_stack_fluxes"], quick_s=200,
          bound="4 stacking pixels, 2 ranks, any aligned deltas")
def stack(cx):
    """Weighted mean of 1 + delta over all deltas of all ranks."""
    np = cx.np()
    frac = cx.choice("rest", [0., 0.5])
    args = Partial(wave1=W1, wave2=W1 + (3 + frac) * DW)
    size = 2
    cfg = cx.choice("deltas", [(1, 1), (2, 0), (0, 1), (0, 0)] + (
        [] if cx.symbolic else [(2, 2), (0, 3)]))
    ds = []
    for r in range(size):
        mine = []
        for i in range(cfg[r]):
            n = cx.length(f"n{r}{i}", 1, conc=(1, 6))
            off = cx.int(f"off{r}{i}", -3, 5, conc=(-3, 5))
            d = Partial(
                header={"DELTA_LAMBDA": DW}, n=n, off=off,
                wave=cx.affine_grid(W1, DW, n, off),
                delta=cx.array(f"d{r}{i}", n),
                weight=cx.array(f"w{r}{i}", n, lo=0, pool=IVPOS))
            mine.append(d)
        ds.append(mine)

    def body(comm, load):
        C = load("qsonic.scripts.qsonic_calib")
        return C.mpi_stack_fluxes(args, comm, ds[comm.Get_rank()])
    out = cx.world(size, body)
    if not sum(cfg):
        for r, ex in out:
            cx.check("nothing to stack is an error on every rank",
                     ex is not None and type(ex).__name__
                     == "QsonicException")
        return
    alld = [d for m in ds for d in m]
    for r, ex in out:
        cx.no_exc("no failure", ex)
        wave, flux = r
        cx.check("grid", cx.And(cx.eq(wave.shape[0], 4),
                                cx.eq(flux.shape[0], 4)))

        def val(d, b, f):
            k = b - d.off
            inside = cx.And(k >= 0, k < d.n)
            if not cx.symbolic:
                return f(k) if inside else 0.
            return cx.ite(inside, f(k), 0.)

        def rule(b):
            sw = sum((val(d, b, lambda k: d.weight[k]) for d in alld), 0.)
            sf = sum((val(d, b, lambda k: d.weight[k] * (1 + d.delta[k]))
                      for d in alld), 0.)
            return cx.And(cx.eq(wave[b], W1 + b * DW), cx.ite(
                sw > 0, cx.eq(flux[b] * sw, sf), cx.eq(flux[b], 0.)))
        cx.forall("weighted mean", 4, rule)


@scenario("C19", ["mpi_run_all (qsonic_calib)", "read_deltas", "Delta"],
          sym=False, conc_n=10, bound="sampled end to end: up to 4 ranks, 7 "
          "delta files")
def program(cx):
    """The whole program on real files."""
    import numpy as np
    import sys
    import os
    size = cx.choice("size", [1, 2, 3, 4])
    nf = cx.choice("nf", [1, 2, 3, 5, 7])
    d = cx.tmp()
    rng = np.random.default_rng(cx.int("rs", 0, 99, conc=(0, 99)))
    npix = 60
    wave = 3600. + 0.8 * np.arange(npix)
    tot = np.zeros(npix)
    norm = np.zeros(npix)
    rm, cnt = 1002, 0
    for i in range(nf):
        hd = []
        for j in range(2):
            tid = 1000 + 2 * i + j
            dl = rng.normal(size=npix)
            iv = np.full(npix, 50.)
            iv[rng.integers(0, npix)] = 0
            wt = iv / (1 + 0.1 * iv)
            snr = 1. if (i + j) % 3 else 7.
            hd.append((f"{tid}", np.rec.fromarrays(
                [wave, dl, iv, wt, np.ones(npix)],
                names="LAMBDA,DELTA,IVAR,WEIGHT,CONT"), dict(
                    TARGETID=tid, MEANSNR=snr, RA=0.1, DEC=0.1,
                    DELTA_LAMBDA=0.8)))
            if tid != rm and snr < 5:
                tot += wt * (1 + np.where(iv > 0, dl, 0))
                norm += wt
                cnt += int((iv[:-1] > 0).sum())
        cx.put_file(f"{d}/in/delta-{i}.fits", hd)
    with open(d + "/rm.txt", "w") as f:
        f.write(f"{rm}\n")
    argv = ["qsonic-calib", "-i", d + "/in", "-o", d + "/out", "--wave1",
            "3600", "--wave2", f"{wave[-1]}", "--nwbins", "1", "--nvarbins",
            "8", "--max-snr", "5", "--remove-targetid-list", d + "/rm.txt"]
    old = sys.argv
    sys.argv = argv

    def body(comm, load):
        C = load("qsonic.scripts.qsonic_calib")
        C.VarLSSFitter.fit = lambda self, g, smooth=True: (
            self.calculate_subsampler_stats(), (g, g))[1]
        return C.mpi_run_all(comm, comm.Get_rank(), size)
    try:
        out = cx.world(size, body)
    finally:
        sys.argv = old
    if not norm.sum():
        cx.check("nothing to stack is an error on every rank", all(
            ex is not None for _, ex in out))
        return
    for r, ex in out:
        cx.no_exc("no failure", ex)
    fs = [f for f in cx.files() if "/out/" in f]
    cx.check("one file", len(fs) == 1)
    h = {n: c for n, c, _ in cx.read_hdus(fs[0])}
    w = norm > 0
    tot[w] /= norm[w]
    cx.check("stacked flux", bool(np.allclose(
        h["STACKED_FLUX"]["stacked_flux"], tot)))
    # the last pixel lies on the upper edge, outside the half-open range
    cx.check("number of pixels", int(
        h["VAR_STATS"]["num_pixels"].sum()) == cnt)
