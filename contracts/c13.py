"""C13: blinding follows the data, and blinded data is labelled."""
from vf.run import scenario
from contracts.common import *
from contracts.c12 import _args, _finish, _table, TRUSTED

LYA = 1215.67
NIGHTS = [20210513, 20210514, 20210515, 20210731, 20210801, 20210802, 20220731,
          20220801, 20220802, 20200101, 20230101, 20300101]


def _expected(cx, mock, w1, night):
    """Name of the blinding (decided on this path)."""
    if mock or cx.is_true(w1 > LYA) or cx.is_true(night < 20210514):
        return "none"
    if cx.is_true(night < 20210801):
        return "desi_m2"
    return "desi_y1" if cx.is_true(night < 20220801) else "desi_y3"


def _inputs(cx, p=""):
    night = cx.int(p + "night", 0) if cx.symbolic else cx.choice(
        p + "night", NIGHTS)
    w1 = cx.real(p + "w1", gt=0, pool=[1040., LYA, 1215.66, 1216., 1420.])
    return cx.flag(p + "mock"), w1, night


@scenario("C13", ["Spectrum.set_blinding", "Spectrum.blinding_not_set"])
def rule(cx):
    """Total and exact, after any earlier setting."""
    S = cx.load("qsonic.spectrum").Spectrum
    cx.check("not set initially", S.blinding_not_set())
    if cx.flag("again"):
        m0, w0, n0 = _inputs(cx, "first_")
        S.set_blinding(n0, _args(m0, cx.flag("skip0"), w0))
    mock, w1, night = _inputs(cx)
    want = _expected(cx, mock, w1, night)
    S.set_blinding(night, _args(mock, cx.flag("skip"), w1))
    cx.check("set", not S.blinding_not_set())
    cx.check("blinding of the data", S._blinding == want)


@scenario("C13", ["save_deltas", "Spectrum.write", "Spectrum.set_blinding"],
          quick_s=200)
def label(cx):
    """What reaches the file: column name and header follow the last
    setting."""
    S = cx.load("qsonic.spectrum")
    IO = cx.load("qsonic.io")
    hist = cx.choice("history", [
        ("open",), ("blind",), ("blind", "open"), ("open", "blind"),
        ("blind", "blind"), ("open", "open")])
    reso = cx.choice("reso", [None, 3]) if len(hist) > 1 else None
    for i, h in enumerate(hist):
        S.Spectrum.set_blinding(20220801 if h == "blind" else 20210513,
                                _args(False, reso is None, 1040.))
    if cx.symbolic or reso:
        S.Spectrum.mean_resolution = lambda self, arm, weight=None: 1.5
    sp, wave, n, z = forest(cx, S, ("B",), conc=(2, 4), reso=reso,
                            row=dict(TARGETID=11))
    cont, wt = _finish(cx, S, sp, ("B",), n, snr=2.0)
    fl, iv, wv = snapshot(sp)
    out = f"{cx.tmp()}/out"
    if not cx.symbolic:
        import os
        os.makedirs(out, exist_ok=True)
    IO.save_deltas([sp], out, mpi_rank=0)
    hd = cx.read_hdus(f"{out}/delta-0.fits")
    cx.check("saved", len(hd) == 1)
    blind = hist[-1] == "blind"
    name, data, hdr = hd[0]
    col = "DELTA_BLIND" if blind else "DELTA"
    cx.check("column name", sorted(data) == sorted(
        ["LAMBDA", col, "IVAR", "WEIGHT", "CONT"]
        + (["RESOMAT"] if reso else [])))
    if col in data:
        cx.forall("delta", n["B"], lambda k: cx.eq(
            data[col][k], cx.ite(iv["B"][k] == 0, 0.,
                                 fl["B"][k] / cont["B"][k] - 1)))
    cx.check("header", hdr["BLINDING"] == ("desi_y3" if blind else "none"))


@scenario("C13", ["Delta.__init__", "Delta.write", "Delta._check_hdu"],
          quick_s=120)
def reread(cx):
    """A blinded delta that is read back (and coadded or rewritten) stays
    under the blinded name."""
    S = cx.load("qsonic.spectrum")
    blind = cx.flag("blind")
    col = "DELTA_BLIND" if blind else "DELTA"
    n = cx.length("n", 2, conc=(2, 5))
    cols = {c: cx.array(c, n, lo=0 if c in ("IVAR", "WEIGHT") else None,
                        gt=0 if c in ("CONT", "LAMBDA") else None)
            for c in ("LAMBDA", col, "IVAR", "WEIGHT", "CONT")}
    t = cx.table("t", n, **cols)
    keep = {c: t[c].copy() for c in cols}
    src = f"{cx.tmp()}/in.fits"
    hdr = dict(TARGETID=11, MEANSNR=1.5, RA=0.25, DEC=0.5, BLINDING="x")
    cx.put_file(src, [("11-B", t, hdr)])
    F = cx.load("qsonic.io").fitsio.FITS
    f = F(src)
    d = S.Delta(f[0 if cx.symbolic else 1])
    f.close()
    dst = f"{cx.tmp()}/out.fits"
    g = F(dst, 'rw', clobber=True)
    d.write(g)
    g.close()
    hd = cx.read_hdus(dst)
    cx.check("one table", len(hd) == 1)
    name, data, h2 = hd[0]
    cx.check("column names", sorted(data) == sorted(cols))
    if sorted(data) == sorted(cols):
        cx.forall("contents", n, lambda k: cx.And(
            *[cx.eq(data[c][k], keep[c][k]) for c in cols if c != col],
            cx.eq(data[col][k], cx.ite(keep["IVAR"][k] == 0, 0.,
                                       keep[col][k]))))
    cx.check("header", cx.And(*[cx.eq(h2[k], v) for k, v in hdr.items()]))


@scenario("C13", ["mpi_run_all (qsonic_fit)"], quick_s=60,
          bound="1 to 3 ranks with at most 2 groups each; any nights")
def last_night(cx):
    """The blinding of the run follows the latest night of the whole catalog,
    the same on every rank, also on a rank without quasars."""
    from types import SimpleNamespace
    size = cx.choice("size", [1, 2, 3])
    ng = [cx.choice(f"groups{r}", [0, 1, 2] if r else [1, 2])
          for r in range(size)]
    mock = cx.flag("mock")
    q = [[{"LASTNIGHT": cx.array(f"ln{r}.{g}", cx.length(
        f"n{r}.{g}", 1, conc=(1, 4)), 'i', lo=20200101, hi=20250101)}
        for g in range(ng[r])] for r in range(size)]

    class Stop(Exception):
        pass

    def body(comm, load):
        M = load("qsonic.scripts.qsonic_fit")
        S = load("qsonic.spectrum")
        got = []
        args = Partial(
            outdir=None, forest_w1=1040., forest_w2=1200., skip=0.2,
            wave1=3600., wave2=6000., catalog="c", mock_analysis=mock,
            tile_format=False, keep_surveys=None)
        rebind([M, M.qsonic.catalog], mpi_parse=lambda *a, **k: args,
               mpi_get_local_queue=lambda *a, **k: q[comm.Get_rank()])

        def masks(*a, **k):
            raise Stop()
        M.mpi_read_masks = masks
        sv = S.Spectrum.set_blinding
        S.Spectrum.set_blinding = staticmethod(
            lambda last, a: got.append((last, a is args)))
        try:
            M.mpi_run_all(comm, comm.Get_rank(), size)
        except Stop:
            pass
        finally:
            S.Spectrum.set_blinding = sv
        return got
    out = cx.world(size, body)
    for got, ex in out:
        cx.no_exc("no failure", ex)
        cx.check("the blinding is set once, with the options",
                 len(got) == 1 and got[0][1])
        if len(got) != 1:
            return
        if mock:
            cx.check("mocks have no night", got[0][0] is None)
            continue
        for r in range(size):
            for g in q[r]:
                a = g["LASTNIGHT"]
                cx.forall("no later night", cx.n(a),
                          lambda k: a[k] <= got[0][0])
    if not mock:
        if not cx.symbolic:
            cx.check("it is one of the nights", any(
                int(x) == int(out[0][0][0][0]) for r in range(size)
                for g in q[r] for x in g["LASTNIGHT"]))
        for got, ex in out[1:]:
            cx.check("the same on every rank",
                     cx.eq(got[0][0], out[0][0][0][0]))
