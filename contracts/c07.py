"""C07: masks remove exactly their footprint."""
import os
from vf.run import scenario
from contracts.common import *

LEVEL = "other"     # the number of mask entries is bounded
LIGHT = 299792.458
# rest-frame lines of the BAL mask as documented
BAL_LINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
             1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]


def masked_exactly(cx, spec, old, inside):
    """flux and ivar are 0 where inside(arm, k), unchanged elsewhere."""
    f0, i0, w0 = old
    cx.check("arms kept", set(spec.forestflux) == set(f0)
             and set(spec.forestivar) == set(f0))
    for a in f0:
        n = cx.n(w0[a])
        f, i, w = spec.forestflux[a], spec.forestivar[a], spec.forestwave[a]
        cx.check("sizes", cx.And(cx.eq(cx.n(f), n), cx.eq(cx.n(i), n),
                                 cx.eq(cx.n(w), n)))
        cx.forall("footprint", n, lambda k: cx.And(
            cx.eq(f[k], cx.ite(inside(a, k), 0., f0[a][k])),
            cx.eq(i[k], cx.ite(inside(a, k), 0., i0[a][k])),
            cx.eq(w[k], w0[a][k])))


@scenario("C07", ["SkyMask.__init__", "SkyMask.apply"], quick_s=300,
          bound="sky mask files with at most 3 rows; grids of any size")
def sky(cx):
    S = cx.load("qsonic.spectrum")
    M = cx.load("qsonic.masks")
    arms = ("B", "R") if cx.flag("two") else ("B",)
    frames = cx.choice("frames", [
        ("OBS",), ("RF",), ("OBS", "RF"), ("RF", "OBS"), ("OBS", "OBS"),
        ("RF", "RF")] + ([("RF", "OBS", "RF"), ("OBS", "RF", "OBS"),
                          ("OBS", "OBS", "OBS")] if cx.thorough
                         or not cx.symbolic else []))
    nr = len(frames)
    lo = [cx.real(f"lo{j}", gt=0, hi=12) for j in range(nr)]
    hi = [cx.real(f"hi{j}", gt=0, hi=14) for j in range(nr)]
    np = cx.np()
    fname = os.path.join(cx.tmp(), "sky.txt")
    if cx.symbolic:
        tab = cx.table("sky", nr, type=np.array([1.] * nr),
                       wave_min=np.array(lo), wave_max=np.array(hi),
                       frame=np.array(list(frames)))
        cx.hook("astropy.io.ascii.read", lambda f, names=None, **k: tab)
    else:
        with open(fname, "w") as f:
            f.write("# type wave_min wave_max frame\n")
            for j in range(nr):
                f.write(f"line{j} {lo[j]!r} {hi[j]!r} {frames[j]}\n")
    spec, wave, n, z = forest(cx, S, arms)
    m = M.SkyMask(fname)
    old = snapshot(spec)

    def inside(a, k):
        c = []
        for j in range(nr):
            w = wave[a][k] / (1. + z) if frames[j] == "RF" else wave[a][k]
            c.append(cx.And(w >= lo[j], w < hi[j]))
        return cx.Or(*c)
    m.apply(spec)
    masked_exactly(cx, spec, old, inside)


@scenario("C07", ["BALMask.apply"], quick_s=300,
          bound="at most 3 velocity ranges per quasar; grids of any size")
def bal(cx):
    S = cx.load("qsonic.spectrum")
    M = cx.load("qsonic.masks")
    np = cx.np()
    if cx.symbolic:
        from vf.engine import E
        E().split_small = 4
        E().ss_quiet = True     # edges need no instances at each other
    n1 = 2 if cx.thorough or not cx.symbolic else 1
    v = {}
    for c, k in (("450", n1), ("2000", 1)):
        for s in ("MIN", "MAX"):
            v[f"V{s}_CIV_{c}"] = cx.array(
                f"V{s}_CIV_{c}", k, lo=-2, hi=30000., pool=[
                    -1., 0., 500., 3000., 9000., 20000., 1234.5])
    spec, wave, n, z = forest(
        cx, S, ("B",), row=v, wmin=0., z=None if cx.symbolic else
        cx.real("z", gt=0, hi=0.5), conc=(2, 40),
        start=900., step=cx.choice("step", [3., 20.])
        if not cx.symbolic else None)
    old = snapshot(spec)
    # the edges of every interval, and where they fall on the grid (lemma:
    # a pixel is at or above an edge exactly from that index on)
    rng = []
    w = spec.forestwave["B"]
    lines = np.array(BAL_LINES) * (1 + z)
    for s, m in (("450", n1), ("2000", 1)):
        for j in range(m):
            vmin, vmax = v[f"VMIN_CIV_{s}"][j], v[f"VMAX_CIV_{s}"][j]
            use = cx.And(vmin > 0, vmax > 0)
            if cx.symbolic and not cx.is_true(use):
                continue
            for q in range(len(BAL_LINES)):
                e1 = lines[q] * (1 - vmax / LIGHT)
                e2 = lines[q] * (1 - vmin / LIGHT)
                if not cx.symbolic:
                    rng.append((use, e1, e2))
                    continue
                i1, i2 = np.searchsorted(w, e1), np.searchsorted(w, e2)
                for e, i in ((e1, i1), (e2, i2)):
                    cx.forall("edge index", n["B"], lambda k: cx.Iff(
                        w[k] >= e, k >= i))
                rng.append((i1, i2))

    def inside(a, k):
        c = []
        if cx.symbolic:
            for i1, i2 in rng:
                c.append(cx.Or(cx.And(k >= i1, k < i2),
                               cx.And(k >= i2, k < i1)))
        else:
            x = wave[a][k]
            for use, e1, e2 in rng:
                c.append(cx.And(use, cx.Or(
                    cx.And(x >= e1, x < e2), cx.And(x >= e2, x < e1))))
        return cx.Or(*c) if c else False
    M.BALMask.apply(spec)
    masked_exactly(cx, spec, old, inside)


@scenario("C07", ["BALMask.check_catalog"])
def bal_columns(cx):
    M = cx.load("qsonic.masks")
    names = ['VMIN_CIV_450', 'VMAX_CIV_450', 'VMIN_CIV_2000',
             'VMAX_CIV_2000']
    miss = cx.choice("missing", [None] + names)
    n = cx.length("n", 1, conc=(1, 3))
    cat = cx.table("cat", n, TARGETID='i', **{
        k: 'f' for k in names if k != miss})
    _, ex = cx.call(M.BALMask.check_catalog, cat)
    if miss is None:
        cx.no_exc("accepted", ex)
    else:
        cx.check_raises("rejected", ex)


@scenario("C07", ["DLAMask.__init__", "DLAMask._read_catalog",
                  "DLAMask.apply", "DLAMask.get_all_dlas"], quick_s=300,
          bound="DLA catalogs with at most 2 (thorough: 3) rows; grids of "
          "any size; the transmission of one DLA enters by its contract")
def dla(cx):
    S = cx.load("qsonic.spectrum")
    M = cx.load("qsonic.masks")
    nd, zcols, local = cx.choice("cfg", [
        (1, ("Z_DLA",), False), (2, ("Z",), False),
        (2, ("Z_DLA", "Z"), True)] + ([
            (3, ("Z_DLA",), True), (3, ("Z", "Z_DLA"), False)]
            if cx.thorough or not cx.symbolic else []))
    ids = cx.array("dla_tid", nd, 'i', lo=1, hi=4)
    zd = cx.array("dla_z", nd, gt=0, hi=3)
    nhi = cx.array("dla_nhi", nd, lo=18, hi=22)
    cols = {"TARGETID": ids, "NHI": nhi}
    for c in zcols:
        # a second redshift column must not be mistaken for the DLA's
        cols[c] = zd if c == "Z_DLA" or "Z_DLA" not in zcols else \
            cx.array("other_z", nd, gt=0, hi=3)
    fname = os.path.join(cx.tmp(), "dla.fits")
    cx.put_file(fname, [("DLACAT", cx.table("dla", nd, **cols), {})])
    if cx.symbolic:
        spec, wave, n, z = forest(cx, S, ("B",))
    else:
        spec, wave, n, z = forest(cx, S, ("B", "R"), start=1800., step=20.,
                                  z=cx.real("z", gt=0.2, hi=2), conc=(2, 60))
    limit = cx.real("limit", gt=0, hi=1)
    tid = spec.targetid
    if cx.symbolic:
        import z3
        from vf.engine import Sc, cast, lift, E
        from vf import arr as A
        R = z3.RealSort()
        T = z3.Function("dla_transmission", R, R, R, R)

        def tr(wave, z_dla, nhi, *a, **k):
            zz, nn = toz(z_dla), toz(nhi)

            def one(w):
                t = T(cast(lift(w), 'f').v, zz, nn)
                E().fact(t > 0)
                return Sc('f', t)
            return A.unop(A.as_arr(wave), one, 'f')

        def toz(x):
            return cast(lift(x), 'f').v
        M.DLAMask.get_dla_flux = staticmethod(tr)
    old = snapshot(spec)
    f0, i0, w0 = old
    loc = None
    if local:
        other = cx.int("other_local", 1, 4)
        loc = cx.np().array([other, tid])
    mask = M.DLAMask(fname, local_targetids=loc, dla_mask_limit=limit)
    mask.apply(spec)
    trs = {a: [M.DLAMask.get_dla_flux(w0[a], zd[j], nhi[j])
               for j in range(nd)] for a in f0}

    def T_(a, k):
        t = 1.
        for j in range(nd):
            t = t * cx.ite(ids[j] == tid, trs[a][j][k], 1.)
        return t
    for a in f0:
        m = cx.n(w0[a])
        f, i = spec.forestflux[a], spec.forestivar[a]
        cx.check("sizes", cx.And(cx.eq(cx.n(f), m), cx.eq(cx.n(i), m)))

        def rule(k):
            blue = w0[a][k] < (1 + z) * 1215.67
            t = T_(a, k)
            core = cx.And(blue, t < limit)
            ff = cx.ite(core, 0., cx.ite(blue, f0[a][k] / t, f0[a][k]))
            ii = cx.ite(core, 0., cx.ite(blue, i0[a][k] * t * t, i0[a][k]))
            return cx.And(cx.eq(f[k], ff), cx.eq(i[k], ii),
                          cx.eq(spec.forestwave[a][k], w0[a][k]))
        cx.forall("footprint and correction", m, rule)
    none = cx.And(*[ids[j] != tid for j in range(nd)])
    for a in f0:
        f, i = spec.forestflux[a], spec.forestivar[a]
        cx.forall("no entry, no change", cx.n(w0[a]), lambda k: cx.Implies(
            none, cx.And(cx.eq(f[k], f0[a][k]), cx.eq(i[k], i0[a][k]))))


@scenario("C07", ["DLAMask.get_dla_flux", "DLAMask.get_optical_depth",
                  "DLAMask.voigt_tepper_garcia", "DLAMask.H_tepper_garcia"],
          sym=False, conc_n=200, bound="sampled inputs only: a float formula "
          "of transcendental functions, compared with rounding")
def dla_profile(cx):
    """Transmission of one DLA: exp of minus the Lya and Lyb optical depths
    with the Tepper-Garcia profile."""
    M = cx.load("qsonic.masks")
    np = cx.np()
    n = cx.length("n", 1, conc=(1, 8))
    wave = cx.sorted_array("wave", n, gt=0, start=3600., step=45.)
    zd, nhi = cx.real("zd", gt=1.5, hi=3), cx.real("nhi", lo=18, hi=22)
    b = cx.choice("b", [10., 25.])
    t = M.DLAMask.get_dla_flux(wave, zd, nhi, b) if b != 10. else \
        M.DLAMask.get_dla_flux(wave, zd, nhi)
    cx.check("size", cx.eq(cx.n(t), n))
    D = M.DLAMask
    pi = 3.141592653589793
    aij = pi * 4.803204e-10**2 / 9.109384e-28 / (LIGHT * 1e5)

    def tau(w, lam, f12, A12):
        gamma = A12 * lam * 1e-8 / 4 / pi / (LIGHT * 1e5)
        sig = b / LIGHT
        u = (w / (1 + zd) / lam - 1) / sig
        P = u * u + 1e-12
        Q = 1.5 / P
        R = np.exp(-P)
        H = R - gamma / sig / P / 1.77245385091 * (
            R * R * (4 * P * P + 7 * P + 4 + Q) - Q - 1)
        return H * aij * f12 * np.power(10., nhi - 13) * (lam / b) \
            / 1.77245385091

    def ok(k):
        s = tau(wave[k], 1215.67, 4.1641e-01, 6.2648e+08) + tau(
            wave[k], 1025.7220, 7.9142e-02, 1.6725e+08)
        return cx.eq(t[k], np.exp(-s))
    cx.forall("transmission", n, ok)


@scenario("C07", ["mpi_read_masks", "apply_masks"], quick_s=60,
          bound="at most 2 groups of quasars and 2 spectra")
def requested_masks(cx):
    """Exactly the requested masks are read, for the quasars of this rank (if
    any), and each is applied to every spectrum; short arms are then
    dropped."""
    from types import SimpleNamespace
    import numpy
    M = cx.load("qsonic.scripts.qsonic_fit")
    ng, ns = cx.choice("groups", [0, 1, 2]), cx.choice("ns", [0, 1, 2])
    sky, bal, dla = cx.flag("sky"), cx.flag("bal"), cx.flag("dla")
    q = []
    for g in range(ng):
        c = numpy.zeros(g + 1, dtype=[("TARGETID", "i8")])
        c["TARGETID"] = 10 * g + numpy.arange(g + 1)
        q.append(c)
    log = []

    def kind(tag):
        class K(Stand):
            def __init__(self, *a, **k):
                log.append((tag, a, k))

            def apply(self, spec):
                log.append(("apply", tag, spec))
        return K

    class Bal(metaclass=PartialType):
        @staticmethod
        def check_catalog(c):
            log.append(("check", c))

        @staticmethod
        def apply(spec):
            log.append(("apply", "bal", spec))
    undo = rebind([M, M.qsonic.masks], np=numpy, SkyMask=kind("sky"),
                  BALMask=Bal, DLAMask=kind("dla"))
    args = Partial(sky_mask="s" if sky else None, bal_mask=bal,
                   dla_mask="d" if dla else None)

    class Sp(Stand):
        def __init__(self, i):
            self.i = i

        def drop_short_arms(self, *a, **k):
            log.append(("drop", self.i))
    try:
        r, ex = cx.call(M.mpi_read_masks, q, args, None, 0)
        cx.no_exc("no failure", ex)
        cx.check("as many masks as requested", len(r) == sky + bal + dla)
        cx.check("sky mask file", [x[1][0] for x in log if x[0] == "sky"]
                 == (["s"] if sky else []))
        d = [x for x in log if x[0] == "dla"]
        cx.check("DLA mask file", [x[1][0] for x in d]
                 == (["d"] if dla else []))
        if d:
            t = d[0][1][1] if len(d[0][1]) > 1 else d[0][2].get(
                "local_targetids")
            want = [int(x) for c in q for x in c["TARGETID"]]
            cx.check("DLAs of the local quasars", t is None or set(want)
                     <= {int(x) for x in t})
        ck = [x for x in log if x[0] == "check"]
        cx.check("BAL columns are checked", not (bal and ng) or bool(ck))
        log.clear()
        M.apply_masks(r, [Sp(i) for i in range(ns)], 0)
    finally:
        undo()
    tags = [t for t, on in (("sky", sky), ("bal", bal), ("dla", dla)) if on]
    cx.check("every mask on every spectrum, once", sorted(
        (x[2].i, x[1]) for x in log if x[0] == "apply")
        == sorted((i, t) for i in range(ns) for t in tags))
    for i in range(ns if tags else 0):
        last = max(j for j, x in enumerate(log)
                   if x[0] == "apply" and x[2].i == i)
        cx.check("then short arms are dropped", ("drop", i) in log[last:])
