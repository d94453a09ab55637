"""C21: exposures get the continuum of their own coadd, pixel for pixel."""
from types import SimpleNamespace
from vf.run import scenario
from contracts.common import *

TRUSTED = ["reading, calibrating and masking of the exposures "
           "(mpi_read_calibrate_mask_select_spectra: C04, C06, C07, C11)"]
ASSUME = ["exposures and coadds are on the same wavelength grid (one grid per "
          "arm, DESI convention)", "no TARGETID occurs twice in the catalog "
          "(C01)"]
W0 = {"B": 3600., "R": 3840., "Z": 5760.}
DW = 0.8


def catrow(np_, tid, pix):
    r = np_.zeros(1, dtype=[("TARGETID", "i8"), ("HPXPIXEL", "i8"),
                            ("Z", "f8"), ("RA", "f8"), ("DEC", "f8"),
                            ("SURVEY", "U4")])[0]
    r["TARGETID"], r["HPXPIXEL"], r["Z"] = tid, pix, 2.5
    return r


def fit(spec, cont, cx, p):
    spec.cont_params['valid'] = True
    spec.cont_params['method'] = 'picca'
    spec.cont_params['cont'] = cont
    spec.cont_params['x'] = [p, 0.]
    return spec


def place(cx, spec, a, p, n=None, off=None):
    """Forest of the arm: any run of pixels of the grid."""
    if n is None:
        n = cx.length(f"{p}len_{a}", 1, conc=(1, 8))
        off = cx.int(f"{p}off_{a}", 0, None, conc=(0, 9))
    spec.forestwave[a] = cx.affine_grid(W0[a], DW, n, off)
    f = cx.array(f"{p}f_{a}", n)
    i = cx.array(f"{p}i_{a}", n, lo=0, pool=IVPOS)
    spec.forestflux[a] = f
    spec.forestivar[a] = i
    return n, off, f.copy(), i.copy()


@scenario("C21", ["mpi_read_exposures_after", "Spectrum.slice",
                  "Spectrum.drop_arm"], quick_s=120,
          note="any runs of pixels of the exposure and of its coadd")
def align(cx):
    """The continuum of the same wavelengths; the rest is removed."""
    import numpy
    S = cx.load("qsonic.spectrum")
    M = cx.load("qsonic.scripts.qsonic_fit")
    ce, cc = cx.choice("arms", [
        (("B",), ("B",)), (("B", "R"), ("B", "R")), (("B", "R"), ("R",)),
        (("B", "R"), ("B",)), (("B", "R", "Z"), ("R",)), (("B",), ("R",))])
    arms = tuple(a for a in "BRZ" if a in set(ce + cc))
    base, wave, n0, z = forest(
        cx, S, arms, "g", z=2.5, grid=(3600., DW, {
            a: int(round((W0[a] - 3600.) / DW)) for a in arms}))

    def mk(p, use):
        s, *_ = forest(cx, S, arms, p, share=(wave, n0), z=2.5)
        for a in arms:
            if a not in use:
                s.drop_arm(a)
        s.catrow = catrow(numpy, 7, 3)
        return s
    co, ex = mk("c", cc), mk("e", ce)
    pc = {a: place(cx, co, a, "c") for a in cc}
    pe = {a: place(cx, ex, a, "e") for a in ce}
    cont = {a: cx.array(f"cont_{a}", pc[a][0]) for a in cc}
    fit(co, {a: cont[a].copy() for a in cc}, cx, 1.5)
    M.mpi_read_calibrate_mask_select_spectra = lambda *a, **k: [ex]
    args = Partial(exposures="after", coadd_arms=cx.choice(
        "coadd", ["disable", "before", "after"]) if not cx.symbolic
        else "disable")
    out = M.mpi_read_exposures_after([co], [], args, None, 0)
    cx.check("the exposures are returned", len(out) == 1 and out[0] is ex)
    cx.check("arms of the coadd only", set(ex.forestwave) == set(
        a for a in ce if a in cc) and all(set(d) == set(ex.forestwave) for d in (
            ex.forestflux, ex.forestivar, ex.forestweight,
            ex.forestivar_sm)))
    cx.check("own copy", ex.cont_params is not co.cont_params)
    allin = True
    for a in ce:
        if a not in cc:
            continue
        (nc, oc, fc, ic), (ne, oe, fe, ie) = pc[a], pe[a]
        lo = cx.ite(oc > oe, oc, oe)
        h1, h2 = oc + nc, oe + ne
        hi = cx.ite(h1 < h2, h1, h2)
        c = ex.cont_params['cont'][a]
        if not cx.is_true(lo < hi):
            # nothing in common: no pixel of the arm may be used
            allin = False
            if cx.is_true(ex.cont_params['valid']):
                cx.check("nothing in common", cx.eq(
                    ex.forestwave[a].shape[0], 0))
            continue
        m = hi - lo
        cx.check("size", cx.And(*[cx.eq(v.shape[0], m) for v in (
            ex.forestwave[a], ex.forestflux[a], ex.forestivar[a],
            ex.forestweight[a], ex.forestivar_sm[a], c)]))
        cx.forall("wavelength", m, lambda k: cx.eq(
            ex.forestwave[a][k], W0[a] + (lo + k) * DW))
        cx.forall("data of the exposure", m, lambda k: cx.And(
            cx.eq(ex.forestflux[a][k], fe[lo - oe + k]),
            cx.eq(ex.forestivar[a][k], ie[lo - oe + k])))
        cx.forall("continuum of the same wavelength", m, lambda k: cx.eq(
            c[k], cont[a][lo - oc + k]))
    if allin:
        cx.check("valid", ex.cont_params['valid'])
    for a in cc:
        cx.check("the coadd is unchanged", cx.eq(
            co.cont_params['cont'][a].shape[0], pc[a][0]))
        cx.forall("the coadd is unchanged", pc[a][0], lambda k: cx.eq(
            co.cont_params['cont'][a][k], cont[a][k]))


@scenario("C21", ["mpi_read_exposures_after"], quick_s=150,
          bound="up to 3 coadds in 2 pixels in any order, up to 4 exposures")
def pairing(cx):
    """Every exposure is paired with the coadd of its own target; the
    exposures read are those of the valid coadds."""
    import numpy
    S = cx.load("qsonic.spectrum")
    M = cx.load("qsonic.scripts.qsonic_fit")
    nc = cx.choice("nc", [0, 1, 2, 3])
    perm = cx.choice("perm", [(5, 6, 7), (7, 6, 5), (6, 7, 5)])
    pixs = cx.choice("pix", [(1, 1, 1), (2, 1, 1), (1, 2, 1)])
    tids = perm[:nc]
    base, wave, n0, z = forest(cx, S, ("B",), "g", z=2.5,
                               grid=(3600., DW, {"B": 0}))

    def mk(p, t, px):
        s, *_ = forest(cx, S, ("B",), p, share=(wave, n0), z=2.5)
        s.catrow = catrow(numpy, t, px)
        return s
    pix = dict(zip(tids, pixs))
    conts = {t: cx.array(f"cont{t}", n0["B"]) for t in tids}
    cos = [fit(mk(f"c{t}", t, pix[t]), {"B": conts[t].copy()}, cx, t)
           for t in tids]
    te = [cx.choice(f"te{i}", list(range(nc))) for i in range(
        0 if not nc else 2 if cx.symbolic else cx.choice("ne", [0, 1, 4]))]
    exs = [mk(f"e{i}", tids[t], pix[tids[t]]) for i, t in enumerate(te)]
    calls = []

    def rd(q, maskers, args, comm, rank):
        calls.append(([x for x in q], maskers, args.exposures,
                      args.coadd_arms))
        return list(exs)
    M.mpi_read_calibrate_mask_select_spectra = rd
    mode = cx.choice("coadd", ["disable", "before", "after"]) if nc < 2 \
        or not cx.symbolic else "before"
    args = Partial(exposures="after", coadd_arms=mode)
    mk_ = object()
    out = M.mpi_read_exposures_after(cos, [mk_], args, None, 0)
    cx.check("read once, with the same masks", len(calls) == 1 and
             calls[0][1] == [mk_])
    q = calls[0][0]
    cx.check("exposures", calls[0][2] == "before")
    cx.check("arms coadded as requested", calls[0][3] == (
        "disable" if mode == "disable" else "before"))
    cx.check("targets of the valid coadds, each once", sorted(
        int(r["TARGETID"]) for b in q for r in b) == sorted(tids))
    cx.check("one batch for each pixel", len(q) == len(set(pix.values()))
             and all(len(set(int(r["HPXPIXEL"]) for r in b)) == 1
                     for b in q))
    cx.check("all exposures", len(out) == len(exs) and all(
        a is b for a, b in zip(out, exs)))
    for i, t in enumerate(te):
        e, t = exs[i], tids[t]
        cx.check("valid", e.cont_params['valid'])
        cx.check("parameters of its coadd", e.cont_params['x'][0] == t)
        cx.forall("continuum of its coadd", n0["B"], lambda k: cx.eq(
            e.cont_params['cont']['B'][k], conts[t][k]))
