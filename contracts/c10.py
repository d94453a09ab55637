"""C10: coadding arms is the weighted mean on the common grid."""
from vf.run import scenario
from contracts.common import *

ASSUME = ["the arms' wavelengths lie on one lattice w0 + (offset + k)*dw with "
          "integer offsets",
          "at least one forest pixel is unmasked (coadd_arms_forest)"]


def _lattice(cx, arms, dw=None):
    """Arms on one lattice; returns grid and the offsets from the lowest."""
    w0 = cx.real("w0", gt=100, pool=[3600., 1000.])
    if not cx.symbolic:
        dw = cx.choice("dw", [0.5, 0.8, 0.75, 0.8])
    elif dw is None:
        dw = cx.real("dw", gt=0, hi=5)
    off = {arms[0]: 0}
    for a in arms[1:]:
        off[a] = cx.int(f"off_{a}", -8, 12)
    if cx.symbolic:
        cx.step_hint(dw)
    return (w0, dw, off)


def _extent(cx, off, n, arms):
    """First lattice index and number of pixels of the common grid."""
    lo, hi = off[arms[0]], off[arms[0]] + n[arms[0]]
    for a in arms[1:]:
        lo = off[a] if cx.is_true(off[a] < lo) else lo
        hi = off[a] + n[a] if cx.is_true(off[a] + n[a] > hi) else hi
    return lo, hi - lo


def _cover(cx, arms, off, n, lo):
    """For grid pixel g: [(covered?, index in arm)] per arm."""
    def f(g):
        out = []
        for a in arms:
            k = g - (off[a] - lo)
            out.append((a, cx.And(k >= 0, k < n[a]), k))
        return out
    return f


def _average(cx, cov, g, w, iv, fl):
    """Weighted mean flux and propagated ivar at pixel g."""
    sw, swf, sv = 0., 0., 0.
    for a, c, k in cov(g):
        kk = cx.ite(c, k, 0)
        wk, ik, fk = w[a][kk], iv[a][kk], fl[a][kk]
        sw = sw + cx.ite(c, wk, 0.)
        swf = swf + cx.ite(c, wk * fk, 0.)
        sv = sv + cx.ite(cx.And(c, ik > 0), wk * wk / cx.ite(
            ik > 0, ik, 1.), 0.)
    return sw, swf, sv


def _reso_rule(cx, cov, g, d, R, ndia, w, r):
    mx = max(ndia.values())
    num, den = 0., 0.
    for a, c, k in cov(g):
        kk = cx.ite(c, k, 0)
        wk = cx.ite(w[a][kk] == 0, 1e-8, w[a][kk])
        pad = (mx - ndia[a]) // 2
        dd = d - pad
        inside = cx.And(dd >= 0, dd < ndia[a])
        v = cx.ite(inside, R[a][cx.ite(inside, dd, 0), kk], 0.)
        num = num + cx.ite(c, wk * v, 0.)
        den = den + cx.ite(c, wk, 0.)
    return cx.ite(den > 0, cx.eq(r * den, num), cx.eq(r, 0.))


CFG = [(("B", "R"), None), (("B", "R"), {"B": 3, "R": 3}),
       (("B", "R"), {"B": 3, "R": 5}), (("R", "B"), {"B": 5, "R": 3})]
CFG3 = [(("B", "R", "Z"), None), (("B",), {"B": 3})]


@scenario("C10", ["Spectrum.simple_coadd", "Spectrum._set_coadd_wave"],
          quick_s=400)
def full_spectrum(cx):
    S = cx.load("qsonic.spectrum")
    arms, ndia = cx.choice("cfg", CFG + (
        CFG3 if cx.thorough or not cx.symbolic else []))
    grid = _lattice(cx, arms)
    off = grid[2]
    spec, wave, n, z = mkspec(cx, S, arms, grid=grid, reso=ndia)
    lo, m = _extent(cx, off, n, arms)
    cov = _cover(cx, arms, off, n, lo)
    iv = {a: spec.ivar[a].copy() for a in arms}
    fl = {a: spec.flux[a].copy() for a in arms}
    R = {a: spec.reso[a].copy() for a in arms} if ndia else {}
    spec.simple_coadd()
    cx.check("one arm", set(spec.flux) == set(spec.ivar) == set(spec.wave)
             == {"brz"} and set(spec.reso) == ({"brz"} if ndia else set()))
    W, F, I = spec.wave["brz"], spec.flux["brz"], spec.ivar["brz"]
    cx.check("common grid size", cx.And(
        cx.eq(cx.n(W), m), cx.eq(cx.n(F), m), cx.eq(cx.n(I), m)))
    cx.forall("common grid", m, lambda g: cx.eq(
        W[g], grid[0] + (lo + g) * grid[1]))

    def rule(g):
        sw, swf, sv = _average(cx, cov, g, iv, iv, fl)
        return cx.ite(sw > 0, cx.And(cx.eq(F[g] * sw, swf),
                                     cx.eq(I[g], sw)),
                      cx.And(cx.eq(F[g], 0.), cx.eq(I[g], 0.)))
    cx.forall("weighted mean", m, rule)
    if ndia:
        r = spec.reso["brz"]
        mx = max(ndia.values())
        cx.check("resolution shape", cx.And(
            cx.eq(r.shape[0], mx), cx.eq(r.shape[1], m)))
        cx.forall("resolution", (mx, m), lambda d, g: _reso_rule(
            cx, cov, g, d, R, ndia, iv, r[d, g]))


@scenario("C10", ["Spectrum.coadd_arms_forest"], quick_s=400,
          bound="symbolic run with the pixel size fixed to 0.5 (any start, "
          "offsets and lengths)")
def forest_arms(cx):
    S = cx.load("qsonic.spectrum")
    (arms, ndia), state, interp = cx.choice("cfg", [
        (CFG[0], "none", False), (CFG[0], "valid", True),
        (CFG[2], "none", False), (CFG[1], "valid", False)] + ([
            (CFG[3], "valid", True), (CFG3[0], "valid", True),
            (CFG3[1], "none", False), (CFG3[1], "valid", True)]
            if cx.thorough or not cx.symbolic else []))
    grid = _lattice(cx, arms, 0.5)
    off = grid[2]
    spec, wave, n, z = forest(cx, S, arms, grid=grid, reso=ndia)
    lo, m = _extent(cx, off, n, arms)
    cov = _cover(cx, arms, off, n, lo)
    vl, et = cx.fun("varlss", lo=0), cx.fun("eta", gt=0)
    cont = {}
    if state == "valid":
        cont = {a: cx.array(f"cont_{a}", n[a], gt=0) for a in arms}
        spec.cont_params["cont"] = dict(cont)
        spec.cont_params["valid"] = True
        # weights as left by an earlier step: any positive number on
        # unmasked pixels
        wt = {a: cx.array(f"weight_{a}", n[a], gt=0) for a in arms}
        for a in arms:
            wt[a][spec.forestivar[a] == 0] = 0.
        spec._forestweight = dict(wt)
    old = snapshot(spec)
    fl, iv, _ = old
    w = {a: spec.forestweight[a].copy() for a in arms}
    cx.assume(cx.Or(*[cx.exists(n[a], lambda k: iv[a][k] > 0)
                      for a in arms]))
    R = {a: spec.forestreso[a].copy() for a in arms} if ndia else {}
    if interp:
        spec.coadd_arms_forest(vl, et)
    else:
        spec.coadd_arms_forest()
    ds = dict(wave=spec.forestwave, flux=spec.forestflux,
              ivar=spec.forestivar, sm=spec.forestivar_sm,
              weight=spec.forestweight)
    cx.check("one arm", all(set(d) == {"brz"} for d in ds.values())
             and set(spec.forestreso) == ({"brz"} if ndia else set())
             and set(spec.cont_params["cont"]) == (
                 {"brz"} if cont else set())
             and set(spec.mean_snr) == {"brz"})
    ds = {k: d["brz"] for k, d in ds.items()}
    cx.check("common grid size", cx.And(
        *[cx.eq(cx.n(d), m) for d in ds.values()]))
    W, F, I = ds["wave"], ds["flux"], ds["ivar"]
    cx.check("grid start", cx.eq(W[0], grid[0] + lo * grid[1]))
    cx.forall("common grid", m, lambda g: cx.eq(
        W[g], grid[0] + (lo + g) * grid[1]))

    def rule(g):
        sw, swf, sv = _average(cx, cov, g, w, iv, fl)
        return cx.ite(sw > 0, cx.eq(F[g] * sw, swf), cx.eq(F[g], 0.))

    def irule(which):
        def f(g):
            sw, swf, sv = _average(cx, cov, g, w, iv, fl)
            n = sum(cx.ite(c, 1, 0) for a, c, k in cov(g))
            return cx.Implies(which(n), cx.ite(
                sw > 0, cx.And(sv > 0, cx.eq(I[g], sw * sw / cx.ite(
                    sv > 0, sv, 1.))), cx.eq(I[g], 0.)))
        return f
    cx.forall("weighted mean", m, rule)
    cx.forall("ivar of the mean, one arm", m, irule(lambda n: n <= 1))
    cx.forall("ivar of the mean, several arms", m, irule(lambda n: n > 1))
    if cont:
        C = spec.cont_params["cont"]["brz"]
        cx.check("continuum size", cx.eq(cx.n(C), m))

        def crule(g):
            cs = [(c, cx.eq(C[g], cont[a][cx.ite(c, k, 0)]))
                  for a, c, k in cov(g)]
            return cx.ite(cx.Or(*[c for c, _ in cs]),
                          cx.Or(*[cx.And(c, v) for c, v in cs]), C[g] > 0)
        cx.forall("continuum", m, crule)
        e = et(W) if interp else None
        v = vl(W) if interp else None
        cx.forall("weights reset", m, lambda g: cx.And(
            cx.eq(ds["sm"][g], I[g]), cx.eq(
                ds["weight"][g], I[g] if not interp else
                I[g] / (e[g] + I[g] * (v[g] * C[g]**2)))))
    else:
        cx.forall("weights reset", m, lambda g: cx.And(
            cx.eq(ds["sm"][g], I[g]), cx.eq(ds["weight"][g], I[g])))
    if ndia:
        r = spec.forestreso["brz"]
        mx = max(ndia.values())
        cx.check("resolution shape", cx.And(
            cx.eq(r.shape[0], mx), cx.eq(r.shape[1], m)))
        cx.forall("resolution", (mx, m), lambda d, g: _reso_rule(
            cx, cov, g, d, R, ndia, w, r[d, g]))
    if not cx.symbolic:     # the sum itself is proved in C06
        np = cx.np()
        cnt = np.sum(I > 0)
        cx.check("mean snr", cx.eq(
            spec.mean_snr["brz"], 0. if cnt == 0 else
            np.dot(np.sqrt(I), F) / cnt))
