"""C05: flagged or invalid pixels carry no information after loading."""
from vf.run import scenario
from contracts.common import *


@scenario("C05", ["Spectrum.__init__"])
def load_spectrum(cx):
    arms = cx.choice("arms", ARM_SETS)
    S = cx.load("qsonic.spectrum")
    n, wave, flux, ivar, mask, reso, nsp = {}, {}, {}, {}, {}, {}, None
    nsp = cx.length("nsp", 1, conc=(1, 3))
    idx = cx.int("idx", 0, nsp - 1)
    rk = cx.choice("reso", ["none", "2d", "3d"])
    for a in arms:
        n[a] = cx.length(f"n_{a}", 2, conc=(2, 7))
        wave[a] = cx.sorted_array(f"wave_{a}", n[a], gt=0)
        flux[a] = cx.array(f"flux_{a}", (nsp, n[a]), nan=True)
        ivar[a] = cx.array(f"ivar_{a}", (nsp, n[a]), nan=True, lo=None,
                           pool=IVPOOL)
        mask[a] = cx.array(f"mask_{a}", (nsp, n[a]), 'i', lo=0,
                           pool=[0, 0, 0, 1, 2, 8])
        if rk == "2d":
            reso[a] = cx.array(f"reso_{a}", (3, n[a]))
        elif rk == "3d":
            reso[a] = cx.array(f"reso_{a}", (nsp, 3, n[a]))
    z = cx.real("z", gt=0, hi=6)
    row = cx.row(TARGETID=cx.int("tid", 1), Z=z, RA=0.5, DEC=0.5,
                 HPXPIXEL=1)
    f0 = {a: flux[a].copy() for a in arms}
    i0 = {a: ivar[a].copy() for a in arms}
    m0 = {a: mask[a].copy() for a in arms}
    data = dict(wave=wave, flux=flux, ivar=ivar, mask=mask, reso=reso)
    spec = S.Spectrum.from_dictionary(row, data, idx)
    cx.check("catalog row kept", cx.eq(spec.targetid, row['TARGETID']))
    cx.check("arms", set(spec.flux) == set(arms) == set(spec.ivar))
    cx.check("reso arms", set(spec.reso) == (set(arms) if reso else set()))
    for a in arms:
        sf, si = spec.flux[a], spec.ivar[a]
        cx.check(f"size", cx.And(cx.eq(cx.n(sf), n[a]),
                                 cx.eq(cx.n(si), n[a])))

        def ok(k):
            bad = cx.Or(m0[a][idx, k] != 0, cx.isnan(f0[a][idx, k]),
                        cx.isnan(i0[a][idx, k]), i0[a][idx, k] < 0)
            return cx.And(
                cx.eq(sf[k], cx.ite(bad, 0., f0[a][idx, k])),
                cx.eq(si[k], cx.ite(bad, 0., i0[a][idx, k])))
        cx.forall("pixel rule", n[a], ok)
        # inputs untouched, no aliasing in either direction
        cx.forall("inputs unmodified", (nsp, n[a]), lambda s, k: cx.And(
            cx.eq(flux[a][s, k], f0[a][s, k]),
            cx.eq(ivar[a][s, k], i0[a][s, k]),
            cx.eq(mask[a][s, k], m0[a][s, k])))
        sf[:] = 7.0
        si[:] = 9.0
        cx.forall("no aliasing", n[a], lambda k: cx.And(
            cx.eq(flux[a][idx, k], f0[a][idx, k]),
            cx.eq(ivar[a][idx, k], i0[a][idx, k])))
        if rk == "none":
            continue
        r0 = reso[a].copy()
        cx.forall("reso", (3, n[a]), lambda d, k: cx.eq(
            spec.reso[a][d, k],
            r0[d, k] if rk == "2d" else r0[idx, d, k]))
        spec.reso[a][:] = 5.0
        cx.forall("no aliasing of the resolution", (3, n[a]), lambda d, k:
                  cx.eq(reso[a][d, k], r0[d, k]) if rk == "2d" else
                  cx.eq(reso[a][idx, d, k], r0[idx, d, k]))
