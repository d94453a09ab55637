"""C04: each quasar gets the data of its own row in the spectra file."""
import warnings

from vf.run import scenario

BOUND = ("at most 3 catalog rows and 4 file rows (values, identifiers, "
         "orders and the number of wavelengths unbounded)")
TRUSTED = ["in-memory fitsio stand-in: image slices [i, :] and table reads"]


def _file(cx, tag, nf, arms, waves, reso, tids, extra=()):
    """One spectra file: HDUs and a lookup of its contents."""
    hd = []
    cols = dict(TARGETID=tids)
    for c in extra:
        cols[c] = cx.array(f"{tag}.{c}", nf, 'i', lo=0)
    fm = cx.table(f"{tag}fm", nf, DUMMY=dict(kind='f'), **cols)
    hd.append(("FIBERMAP", fm, {}))
    d = {}
    for a in arms:
        nw = waves[a][0]
        hd.append((f"{a}_WAVELENGTH", waves[a][1], {}))
        for q, kw in (("FLUX", dict()), ("IVAR", dict(lo=0)),
                      ("MASK", dict(kind='i', lo=0, pool=[0, 0, 1]))):
            x = cx.array(f"{tag}.{a}.{q}", (nf, nw), **kw)
            d[a, q] = x.copy()
            hd.append((f"{a}_{q}", x, {}))
        if reso:
            x = cx.array(f"{tag}.{a}.RESO", (nf, 3, nw))
            d[a, "RESO"] = x.copy()
            hd.append((f"{a}_RESOLUTION", x, {}))
    return hd, d, fm


def _ids(cx, name, n, base=()):
    """n distinct identifiers."""
    if cx.symbolic:
        a = cx.array(name, n, 'i', lo=1)
        for i in range(n):
            for j in range(i):
                cx.assume(cx.Not(cx.eq(a[i], a[j])))
        return a
    np = cx.np()

    def gen():
        b = [int(x) for x in base]
        r = b + cx.r.sample([x for x in range(1, 9) if x not in b],
                            n - len(b))
        cx.r.shuffle(r)
        return np.array(r)
    v = cx._get(name, gen)
    if len(set(v.tolist())) != n:
        cx.assume(False)
    return v


def _spec_ok(cx, spec, arms, waves, d, r, reso, reso2=None):
    """The spectrum holds file row r."""
    cs = []
    cx.check("arms", set(spec.flux) == set(arms))
    for a in arms:
        nw = waves[a][0]
        cx.check("pixels", cx.eq(cx.n(spec.flux[a]), nw))

        def px(k, a=a):
            m = d[a, "MASK"][r, k] != 0
            return cx.And(
                cx.eq(spec.flux[a][k], cx.ite(m, 0., d[a, "FLUX"][r, k])),
                cx.eq(spec.ivar[a][k], cx.ite(m, 0., d[a, "IVAR"][r, k])))
        cx.forall("flux and ivar of its own file row", nw, px)
        cx.forall("wavelengths of the file", nw, lambda k, a=a: cx.eq(
            spec.wave[a][k], waves[a][1][k]))
        if reso2 is not None:
            cx.forall("resolution", (3, nw), lambda i, k, a=a: cx.eq(
                spec.reso[a][i, k], reso2[a][i, k]))
        elif reso:
            cx.forall("resolution of its own file row", (3, nw),
                      lambda i, k, a=a: cx.eq(
                          spec.reso[a][i, k], d[a, "RESO"][r, i, k]))
        else:
            cx.check("no resolution", not spec.reso)


def _waves(cx, arms):
    w = {}
    for a in arms:
        n = cx.length(f"nw_{a}", 2, conc=(2, 5))
        w[a] = (n, cx.sorted_array(f"wave_{a}", n, gt=100 if a == "B"
                                   else 500))
    return w


def _pair(cx, spec, arms, waves, files, reso, reso2=None):
    """Find, on this path, the file row with the spectrum's own TARGETID."""
    hd, d, fm, nf = files
    for r in range(nf):
        if cx.is_true(cx.eq(fm["TARGETID"][r], spec.targetid)):
            _spec_ok(cx, spec, arms, waves, d, r, reso, reso2)
            return r
    cx.check("the target is in the file", False)


LEVEL = "other"     # every contract carries a bound (see scenarios)


@scenario("C04", ["read_onehealpix_file_data_coadd",
                  "get_spectra_reader_function", "_read_onehealpix_file",
                  "_read_imagehdu", "_read_resoimage",
                  "generate_spectra_list_from_data", "Spectrum.__init__"],
          bound=BOUND, quick_s=400)
def coadd(cx):
    warnings.simplefilter("ignore")
    opts = [((2,), (3,), False, True), ((2,), (2,), False, False),
            ((2,), (2,), True, True), ((1, 1), (1, 2), True, False)]
    if cx.thorough or not cx.symbolic:
        opts += [((3,), (2,), False, True), ((1, 2), (2, 2), False, True),
                 ((3,), (4,), True, True)]
    ncs, nfs, skip, inf = cx.choice("sizes", opts)
    arms = ["B", "R"] if inf and not skip else ["B"]
    waves = _waves(cx, arms)
    surveys = ["main", "sv1"][:len(ncs)]
    pix = 1234
    files = {}
    parts = []
    for s, nc, nf in zip(surveys, ncs, nfs):
        tids = _ids(cx, f"ftid_{s}", nf)
        hd, d, fm = _file(cx, s, nf, arms, waves, inf, tids)
        files[s] = (hd, d, fm, nf)
        cx.put_file(f"{cx.tmp()}/{s}/dark/{pix//100}/{pix}/"
                    f"coadd-{s}-dark-{pix}.fits", hd)
    ntot = sum(ncs)
    ctid = _ids(cx, "ctid", ntot)
    sv = cx.np().array([s for s, nc in zip(surveys, ncs) for _ in range(nc)])
    cat = cx.table("cat", ntot, TARGETID=ctid, SURVEY=sv, Z=dict(
        kind='f', lo=2, hi=3), RA=dict(kind='f', lo=0), DEC=dict(
        kind='f', lo=0), HPXPIXEL=cx.np().array([pix] * ntot))
    IO = cx.load("qsonic.io")
    rd = IO.get_spectra_reader_function(
        cx.tmp(), arms, False, skip, False, False, False)
    out = rd(cat.copy())
    # one spectrum for each catalog row that has a file row
    found = []
    off = 0
    for s, nc, nf in zip(surveys, ncs, nfs):
        for i in range(off, off + nc):
            fm = files[s][2]
            if any(cx.is_true(cx.eq(fm["TARGETID"][r], cat["TARGETID"][i]))
                   for r in range(nf)):
                found.append(i)
        off += nc
    cx.check("one spectrum per catalog row present in its file",
             len(out) == len(found))
    used = []
    for sp in out:
        hit = None
        for i in found:
            if cx.is_true(cx.eq(cat["TARGETID"][i], sp.targetid)):
                hit = i
        cx.check("spectrum of a requested quasar", hit is not None
                 and hit not in used)
        used.append(hit)
        s = str(sv[hit])
        cx.check("catalog row is its own", cx.And(
            cx.eq(sp.z_qso, cat["Z"][hit]), cx.eq(sp.ra, cat["RA"][hit]),
            cx.eq(sp.dec, cat["DEC"][hit])))
        _pair(cx, sp, arms, waves, files[s], inf and not skip)


@scenario("C04", ["read_onehealpix_file_mock", "_read_true_continuum",
                  "_read_onehealpix_file", "_read_imagehdu"],
          bound=BOUND, quick_s=400)
def mock(cx):
    warnings.simplefilter("ignore")
    nc, nf, tc = cx.choice("sizes", [
        (2, 3, False), (2, 2, True), (1, 2, True)] + (
        [(3, 2, False), (3, 3, True)]
        if cx.thorough or not cx.symbolic else []))
    skip = cx.flag("skip resomat")
    arms = ["B"] if skip else ["B", "R"]
    waves = _waves(cx, arms)
    pix = 345
    tids = _ids(cx, "ftid", nf)
    hd, d, fm = _file(cx, "f", nf, arms, waves, False, tids)
    base = f"{cx.tmp()}/{pix//100}/{pix}"
    cx.put_file(f"{base}/spectra-16-{pix}.fits", hd)
    th, reso2 = [], None
    ntc = nf + 1 if nc == 1 else nf
    ncw = cx.length("ncw", 2, conc=(2, 5))
    # truth rows: the same targets (and one more) in any order
    ttid = _ids(cx, "ttid", ntc, () if cx.symbolic else tids)
    for i in range(nf):
        cx.assume(cx.Or(*[cx.eq(ttid[j], tids[i]) for j in range(ntc)]))
    cont = cx.array("tcont", (ntc, ncw), gt=0)
    tt = cx.table("tt", ntc, TARGETID=ttid, TRUE_CONT=cont)
    th.append(("TRUE_CONT", tt, dict(WMIN=100., WMAX=200., DWAVE=0.5)))
    if not skip:
        reso2 = {}
        for a in arms:
            reso2[a] = cx.array(f"reso2_{a}", (3, waves[a][0]))
            th.append((f"{a}_RESOLUTION", reso2[a].copy(), {}))
    cx.put_file(f"{base}/truth-16-{pix}.fits", th)
    ctid = _ids(cx, "ctid", nc)
    cat = cx.table("cat", nc, TARGETID=ctid, Z=dict(
        kind='f', lo=2, hi=3), RA=dict(kind='f', lo=0), DEC=dict(
        kind='f', lo=0), HPXPIXEL=cx.np().array([pix] * nc))
    IO = cx.load("qsonic.io")
    rd = IO.get_spectra_reader_function(
        cx.tmp(), arms, True, skip, tc, False, False)
    out = rd(cat.copy())
    found = [i for i in range(nc) if any(cx.is_true(cx.eq(
        tids[r], ctid[i])) for r in range(nf))]
    cx.check("one spectrum per catalog row present in its file",
             len(out) == len(found))
    used = []
    for sp in out:
        hit = None
        for i in found:
            if cx.is_true(cx.eq(ctid[i], sp.targetid)):
                hit = i
        cx.check("spectrum of a requested quasar", hit is not None
                 and hit not in used)
        used.append(hit)
        cx.check("catalog row is its own", cx.And(
            cx.eq(sp.z_qso, cat["Z"][hit]), cx.eq(sp.ra, cat["RA"][hit])))
        _pair(cx, sp, arms, waves, (hd, d, fm, nf), False, reso2)
        if tc:
            for j in range(ntc):
                if cx.is_true(cx.eq(ttid[j], sp.targetid)):
                    cx.forall("true continuum of its own truth row", ncw,
                              lambda k: cx.eq(sp.cont_params["true_data"][k],
                                              cont[j, k]))
            cx.check("true continuum grid", cx.And(
                cx.eq(sp.cont_params["true_data_w1"], 100.),
                cx.eq(sp.cont_params["true_data_dwave"], 0.5)))
        else:
            cx.check("no true continuum", "true_data" not in sp.cont_params)


EXT = ["PETAL_LOC", "FIBER", "NIGHT", "EXPID", "TILEID"]


@scenario("C04", ["read_onehealpix_file_data_uncoadd",
                  "_read_onehealpix_file", "_read_imagehdu"],
          bound=BOUND, quick_s=400)
def exposures(cx):
    warnings.simplefilter("ignore")
    ncs, nfs = cx.choice("sizes", [((2,), (3,)), ((1,), (3,)),
                                   ((1, 1), (2, 2))])
    arms = ["B"]
    skip = cx.flag("skip")
    waves = _waves(cx, arms)
    surveys = ["main", "sv1"][:len(ncs)]
    pix = 77
    files = {}
    for s, nc, nf in zip(surveys, ncs, nfs):
        tids = cx.array(f"ftid_{s}", nf, 'i', lo=1, pool=[1, 2, 3])
        hd, d, fm = _file(cx, s, nf, arms, waves, True, tids, EXT)
        files[s] = (hd, d, fm, nf)
        cx.put_file(f"{cx.tmp()}/{s}/dark/{pix//100}/{pix}/"
                    f"spectra-{s}-dark-{pix}.fits", hd)
    ntot = sum(ncs)
    ctid = _ids(cx, "ctid", ntot)
    sv = cx.np().array([s for s, nc in zip(surveys, ncs) for _ in range(nc)])
    cat = cx.table("cat", ntot, TARGETID=ctid, SURVEY=sv, Z=dict(
        kind='f', lo=2, hi=3), RA=dict(kind='f', lo=0), DEC=dict(
        kind='f', lo=0), HPXPIXEL=cx.np().array([pix] * ntot))
    IO = cx.load("qsonic.io")
    rd = IO.get_spectra_reader_function(
        cx.tmp(), arms, False, skip, False, False, True)
    out, ex = cx.call(rd, cat.copy())
    cx.no_exc("reads", ex)
    want = []
    off = 0
    for s, nc, nf in zip(surveys, ncs, nfs):
        fm = files[s][2]
        for r in range(nf):
            for i in range(off, off + nc):
                if cx.is_true(cx.eq(fm["TARGETID"][r], ctid[i])):
                    want.append((s, r, i))
        off += nc
    cx.check("one spectrum per exposure of the requested targets",
             len(out) == len(want))
    # every spectrum is one of the wanted exposures, each at most once; with
    # the count this pairs them off.  Exposures with identical identifiers
    # are told apart by their data only, so identity is tried per candidate.
    for s, r, i in want:
        fm, d = files[s][2], files[s][1]
        cands = []
        for sp in out:
            c = cx.And(cx.eq(sp.targetid, ctid[i]),
                       *[cx.eq(sp.catrow[e], fm[e][r]) for e in EXT])
            same = cx.And(c, cx.eq(sp.z_qso, cat["Z"][i]), *[
                cx.And(*[cx.eq(sp.flux[a][k], cx.ite(
                    d[a, "MASK"][r, k] != 0, 0., d[a, "FLUX"][r, k]))
                    for a in arms for k in cx.each(waves[a][0], None)])])
            cands.append(same)
        cx.check("every exposure row appears with its own data",
                 cx.Or(*cands))


@scenario("C04", ["read_onetile_coaddfile_data", "_read_onehealpix_file"],
          bound=BOUND, quick_s=300)
def tile(cx):
    warnings.simplefilter("ignore")
    ncs, nfs = cx.choice("sizes", [((2,), (2,)), ((1, 1), (1, 2))] + (
        [((2,), (3,)), ((1, 2), (2, 2))]
        if cx.thorough or not cx.symbolic else []))
    arms = ["B"]
    skip = cx.flag("skip")
    waves = _waves(cx, arms)
    petals = [3, 7][:len(ncs)]
    files = {}
    til, ln = 80605, 20210205
    for p, nc, nf in zip(petals, ncs, nfs):
        tids = _ids(cx, f"ftid_{p}", nf)
        hd, d, fm = _file(cx, f"p{p}", nf, arms, waves, True, tids)
        files[p] = (hd, d, fm, nf)
        cx.put_file(f"{cx.tmp()}/{til}/{ln}/coadd-{p}-{til}-thru{ln}.fits",
                    hd)
    ntot = sum(ncs)
    np = cx.np()
    ctid = _ids(cx, "ctid", ntot)
    pl = [p for p, nc in zip(petals, ncs) for _ in range(nc)]
    cat = cx.table("cat", ntot, TARGETID=ctid, Z=dict(
        kind='f', lo=2, hi=3), RA=dict(kind='f', lo=0), DEC=dict(
        kind='f', lo=0), HPXPIXEL=np.array([5] * ntot), TILEID=np.array(
        [til] * ntot), LASTNIGHT=np.array([ln] * ntot),
        PETAL_LOC=np.array(pl))
    IO = cx.load("qsonic.io")
    rd = IO.get_spectra_reader_function(
        cx.tmp(), arms, False, skip, False, True, False)
    out = rd(cat.copy())
    found = [i for i in range(ntot) if any(cx.is_true(cx.eq(
        files[pl[i]][2]["TARGETID"][r], ctid[i]))
        for r in range(files[pl[i]][3]))]
    cx.check("one spectrum per catalog row present in its file",
             len(out) == len(found))
    used = []
    for sp in out:
        hit = None
        for i in found:
            if cx.is_true(cx.eq(ctid[i], sp.targetid)):
                hit = i
        cx.check("spectrum of a requested quasar", hit is not None
                 and hit not in used)
        used.append(hit)
        cx.check("catalog row is its own", cx.eq(sp.z_qso, cat["Z"][hit]))
        _pair(cx, sp, arms, waves, files[pl[hit]], not skip)
