"""C22: inconsistent options are rejected before any data is read."""
import itertools
from types import SimpleNamespace
from vf.run import scenario
from contracts.common import *

TRUSTED = ["argparse", "MPI collectives (lock-step stand-in)"]
ASSUME = []
DEF = dict(arms=["B", "R"], true_continuum=False, continuum_model="picca",
           mock_analysis=False, fiducial_meanflux=None, fiducial_varlss=None,
           input_continuum_dir=None, tile_format=False, save_by_hpx=False,
           exposures="disable", wave1=3600., wave2=6000., forest_w1=1050.,
           forest_w2=1180., coadd_arms="before")


def conflict(a):
    """The documented conflicts, on the options as given by the user."""
    true = a.true_continuum or a.continuum_model == "true"
    return bool(
        (true and not a.mock_analysis)
        or (true and not a.fiducial_meanflux)
        or (true and not a.fiducial_varlss)
        or (true and a.input_continuum_dir)
        or (a.continuum_model == "input" and not a.input_continuum_dir)
        or (a.mock_analysis and a.tile_format)
        or (a.tile_format and a.save_by_hpx)
        or (a.exposures != "disable" and a.tile_format))


@scenario("C22", ["args_logic_fnc_qsonic_fit"], quick_s=60, conc_n=10,
          note="every combination of the options (1728 combinations, "
          "exhaustive) with ordered, equal or reversed limits")
def options(cx):
    """Accepted exactly when there is no conflict."""
    M = cx.load("qsonic.scripts.qsonic_fit")
    err = []
    M.logging = Quiet(err)
    tile, mock = cx.flag("tile"), cx.flag("mock")
    for tc, mod, mf, vl, ic, hp, ex, wv, fw in itertools.product(
            (False, True), ("picca", "true", "input"), (None, "m"),
            (None, "v"), (None, "d"), (False, True),
            ("disable", "before", "after"), (1, 0, -1), (1, 0, -1)):
        d = dict(DEF, arms=["R", "B", "R"])
        d.update(true_continuum=tc, continuum_model=mod, mock_analysis=mock,
                 fiducial_meanflux=mf, fiducial_varlss=vl,
                 input_continuum_dir=ic, tile_format=tile, save_by_hpx=hp,
                 exposures=ex, wave2=3600. + wv, forest_w2=1050. + fw)
        user = SimpleNamespace(**d)
        a = Partial(**d)
        del err[:]
        ok = M.args_logic_fnc_qsonic_fit(a)
        want = not conflict(user) and wv > 0 and fw > 0
        if bool(ok) != want:
            cx.check(f"accepted iff consistent: {d}", False)
            return
        if not want and not err:
            cx.check(f"every rejection is reported: {d}", False)
            return
        if ok:
            true = tc or mod == "true"
            if a.continuum_model != (
                    "true" if true else "input" if ic else "picca") or \
                    bool(a.true_continuum) != true:
                cx.check(f"model: {d}", False)
                return
            if sorted(a.arms) != ["B", "R"]:
                cx.check("arms, each once", False)
                return
    cx.check("accepted iff consistent", True)


@scenario("C22", ["args_logic_fnc_qsonic_fit"], quick_s=30)
def limits(cx):
    """Any numbers: accepted exactly when both ranges are not empty."""
    M = cx.load("qsonic.scripts.qsonic_fit")
    M.logging = Quiet()
    v = {k: cx.real(k, pool=[1., 2., 3600., 6000., 1050.])
         for k in ("wave1", "wave2", "forest_w1", "forest_w2")}
    a = Partial(**dict(DEF, **v))
    ok = M.args_logic_fnc_qsonic_fit(a)
    want = cx.And(v["wave2"] > v["wave1"], v["forest_w2"] > v["forest_w1"])
    cx.check("ranges", cx.is_true(want) == bool(ok))


@scenario("C22", ["_float_range"], quick_s=30)
def bounded(cx):
    """Accepts exactly the closed range; everything else is refused."""
    import argparse
    M = cx.load("qsonic.io")
    lo = cx.real("lo", lo=-9, hi=9, pool=[0., -1.])
    hi = cx.real("hi", lo=-9, hi=9, pool=[1., 2.])
    f = M._float_range(lo, hi)
    x = cx.real("x", pool=[0., 1., 0.5, -0.5, 2., -1., 3., 1.0000001])
    r, ex = cx.call(f, x if cx.symbolic else repr(x))
    inside = cx.is_true(cx.And(lo <= x, x <= hi))
    if inside:
        cx.no_exc("accepted", ex)
        if ex is None:
            cx.check("value", cx.eq(r, x))
    else:
        cx.check("refused", isinstance(ex, argparse.ArgumentTypeError))
    if not cx.symbolic:
        for s in ("nan", "inf", "-inf", "abc", "", "1e400"):
            r, ex = cx.call(f, s)
            cx.check("refused " + s, isinstance(
                ex, argparse.ArgumentTypeError))


@scenario("C22", ["mpi_parse"], quick_s=30, bound="1 to 3 ranks, any outcome "
          "of the parser and of the check")
def ranks(cx):
    """All ranks get the same options, or all ranks stop."""
    size = cx.choice("size", [1, 2, 3])
    what = cx.choice("outcome", ["ok", "conflict", "parser"])
    seen = []

    def body(comm, load):
        U = load("qsonic.mpi_utils")

        class P:
            def parse_args(self, o=None):
                seen.append((comm.Get_rank(), o))
                if what == "parser":
                    raise SystemExit(2)
                return SimpleNamespace(x=[1, 2])

        def ex(code=None):
            raise Stop()
        U.exit = ex
        return U.mpi_parse(P(), comm, comm.Get_rank(), ["-a"],
                           args_logic_fnc=lambda a: what == "ok")

    class Stop(Exception):
        pass
    out = cx.world(size, body)
    cx.check("parsed on one rank", seen == [(0, ["-a"])])
    for r, ex in out:
        if what == "ok":
            cx.no_exc("accepted", ex)
            cx.check("same options", r.x == [1, 2])
        else:
            cx.check("every rank stops", isinstance(ex, (Stop, SystemExit)))


@scenario("C22", ["mpi_run_all (qsonic_fit)", "get_parser"], sym=False,
          conc_n=25, bound="sampled command lines, 1 to 3 ranks")
def program(cx):
    """Real command lines: nothing is read or written when rejected."""
    import os
    import sys
    size = cx.choice("size", [1, 2, 3])
    d = cx.tmp()
    argv = ["qsonic-fit", "-i", d + "/in", "--catalog", d + "/c.fits",
            "-o", d + "/out"]
    a = dict(DEF)
    bad = False
    if cx.flag("true"):
        a["true_continuum"] = True
        argv.append("--true-continuum")
    m = cx.choice("model", ["picca", "true", "input"])
    a["continuum_model"] = m
    argv += ["--continuum-model", m]
    for k in ("mock_analysis", "tile_format", "save_by_hpx"):
        if cx.flag(k):
            a[k] = True
            argv.append("--" + k.replace("_", "-"))
    for k in ("fiducial_meanflux", "fiducial_varlss", "input_continuum_dir"):
        if cx.flag(k):
            a[k] = "x"
            argv += ["--" + k.replace("_", "-"), "x"]
    a["exposures"] = cx.choice("exposures", ["disable", "before", "after"])
    argv += ["--exposures", a["exposures"]]
    sk = cx.choice("skip", [None, "0", "1", "0.3", "-0.1", "1.1", "nan",
                            "x"])
    if sk is not None:
        argv += [f"--skip={sk}"]
        bad = sk in ("-0.1", "1.1", "nan", "x")
    w2 = cx.choice("wave2", [6000., 3600., 3000.])
    argv += ["--wave2", str(w2)]
    bad = bad or w2 <= 3600 or conflict(SimpleNamespace(**a))
    read = []

    class Stop(Exception):
        pass

    class Go(Exception):
        pass

    def body(comm, load):
        M = load("qsonic.scripts.qsonic_fit")
        U = load("qsonic.mpi_utils")

        def ex(code=None):
            raise Stop()
        U.exit = ex

        def rd(*a, **k):
            read.append(a)
            raise Go()
        M.qsonic.catalog.mpi_get_local_queue = rd
        M.mpi_run_all(comm, comm.Get_rank(), size)
    old, olderr = sys.argv, sys.stderr
    sys.argv = argv
    sys.stderr = open(os.devnull, "w")
    try:
        out = cx.world(size, body)
    finally:
        sys.stderr.close()
        sys.argv, sys.stderr = old, olderr
    for r, ex in out:
        cx.check("rejected on every rank iff inconsistent",
                 isinstance(ex, (Stop, SystemExit) if bad else Go))
    if bad:
        cx.check("nothing is read or written", not read
                 and not os.path.exists(d + "/out"))
