"""C03: a failure on one rank reaches every rank; results agree."""
import argparse
import functools

from vf.run import scenario
from vf.world import Deadlock


class Weird:
    """Compares equal to everything, is false, has no useful repr."""
    def __init__(self, tag=0):
        self.tag = tag

    def __eq__(self, o):
        return True

    def __bool__(self):
        return False

    __hash__ = None


VALUES = ["none", "zero", "minus1", "false", "empty", "text", "array",
          "real", "tuple", "weird", "class", "exc"]
ERRORS = [ValueError, KeyError, OSError, RuntimeError, "qsonic",
          ZeroDivisionError, AssertionError, StopIteration]
CALLS = ["def", "lambda", "partial", "method", "object"]


class Obj:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def meth(self, *a, **k):
        return self.f(*a, **k)


def _value(cx, what):
    np = cx.np()
    return {
        "none": None, "zero": 0, "minus1": -1, "false": False, "empty": [],
        "text": "abc", "array": cx.array("arr", 3),
        "real": cx.real("x"), "tuple": (1, None), "weird": Weird(),
        "class": Weird, "exc": ValueError("returned, not raised")}[what]


def _same(cx, what, a, b):
    if what == "array":
        return cx.And(*[cx.eq(a[i], b[i]) for i in range(3)])
    if what == "real":
        return cx.eq(a, b)
    if what in ("weird", "exc"):
        return type(a) is type(b)
    if what == "class":
        return a is b
    return type(a) is type(b) and a == b


def _callable(kind, f):
    if kind == "def":
        return f
    if kind == "lambda":
        return lambda *a, **k: f(*a, **k)
    if kind == "partial":
        return functools.partial(f)
    if kind == "method":
        return Obj(f).meth
    return Obj(f)


LEVEL = "other"     # every contract carries a bound (see scenarios)


@scenario("C03", ["mpi_fnc_bcast"], quick_s=120,
          bound="1 to 3 ranks, every choice of failing rank")
def bcast_value(cx):
    P = cx.choice("ranks", [0, 1, 2, 3])
    what = cx.choice("value", VALUES)
    kind = cx.choice("callable", CALLS)
    val = _value(cx, what)
    arg = cx.real("arg")
    calls = []

    def fnc(a, key=None):
        calls.append((a, key))
        return val

    def run(comm, rank, load):
        M = load("qsonic.mpi_utils")
        return M.mpi_fnc_bcast(
            _callable(kind, fnc), comm, rank, "went wrong", arg, key=3)
    if P == 0:                   # documented use without MPI
        res = [cx.call(run, None, 0, cx.load)]
    else:
        res = cx.world(P, lambda comm, load: run(comm, comm.rank, load))
    for v, ex in res:
        cx.no_exc("returns on every rank", ex)
        cx.check("same value on every rank", _same(cx, what, v, val))
    cx.check("runs once with its arguments", cx.And(
        len(calls) == 1, cx.eq(calls[0][0], arg) if calls else False,
        calls[0][1] == 3 if calls else False))


@scenario("C03", ["mpi_fnc_bcast"], quick_s=120,
          bound="1 to 3 ranks, every choice of failing rank")
def bcast_error(cx):
    P = cx.choice("ranks", [0, 1, 2, 3])
    err = cx.choice("error", ERRORS)
    kind = cx.choice("callable", CALLS)

    def run(comm, rank, load):
        Q = load("qsonic")
        M = load("qsonic.mpi_utils")

        def fnc(*a, **k):
            raise (Q.QsonicException if err == "qsonic" else err)("inner")
        try:
            M.mpi_fnc_bcast(_callable(kind, fnc), comm, rank, "went wrong")
        except Q.QsonicException as e:
            return "went wrong" in str(e)
        return None
    if P == 0:
        res = [cx.call(run, None, 0, cx.load)]
    else:
        res = cx.world(P, lambda comm, load: run(comm, comm.rank, load))
    for v, ex in res:
        cx.check("raises QsonicException with the message on every rank",
                 ex is None and v is True)


OPTS = [["--num", "3"], ["--num", "3", "--flag"], ["--num", "x"],
        ["--bogus"], [], ["--help"], ["--num", "-1", "--name", "q"]]


@scenario("C03", ["mpi_parse"], quick_s=60, bound="1 to 3 ranks")
def parse(cx):
    P = cx.choice("ranks", [1, 2, 3])
    o = cx.choice("options", OPTS)
    logic = cx.choice("logic", ["default", "yes", "no", "num>0"])

    def body(comm, load):
        import contextlib
        import io
        M = load("qsonic.mpi_utils")
        p = argparse.ArgumentParser()
        p.add_argument("--num", type=int, required=True)
        p.add_argument("--flag", action="store_true")
        p.add_argument("--name", default="d")
        kw = {} if logic == "default" else dict(args_logic_fnc={
            "yes": lambda a: True, "no": lambda a: False,
            "num>0": lambda a: a.num > 0}[logic])
        with contextlib.redirect_stderr(io.StringIO()), \
                contextlib.redirect_stdout(io.StringIO()):
            return M.mpi_parse(p, comm, comm.rank, o, **kw)
    res = cx.world(P, body)
    valid = o in (OPTS[0], OPTS[1], OPTS[6])
    num = {0: 3, 1: 3, 6: -1}.get(OPTS.index(o))
    if logic == "no" or valid and logic == "num>0" and num <= 0:
        valid = False
    if valid:
        for v, ex in res:
            cx.no_exc("accepted on every rank", ex)
            cx.check("options identical on every rank", vars(v) == dict(
                num=num, flag="--flag" in o,
                name="q" if "--name" in o else "d"))
        return
    codes = set()
    for v, ex in res:
        cx.check("exits on every rank", isinstance(ex, SystemExit))
        codes.add(ex.code)
    cx.check("same exit status on every rank", len(codes) == 1)


@scenario("C03", ["mpi_read_quasar_catalog"], conc_n=20,
          bound="1 to 3 ranks")
def read_catalog(cx):
    """Every rank gets the catalog the root read, or every rank fails."""
    P = cx.choice("ranks", [0, 1, 2, 3])
    fail = cx.flag("missing file")
    mock = cx.flag("mock")
    n = cx.choice("rows", [1, 2, 3])
    np = cx.np()
    cols = dict(TARGETID=np.array([7, 5, 6][:n]),
                Z=cx.array("Z", n, lo=2, hi=3), RA=cx.array(
                    "RA", n, lo=0, hi=300), DEC=cx.array(
                    "DEC", n, lo=0, hi=80), HPXPIXEL=np.array([3] * n))
    if not mock:
        cols.update(LASTNIGHT=np.array([20220101] * n),
                    SURVEY=np.array(["main"] * n))
    t = cx.table("cat", n, **cols)
    fname = cx.tmp() + "/cat.fits"
    if not fail:
        cx.put_file(fname, [("PRIMARY", None, {}), ("QSO_CAT", t, {})])

    def body(comm, rank, load):
        C = load("qsonic.catalog")
        return C.mpi_read_quasar_catalog(fname, comm, rank, mock)
    if P == 0:
        res = [cx.call(body, None, 0, cx.load)]
    else:
        res = cx.world(P, lambda comm, load: body(comm, comm.rank, load))
    order = sorted(range(n), key=lambda i: [7, 5, 6][i])
    for v, ex in res:
        if fail:
            cx.check("fails on every rank", isinstance(ex, Exception)
                     and not isinstance(ex, Deadlock))
            continue
        cx.no_exc("returns on every rank", ex)
        cx.check("rows", cx.eq(cx.n(v), n))
        cx.check("same catalog on every rank", cx.And(*[
            cx.And(cx.eq(v["TARGETID"][k], [7, 5, 6][order[k]]),
                   cx.eq(v["Z"][k], t["Z"][order[k]]),
                   cx.eq(v["RA"][k], t["RA"][order[k]]))
            for k in range(n)]))
