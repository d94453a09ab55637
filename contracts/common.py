"""Shared preconditions: how the contracts build their objects (through the
package's own public constructors)."""
from types import SimpleNamespace
from vf.terms import Unsupported


class Stand:
    """Stand-in that has only some attributes of what it stands for: use of
    any other one is outside of the contract (undecided, not a failure)."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of a stand-in")


class Partial(Stand, SimpleNamespace):
    """The same, with the given attributes."""


def bare(cls):
    """An object of the class without its fields: those that the contract
    does not set are outside of it."""
    sub = type(cls.__name__, (cls, Stand), {})
    return sub.__new__(sub)


class PartialType(type):
    """The same for a class."""

    def __getattr__(cls, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of a stand-in")


def rebind(mods, **new):
    """Replaces names wherever one of the modules has them; returns the
    inverse."""
    old = [(m, k, m.__dict__[k]) for m in mods for k in new
           if k in m.__dict__]
    for m, k, _ in old:
        setattr(m, k, new[k])

    def undo():
        for m, k, v in old:
            setattr(m, k, v)
    return undo


class Quiet:
    """logging without output; the messages of warning level and above are
    kept."""
    NOTSET, DEBUG, INFO, WARNING, ERROR, CRITICAL = 0, 10, 20, 30, 40, 50
    WARN, FATAL = WARNING, CRITICAL

    def __init__(self, keep=None):
        self.keep = keep

    def _say(self, msg, *a, **k):
        if self.keep is not None:
            self.keep.append(msg)
    warning = warn = error = critical = fatal = exception = _say

    def log(self, level, msg, *a, **k):
        if level >= self.WARNING:
            self._say(msg)

    def getLogger(self, *a, **k):
        return self

    def isEnabledFor(self, *a):
        return True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


ARM_SETS = [("B",), ("B", "R"), ("B", "R", "Z"), ("R", "Z")]
IVPOOL = [0., 0., 1., 2., 0.5, 4., -1., 0.25]
IVPOS = [0., 0., 1., 2., 0.5, 4., 0.25]


def mkspec(cx, S, arms=("B", "R"), p="", reso=None, grid=None, z=None,
           nmin=2, conc=(2, 7), content=True, row=None):
    """Spectrum.from_dictionary on arbitrary valid contents.  grid: None for
    arbitrary increasing wavelengths or (w0, dw, {arm: offset})."""
    n, wave = {}, {}
    for a in arms:
        n[a] = cx.length(f"{p}n_{a}", nmin, conc=conc)
        if grid is None:
            wave[a] = cx.sorted_array(f"{p}wave_{a}", n[a], gt=0)
        else:
            w0, dw, off = grid
            wave[a] = cx.affine_grid(w0, dw, n[a], off[a])
    one = 1
    np = cx.np()
    data = dict(wave=wave, flux={}, ivar={}, mask={}, reso={})
    for a in arms:
        data["flux"][a] = np.ones((1, n[a]))
        data["ivar"][a] = np.ones((1, n[a]))
        data["mask"][a] = np.zeros((1, n[a]), dtype=int)
        if reso is not None:
            data["reso"][a] = cx.array(f"{p}reso_{a}", (
                reso[a] if isinstance(reso, dict) else reso, n[a]))
    if z is None:
        z = cx.real(f"{p}z", gt=0, hi=6)
    vals = dict(TARGETID=cx.int(f"{p}tid", 1), Z=z, RA=0.5, DEC=0.25,
                HPXPIXEL=1)
    vals.update(row or {})
    spec = S.Spectrum.from_dictionary(cx.row(**vals), data, 0)
    if content:
        for a in arms:
            spec.flux[a][:] = cx.array(f"{p}flux_{a}", n[a])
            spec.ivar[a][:] = cx.array(f"{p}ivar_{a}", n[a], lo=0,
                                       pool=IVPOS)
    return spec, wave, n, z


def forest(cx, S, arms, p="", row=None, wmin=0., start=None, step=None, z=None,
           reso=None, conc=(2, 7), share=None, grid=None, nmin=2):
    """A spectrum whose forest covers its whole grid, arbitrary contents.
    share=(wave, n): on the grid of another spectrum (the grid belongs to the
    class)."""
    n, wave = {}, {}
    np = cx.np()
    data = dict(wave=wave, flux={}, ivar={}, mask={}, reso={})
    for a in arms:
        if share is not None:
            wave[a], n[a] = share[0][a], share[1][a]
        else:
            n[a] = cx.length(f"{p}n_{a}", nmin, conc=conc)
            if grid is not None:
                wave[a] = cx.affine_grid(grid[0], grid[1], n[a], grid[2][a])
            else:
                wave[a] = cx.sorted_array(f"{p}wave_{a}", n[a], gt=wmin,
                                          start=start, step=step)
            cx.assume(wave[a][n[a] - 1] < 1e9)
        data["flux"][a] = np.ones((1, n[a]))
        data["ivar"][a] = np.ones((1, n[a]))
        data["mask"][a] = np.zeros((1, n[a]), dtype=int)
        if reso:
            data["reso"][a] = cx.array(f"{p}reso_{a}", (
                reso[a] if isinstance(reso, dict) else reso, n[a]))
    if z is None:
        z = cx.real(p + "z", gt=0, hi=6)
    vals = dict(TARGETID=cx.int(p + "tid", 1, 5), Z=z, RA=0.5, DEC=0.25,
                HPXPIXEL=1)
    vals.update(row or {})
    spec = S.Spectrum.from_dictionary(cx.row(**vals), data, 0)
    spec.set_forest_region(0., 1e9, 0., 1e9)
    for a in arms:
        if cx.symbolic:     # lemma: the forest is the whole grid
            cx.check(f"forest covers {p}{a}", cx.eq(
                cx.n(spec.forestwave[a]), n[a]))
        spec.forestwave[a][:] = wave[a][:]
        spec.forestflux[a][:] = cx.array(f"{p}flux_{a}", n[a])
        spec.forestivar[a][:] = cx.array(f"{p}ivar_{a}", n[a], lo=0, pool=IVPOS)
    return spec, wave, n, z


def snapshot(spec):
    return ({a: v.copy() for a, v in spec.forestflux.items()},
            {a: v.copy() for a, v in spec.forestivar.items()},
            {a: v.copy() for a, v in spec.forestwave.items()})


def opaque_interp(cx, MT, cls, funs):
    """In the symbolic run, replaces an interpolator class by its contract:
    a fixed (unknown) function per table, taken from funs in order of
    construction; the constructor arguments are recorded.  C18 is the proof
    that the classes interpolate their table."""
    made = []
    if not cx.symbolic:
        real = getattr(MT, cls)

        class Rec(real):
            def __init__(self, xp0, dxp, fp, *a, **k):
                made.append((xp0, dxp, fp.copy()))
                super().__init__(xp0, dxp, fp, *a, **k)
        setattr(MT, cls, Rec)
        return made

    class Interp:
        def __init__(self, xp0, dxp, fp, copy=False, ep=None, bc_type=None):
            self.f = funs[len(made)]
            made.append((xp0, dxp, fp.copy()))
            self.xp0, self.dxp, self.fp, self.ep = xp0, dxp, fp, ep

        def __call__(self, x):
            return self.f(x)
    setattr(MT, cls, Interp)
    return made
