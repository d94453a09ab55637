"""Planted bugs for C08-C22."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks))


SP = "py/qsonic/spectrum.py"
MA = "py/qsonic/mathtools.py"
PC = "py/qsonic/picca_continuum.py"
IM = "py/qsonic/continuum_models/input_continuum_model.py"
FT = "py/qsonic/scripts/qsonic_fit.py"
CB = "py/qsonic/scripts/qsonic_calib.py"
CA = "py/qsonic/calibration.py"
SPEC = '''
from qsonic.spectrum import Spectrum
def make(wave, flux, ivar, tid=7, z=2.5):
    Spectrum._wave = None; Spectrum._coadd_wave = None
    row = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                             ("DEC", "f8"), ("HPXPIXEL", "i8")])[0]
    row["TARGETID"] = tid; row["Z"] = z
    return Spectrum(row, wave, {a: flux[a][None] for a in flux},
                    {a: ivar[a][None] for a in ivar},
                    {a: np.zeros((1, flux[a].size), int) for a in flux}, {},
                    0)
'''

seed("s12", "C13", [(SP, "args.forest_w1 > Spectrum.WAVE_LYA_A:",
                     "args.forest_w2 > Spectrum.WAVE_LYA_A:")], '''
from types import SimpleNamespace
from qsonic.spectrum import Spectrum
a = SimpleNamespace(mock_analysis=False, forest_w1=1040., forest_w2=1230.,
                    skip_resomat=True)
Spectrum.set_blinding(20220901, a)
need(Spectrum._blinding not in ("none", None), "Lya data is blinded")
need("DELTA_BLIND" in Spectrum._fits_colnames, "under the blinded name")
''', "a forest that extends beyond the Lya line",
     "Lya-forest data of a blinded period is stored unblinded")

seed("s13", "C16", [(PC, "        self._num_qso.fill(0)\n        self._stats",
                     "        self._stats")], '''
from qsonic.picca_continuum import VarLSSFitter
v = VarLSSFitter(3600., 6000.)
w = np.linspace(3700, 5900, 400)
v.add(w, np.zeros(400) + 0.1, np.full(400, 3.))
first = v._num_qso.copy()
v.reset()
v.add(w, np.zeros(400) + 0.1, np.full(400, 3.))
need(np.array_equal(first, v._num_qso), "reset clears the spectrum counts")
''', "a second iteration (reset and accumulate again)",
     "spectrum counts of earlier iterations are kept, so that bins with too "
     "few spectra are fitted")

seed("s14", "C17", [(MA, "            self.all_weights, norm, "
                     "out=self.all_weights, where=norm != 0)",
                     "            self.all_weights, norm, "
                     "out=self.all_weights, where=norm > 1)")], '''
from qsonic.mathtools import SubsampleCov
s = SubsampleCov(2, 3)
x = np.array([[1., 4.], [2., 5.], [6., 3.]])
w = np.array([[.1, .2], [.3, .1], [.2, .2]])
for a, b in zip(x, w):
    s.add_measurement(a * b, b)
need(np.allclose(s.get_mean(), (x * w).sum(0) / w.sum(0)), "weighted mean")
''', "total weights below one", "the mean is not normalised")

seed("s15", "C18", [(MA, "    for i in range(p.size + 1, N - 3):",
                     "    for i in range(p.size + 2, N - 3):")], '''
from scipy.interpolate import CubicSpline
from qsonic.mathtools import FastCubic1DInterp
for n in range(4, 40):
    y = np.cos(np.arange(n) * 1.7) + np.arange(n) % 3
    f = FastCubic1DInterp(0., 1., y)
    x = np.linspace(0, n - 1, 7 * n)
    need(np.allclose(f(x), CubicSpline(np.arange(n), y)(x), atol=1e-6),
         f"spline of {n} nodes")
''', "tables longer than the table of precomputed factors",
     "the spline of long tables is not smooth")

seed("s16", "C19", [(CB, "sel_bal = np.any(sel_ai, axis=1) | "
                     "np.any(sel_bi, axis=1)",
                     "sel_bal = np.any(sel_ai | sel_bi[:, :1], axis=1)")], '''
from types import SimpleNamespace
from qsonic.scripts import qsonic_calib as C
d = np.zeros(4, dtype=[("TARGETID", "i8"), ("SURVEY", "U4"),
    ("VMIN_CIV_450", "f8", 5), ("VMAX_CIV_450", "f8", 5),
    ("VMIN_CIV_2000", "f8", 5), ("VMAX_CIV_2000", "f8", 5)])
d["TARGETID"] = [1, 2, 3, 4]
d["VMIN_CIV_450"][0, 2] = 100; d["VMAX_CIV_450"][0, 2] = 900
d["VMIN_CIV_2000"][2, 1] = 100; d["VMAX_CIV_2000"][2, 1] = 2900
C.qsonic.catalog.mpi_read_quasar_catalog = lambda *a, **k: d
a = SimpleNamespace(remove_targetid_list=None, catalog="c",
                    mock_analysis=False, remove_bal_qsos=True,
                    keep_surveys=None)
r = C.mpi_set_targetid_list_to_remove(a, Comm(), 0)
need(sorted(int(x) for x in r) == [1, 3], "BAL quasars are removed")
''', "a quasar whose only BAL entry is a later BI trough",
     "such BAL quasars enter the calibration")

seed("s17", "C14", [(IM, '''            fbrmap, targetids, return_indices=True)
        return''', '''            fbrmap, targetids, return_indices=True)
        idx_fbr.sort()
        return''')], '''
import tempfile, fitsio
from qsonic.continuum_models.input_continuum_model import InputContinuumModel
with tempfile.TemporaryDirectory() as t:
    f = fitsio.FITS(t + "/input-continuum-8-5.fits", "rw", clobber=True)
    ids = np.array([30, 10, 20], dtype=[("TARGETID", "i8")])
    f.write(ids, extname="FIBERMAP")
    f.write(np.array([[3., 3.], [1., 1.], [2., 2.]]), extname="CONTINUA",
            header=dict(WAVE1=1000., DWAVE=1.))
    f.close()
    m = InputContinuumModel(t, None, None, None)
    w1, dw, tid, c = m._read_continua_one_file(5, np.array([10, 20, 30]))
    for a, b in zip(tid, c):
        need(b[0] * 10 == a, "continuum of its own target")
''', "input continuum files not sorted by TARGETID",
     "spectra get another target's continuum")

seed("s18", "C22", [(FT, '(args.exposures != "disable" and '
                     'args.tile_format,', '(args.exposures == "before" and '
                     'args.tile_format,')], '''
from qsonic.scripts import qsonic_fit as F
a = F.get_parser().parse_args(["-i", "x", "--catalog", "c", "-o", "o",
                               "--tile-format", "--exposures", "after"])
need(not F.args_logic_fnc_qsonic_fit(a), "tile format with exposures")
''', "--tile-format with --exposures after",
     "an inconsistent combination is accepted")

seed("s19", "C10", [(SP, "nwaves = round((max_wave - min_wave) / "
                     "Spectrum._dwave + 0.1)",
                     "nwaves = int((max_wave - min_wave) / "
                     "Spectrum._dwave)")], SPEC + '''
bad = 0
for n in range(3, 60):
    w = {"B": 3600 + 0.8 * np.arange(n), "R": 3600 + 0.8 * (
        np.arange(n) + n // 2)}
    s = make(w, {a: np.ones(n) for a in w}, {a: np.ones(n) for a in w})
    try:
        s.simple_coadd()
    except IndexError:
        bad += 1
        continue
    bad += s.wave["brz"].size != n + n // 2
need(bad == 0, f"every arm pixel has its place ({bad} grids fail)")
''', "a wavelength range that is not an exact multiple of the step in floats",
     "the last pixel of the common grid is lost")

seed("s20", "C09", [(SP, '''            self._smoothing_scale = 0
            self._forestivar_sm = self._forestivar
''', '''            self._smoothing_scale = 0
            self._forestivar_sm = self._forestivar_sm or self._forestivar
''')], SPEC + '''
n = 60
w = {"B": 4000 + 0.8 * np.arange(n)}
iv = 1 + np.arange(n) % 5 / 2.
s = make(w, {"B": np.ones(n)}, {"B": iv})
s.set_forest_region(3600., 6000., 1040., 1250.)
s.set_smooth_forestivar(8.)
s.set_smooth_forestivar(0)
need(np.array_equal(s.forestivar_sm["B"], s.forestivar["B"]),
     "zero smoothing restores the raw inverse variance")
''', "smoothing switched off after it had been applied",
     "weights keep the smoothed inverse variance")

seed("s21", "C08", [(CA, "stacked_flux[stacked_flux == 0] = 1",
                     "stacked_flux[:-1][stacked_flux[:-1] == 0] = 1")], '''
import tempfile, fitsio
from types import SimpleNamespace
from qsonic.calibration import FluxCalibrator
with tempfile.TemporaryDirectory() as t:
    d = np.zeros(8, dtype=[("lambda", "f8"), ("stacked_flux", "f8")])
    d["lambda"] = 3600 + 10 * np.arange(8)
    d["stacked_flux"] = [1, 1, 1, 1, 1, 1, 1, 0]
    fitsio.write(t + "/f.fits", d, extname="STACKED_FLUX")
    c = FluxCalibrator(t + "/f.fits", Comm(), 0)
    s = SimpleNamespace(forestwave={"B": d["lambda"].copy()},
                        forestflux={"B": np.ones(8)},
                        forestivar={"B": np.ones(8)})
    c.apply([s])
    need(np.allclose(s.forestflux["B"], 1) and np.allclose(
        s.forestivar["B"], 1), "unusable table entries are one")
''', "a table whose last entry is unusable (zero)",
     "flux becomes infinite or wrong at the red end of the table")
