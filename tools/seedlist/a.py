"""Planted bugs for C01-C07."""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                      needs=needs, breaks=breaks))


CAT = "py/qsonic/catalog.py"
seed("s01", "C01", [(CAT, "(catalog['Z'] <= zmax)", "(catalog['Z'] < zmax)")],
     '''
import tempfile, fitsio
from qsonic import catalog
with tempfile.TemporaryDirectory() as t:
    d = np.zeros(3, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                           ("DEC", "f8"), ("HPXPIXEL", "i8")])
    d["TARGETID"] = [3, 1, 2]; d["Z"] = [2.0, 2.5, 3.0]; d["HPXPIXEL"] = 5
    fitsio.write(t + "/c.fits", d, extname="ZCATALOG")
    c = catalog.read_quasar_catalog(t + "/c.fits", is_mock=True, zmin=2.0,
                                    zmax=3.0)
    need(sorted(c["TARGETID"]) == [1, 2, 3], "rows at the redshift limits")
''', "a quasar exactly at zmax", "the upper redshift limit becomes exclusive")

seed("s02", "C01", [(CAT, '''            n_side, catalog['RA'], catalog['DEC'], lonlat=True, nest=True)
''', '''            n_side, catalog['RA'] % 180., catalog['DEC'], lonlat=True,
            nest=True)
''')], '''
from qsonic import catalog
from healpy import ang2pix
ra = np.array([10., 200., 355.]); dec = np.array([5., -30., 60.])
d = np.zeros(3, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                       ("DEC", "f8")])
d["TARGETID"] = [1, 2, 3]; d["Z"] = 2.5; d["RA"] = ra; d["DEC"] = dec
c = catalog._prime_catalog(d, 16, None, 0, 100, False)
for r in c:
    need(r["HPXPIXEL"] == ang2pix(16, r["RA"], r["DEC"], lonlat=True,
                                  nest=True), "pixel of the row's own place")
''', "a catalog without HPXPIXEL and RA >= 180",
     "the computed HPXPIXEL is that of another sky position")

MPI = "py/qsonic/mpi_utils.py"
seed("s03", "C02", [(MPI, '''        number_of_spectra[min_idx] += cat.size
''', '''        number_of_spectra[min_idx] = max(
            number_of_spectra[min_idx], cat.size)
''')], '''
from qsonic.mpi_utils import balance_load
sizes = [9, 8, 2, 2, 2, 2, 2, 2, 2]
q = balance_load([np.arange(s) for s in sizes], 2)
tot = [sum(c.size for c in x) for x in q]
need(sorted(sum(([c.size for c in x] for x in q), [])) == sorted(sizes),
     "every group once")
need(max(tot) - min(tot) <= max(sizes), f"balanced loads {tot}")
''', "more groups than ranks with a dominating first group",
     "the load of a rank is under-counted, so that the balance is lost")

seed("s04", "C03", [(MPI, '''        except Exception as e:
            logging.exception(e)
''', '''        except (OSError, ValueError, RuntimeError, KeyError) as e:
            logging.exception(e)
''')], '''
from qsonic import QsonicException
from qsonic.mpi_utils import mpi_fnc_bcast


class Root(Comm):
    sent = False
    def bcast(self, x, root=0):
        self.sent = True
        return x


def f():
    raise TypeError("bad table")


c = Root()
try:
    mpi_fnc_bcast(f, c, 0, "msg")
    need(False, "must raise")
except QsonicException:
    pass
except TypeError:
    need(False, "root left before the broadcast: others wait forever")
need(c.sent, "the failure is broadcast")
''', "the function raises something else than the four listed exceptions",
     "the root raises before the broadcast and the other ranks hang")

IO = "py/qsonic/io.py"
seed("s05", "C04", [(IO, '''    common_targetids, idx_fbr, _ = np.intersect1d(
        true_continua['TARGETID'], targetids,
        assume_unique=True, return_indices=True
    )
''', '''    common_targetids = np.intersect1d(
        true_continua['TARGETID'], targetids, assume_unique=True)
    idx_fbr = np.nonzero(
        np.isin(true_continua['TARGETID'], targetids))[0]
''')], '''
import tempfile, fitsio
from qsonic import io
with tempfile.TemporaryDirectory() as t:
    d = np.zeros(3, dtype=[("TARGETID", "i8"), ("TRUE_CONT", "f8", (4,))])
    d["TARGETID"] = [30, 10, 20]
    d["TRUE_CONT"] = np.array([30., 10., 20.])[:, None]
    f = fitsio.FITS(t + "/t.fits", "rw")
    f.write(d, extname="TRUE_CONT",
            header=dict(WMIN=1., WMAX=4., DWAVE=1.))
    f.close()
    c = io._read_true_continuum(np.array([10, 20, 30]), t + "/t.fits")
    need(np.allclose(c["data"][:, 0], [10, 20, 30]), "own continuum")
''', "a truth file whose rows are not sorted by TARGETID",
     "spectra get another quasar's true continuum")

seed("s06", "C04", [(IO, '''        new_cat = cat_by_survey[
            np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
''', '''        _, counts = np.unique(fbrmap['TARGETID'], return_counts=True)
        new_cat = np.repeat(cat_by_survey, counts.max())[:fbrmap.size]
''')], '''
import tempfile, fitsio, os
from qsonic import io
with tempfile.TemporaryDirectory() as t:
    p = t + "/main/dark/0/7/"
    os.makedirs(p)
    f = fitsio.FITS(p + "spectra-main-dark-7.fits", "rw")
    ids = np.array([1, 1, 2, 3, 3])
    m = np.zeros(5, dtype=[(k, "i8") for k in (
        "TARGETID", "PETAL_LOC", "FIBER", "NIGHT", "EXPID", "TILEID")])
    m["TARGETID"] = ids; m["EXPID"] = np.arange(5)
    f.write(m, extname="FIBERMAP")
    f.write(np.arange(4.) + 3600, extname="B_WAVELENGTH")
    f.write(np.repeat(ids[:, None] * 1., 4, 1), extname="B_FLUX")
    f.write(np.ones((5, 4)), extname="B_IVAR")
    f.write(np.zeros((5, 4), dtype="i4"), extname="B_MASK")
    f.close()
    cat = np.zeros(3, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                             ("DEC", "f8"), ("HPXPIXEL", "i8"),
                             ("SURVEY", "U4")])
    cat["TARGETID"] = [1, 2, 3]; cat["HPXPIXEL"] = 7; cat["SURVEY"] = "main"
    s = io.read_onehealpix_file_data_uncoadd(cat, t, ["B"], True)
    need(len(s) == 5, "every exposure")
    for x in s:
        need(np.allclose(x.flux["B"], x.targetid), "data of its own target")
''', "targets with different numbers of exposures in one file",
     "exposures are labelled with the catalog row of another target")

SPEC = "py/qsonic/spectrum.py"
seed("s07", "C05", [(SPEC, "np.isnan(self.ivar[arm])",
                     "np.isnan(self.flux[arm])")], '''
from qsonic.spectrum import Spectrum
r = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                       ("DEC", "f8"), ("HPXPIXEL", "i8")])[0]
d = dict(wave={"B": np.arange(4.) + 3600}, flux={"B": np.ones((1, 4))},
         ivar={"B": np.array([[1., np.nan, 2., -1.]])},
         mask={"B": np.zeros((1, 4), dtype=int)}, reso={})
s = Spectrum.from_dictionary(r, d, 0)
need(np.array_equal(s.ivar["B"], [1, 0, 2, 0]), "ivar of bad pixels")
need(np.array_equal(s.flux["B"], [1, 0, 1, 0]), "flux of bad pixels")
''', "a pixel with NaN ivar and finite flux", "NaN ivar survives loading")

seed("s08", "C05", [(SPEC, "self.reso[arm] = reso[arm].copy()",
                     "self.reso[arm] = reso[arm]")], '''
from qsonic.spectrum import Spectrum
r = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                       ("DEC", "f8"), ("HPXPIXEL", "i8")])[0]
d = dict(wave={"B": np.arange(4.) + 3600}, flux={"B": np.ones((2, 4))},
         ivar={"B": np.ones((2, 4))},
         mask={"B": np.zeros((2, 4), dtype=int)},
         reso={"B": np.ones((3, 4))})
a = Spectrum.from_dictionary(r, d, 0)
b = Spectrum.from_dictionary(r, d, 1)
a.reso["B"] *= 5
need(np.all(b.reso["B"] == 1) and np.all(d["reso"]["B"] == 1),
     "spectra do not share their resolution")
''', "a resolution matrix shared by all spectra of a file and a later change "
     "in place", "changing one spectrum's resolution changes the others'")

seed("s09", "C06", [(SPEC, '''        l2 = min(w2, (1 + self.z_qso) * lya2)
''', '''        l2 = min(w2, (1 + self.z_qso) * max(lya2, lya1 + 1.))
''')], '''
from qsonic.spectrum import Spectrum
r = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                       ("DEC", "f8"), ("HPXPIXEL", "i8")])[0]
r["Z"] = 2.
n = 40
w = 3600. + .1 * np.arange(n)
d = dict(wave={"B": w}, flux={"B": np.ones((1, n))},
         ivar={"B": np.ones((1, n))},
         mask={"B": np.zeros((1, n), dtype=int)}, reso={})
s = Spectrum.from_dictionary(r, d, 0)
s.set_forest_region(3000., 6000., 1200., 1200.5)
k = (w >= 3600.) & (w < 3 * 1200.5)
need(np.array_equal(s.forestwave["B"], w[k]), "window pixels")
''', "a rest-frame window narrower than 1 A",
     "pixels redward of the window are analysed")

MASK = "py/qsonic/masks.py"
seed("s10", "C07", [(MASK, '''            # Make sure first index comes before the second
            mask_idx_ranges.sort(axis=1)
''', '''            # Make sure the intervals come in order
            mask_idx_ranges.sort(axis=0)
''')], '''
from qsonic.spectrum import Spectrum
from qsonic.masks import BALMask
r = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                       ("DEC", "f8"), ("HPXPIXEL", "i8")] + [
    (f"V{m}_CIV_{c}", "f8", (1,)) for m in ("MIN", "MAX")
    for c in ("450", "2000")])[0]
r["Z"] = 2.
r["VMIN_CIV_450"] = 3000.; r["VMAX_CIV_450"] = 1000.
n = 600
w = 3000. + 2. * np.arange(n)
d = dict(wave={"B": w}, flux={"B": np.ones((1, n))},
         ivar={"B": np.ones((1, n))},
         mask={"B": np.zeros((1, n), dtype=int)}, reso={})
s = Spectrum.from_dictionary(r, d, 0)
s.set_forest_region(2000., 6000., 900., 1600.)
BALMask.apply(s)
c = 299792.458
bad = np.zeros(s.forestwave["B"].size, dtype=bool)
for l in BALMask.lines["value"]:
    e = sorted((l * 3 * (1 - 3000. / c), l * 3 * (1 - 1000. / c)))
    bad |= (s.forestwave["B"] >= e[0]) & (s.forestwave["B"] < e[1])
need(bad.any(), "footprint")
need(np.array_equal(s.forestivar["B"] == 0, bad), "exactly the footprint")
''', "a BAL whose catalog velocities are in reverse order (VMIN > VMAX)",
     "nothing, or the wrong pixels, are masked for such troughs")

seed("s11", "C07", [(MASK, '''            transmission[np.searchsorted(
                wave_arm, (1 + spec.z_qso) * DLAMask.wave_lya_A):
            ] = 1
            w = transmission < self.dla_mask_limit
''', '''            w = transmission < self.dla_mask_limit
            transmission[np.searchsorted(
                wave_arm, (1 + spec.z_qso) * DLAMask.wave_lya_A):
            ] = 1
''')], '''
import tempfile, fitsio
from qsonic.spectrum import Spectrum
from qsonic.masks import DLAMask
r = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"),
                       ("DEC", "f8"), ("HPXPIXEL", "i8")])[0]
r["Z"] = 2.; r["TARGETID"] = 7
n = 400
w = 3500. + 1. * np.arange(n)
d = dict(wave={"B": w}, flux={"B": np.ones((1, n))},
         ivar={"B": np.ones((1, n))},
         mask={"B": np.zeros((1, n), dtype=int)}, reso={})
s = Spectrum.from_dictionary(r, d, 0)
s.set_forest_region(2000., 6000., 900., 1600.)
with tempfile.TemporaryDirectory() as t:
    c = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z_DLA", "f8"),
                           ("NHI", "f8")])
    c["TARGETID"] = 7; c["Z_DLA"] = 1.999; c["NHI"] = 21.
    fitsio.write(t + "/d.fits", c, extname="DLACAT")
    DLAMask(t + "/d.fits").apply(s)
red = s.forestwave["B"] >= 3 * 1215.67
need(np.all(s.forestivar["B"][red] == 1), "nothing changes redward of Lya")
need(np.any(s.forestivar["B"][~red] == 0), "core masked")
''', "a DLA close to the quasar's own redshift",
     "pixels redward of the quasar's Lya line are masked")
