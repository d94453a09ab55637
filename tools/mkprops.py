"""Writes properties.jsonl (kept as a script so statements are reviewable)."""
import json
import os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [
        {"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))


Q = "py/qsonic/"
p("C01", "Catalog selection keeps exactly the requested quasars",
  "Reading a quasar catalog returns exactly the rows with zmin <= Z <= zmax that belong to a kept survey (when the catalog has surveys and a survey list is given) each with its own column values. A selection that is empty, or in which the identifying key (TARGETID; TARGETID and TILEID in tile format) occurs twice, is rejected. Legacy column names map to the modern ones, a file lacking a required column is rejected, and HPXPIXEL is taken from the file or computed from the row's own coordinates. The result is ordered by HPXPIXEL, then SURVEY when present, then TARGETID (in tile format by TILEID, PETAL_LOC, TARGETID), so that rows read from one file are contiguous.",
  ["inputs", "configurations"], "every catalog table (any number of rows, any column values, column-name variants) and every redshift/survey selection",
  "a test reads one fixed catalog; the guarantee quantifies over all row contents, duplicate patterns and selections",
  [Q + "catalog.py"], [("read_quasar_catalog and helpers", Q + "catalog.py")])
p("C02", "Work distribution assigns every quasar to exactly one rank",
  "Splitting the catalog over ranks gives every catalog row to exactly one rank, keeps all rows of one healpix pixel together on that rank, and gives rank r the r-th part of one division computed on the root; a catalog that can not be read fails on every rank. The greedy balancing keeps every rank's load within one group of every other rank's load: the largest load exceeds the smallest by at most the size of the largest group.",
  ["inputs", "configurations"], "every catalog (any pixel multiset) and every number of ranks",
  "tests check one list of groups for one rank count",
  [Q + "mpi_utils.py", Q + "catalog.py"], [("balance_load", Q + "mpi_utils.py"), ("mpi_get_local_queue", Q + "catalog.py")])
p("C03", "A failure on one rank reaches every rank; results agree",
  "A function run on the root and broadcast either returns the same value on every rank or raises on every rank, whatever the function returns or raises. Parsed command-line options are identical on all ranks, and an invalid command line ends every rank with the same exit status instead of leaving the others waiting.",
  ["inputs", "configurations", "fault_sequences"], "every return value or exception of the root-side function, every rank count, every command line",
  "tests run a single rank with a succeeding or a simple failing function; agreement must hold for all outcomes on all ranks",
  [Q + "mpi_utils.py", Q + "catalog.py"], [("mpi_fnc_bcast", Q + "mpi_utils.py"), ("mpi_parse", Q + "mpi_utils.py"), ("mpi_read_quasar_catalog", Q + "catalog.py")])
p("C04", "Each quasar gets the data of its own row in the spectra file",
  "Every spectrum built by the readers (healpix coadds, per-exposure files, tile files, mocks with or without true continua) carries flux, ivar, mask and resolution of the file row whose TARGETID equals the catalog row's TARGETID, for any order of rows in the file and any subset requested. Catalog rows without a file row are dropped consistently (never paired with another object's data), and for exposures every exposure row of a requested target appears once with its own identifiers.",
  ["inputs", "configurations"], "every arrangement of file rows and catalog rows, arms requested, resolution on/off, mock/data",
  "tests use one stored ordering; pairing must survive every permutation and subset",
  [Q + "io.py"], [("read_onehealpix_file_data_coadd", Q + "io.py"), ("read_onehealpix_file_data_uncoadd", Q + "io.py"), ("read_onetile_coaddfile_data", Q + "io.py"), ("read_onehealpix_file_mock", Q + "io.py"), ("_read_resoimage / _read_true_continuum", Q + "io.py")])
p("C05", "Flagged or invalid pixels carry no information after loading",
  "When a spectrum is created, every pixel whose mask is nonzero, whose flux or ivar is NaN, or whose ivar is negative has flux 0 and ivar 0; every other pixel keeps its input flux and ivar unchanged. The arrays handed in are not modified, and the spectrum's later changes do not reach them or other spectra.",
  ["inputs"], "every flux, ivar and mask array content and length, every arm combination",
  "a test samples a few pixels; the rule is per pixel for all contents, including NaN",
  [Q + "spectrum.py"], [("Spectrum.__init__", Q + "spectrum.py")])
p("C06", "Forest window selects exactly the analysis pixels",
  "Setting the forest region keeps, in each arm, exactly the pixels whose observed wavelength lies in [max(w1,(1+z)*lya1), min(w2,(1+z)*lya2)), aligned across wavelength, flux, ivar and resolution, as independent copies. An arm without any pixel of positive ivar in the window is absent from all forest quantities, also when the region is set again. The initial amplitude guess and the per-arm mean SNR are the documented ivar-weighted statistics of those pixels.",
  ["inputs", "configurations"], "every sorted wavelength grid, redshift, window and pixel content, every arm subset, repeated calls",
  "boundary pixels and empty arms depend on real-valued inputs a test cannot enumerate",
  [Q + "spectrum.py"], [("Spectrum.set_forest_region", Q + "spectrum.py"), ("Spectrum._set_forest_related_parameters", Q + "spectrum.py")])
p("C07", "Masks remove exactly their footprint",
  "Applying the sky, BAL or DLA mask sets flux and ivar to zero exactly on the footprint (observed/rest-frame sky intervals, half-open [min, max); BAL troughs shifted by the quasar's own velocity ranges for the listed lines; DLA pixels whose model transmission is below the threshold and bluer than the quasar's Lya line) and leaves every other pixel's validity untouched. Pixels outside a DLA's core are only corrected by dividing flux by the transmission (ivar times its square), nothing is changed redward of the quasar's Lya line, and a quasar without entries is unchanged. The program applies exactly the requested masks, each once to every spectrum, also when a rank has no quasars.",
  ["inputs", "configurations"], "every wavelength grid, mask interval list, BAL velocity table, DLA list and redshift",
  "footprints are unions of real intervals; a test only samples some grids",
  [Q + "masks.py"], [("SkyMask.apply", Q + "masks.py"), ("BALMask.apply", Q + "masks.py"), ("DLAMask.apply", Q + "masks.py")])
p("C08", "Calibration rescales noise and flux as documented",
  "Noise calibration turns every forest ivar i into i/eta(lambda) or, when the additive term is enabled, i/(eta(lambda)+varlss(lambda)*C^2*i) with C the spectrum's continuum; flux calibration turns flux f into f/s(lambda) and i into i*s(lambda)^2, with s interpolated from the table and unusable (zero) table entries treated as 1. Masked pixels stay masked, invalid ivar never appears, and quantities not calibrated are unchanged.",
  ["inputs", "configurations"], "every calibration table and every forest content",
  "pointwise algebra over all tables and pixels",
  [Q + "calibration.py"], [("NoiseCalibrator.apply", Q + "calibration.py"), ("FluxCalibrator.apply", Q + "calibration.py")])
p("C09", "Forest weights and chi2 follow the pipeline noise model",
  "With a valid continuum C every pixel's weight is i/(eta+i*varlss*C^2) with i the (smoothed) inverse variance; without one the weight equals that inverse variance. Weights are zero exactly where the pixel is masked, smoothing never revives a masked pixel nor makes an unmasked one non-positive, zero smoothing restores the raw inverse variance, and chi2 is the weighted sum of squared residuals (-1 when the continuum is invalid).",
  ["inputs", "configurations", "histories"], "every forest content, continuum, eta and varlss function, smoothing size and call order",
  "an identity over all pixels and functions; tests check one array",
  [Q + "spectrum.py", Q + "mathtools.py"], [("Spectrum.set_forest_weight", Q + "spectrum.py"), ("Spectrum.calc_continuum_chi2", Q + "spectrum.py"), ("get_smooth_ivar", Q + "mathtools.py")])
p("C10", "Coadding arms is the weighted mean on the common grid",
  "Coadding the arms of a spectrum (full spectrum or forest) places every arm pixel at its own wavelength on one uniform grid covering all arms; each coadded flux is the weight-averaged flux of the pixels at that wavelength, each coadded ivar the inverse of the propagated variance, so weights add and a pixel that is masked in every arm has flux 0 and ivar 0. Continuum and resolution are carried to the same wavelengths, and wavelengths no arm covers carry no information.",
  ["inputs", "configurations"], "every set of 1-3 arms on aligned grids with any overlap or gap and any contents",
  "alignment of grids with arbitrary offsets and overlaps cannot be sampled exhaustively",
  [Q + "spectrum.py"], [("Spectrum.simple_coadd", Q + "spectrum.py"), ("Spectrum.coadd_arms_forest", Q + "spectrum.py")])
p("C11", "Short data are dropped whole; slicing keeps pixels aligned",
  "Dropping short arms removes exactly the arms with no more unmasked pixels than skip_ratio times the number expected for the forest, from every forest quantity at once, and a spectrum counts as long exactly when its unmasked pixels exceed the required fraction; after calibration and masking the program keeps exactly the spectra that are long and reach the requested SNR. Slicing an arm keeps wavelength, flux, ivar, smoothed ivar, weight, resolution and continuum of the same pixels, in every order of calls.",
  ["inputs", "histories"], "every arm content, threshold, slice bounds and call order (before/after smoothing, weighting, continuum)",
  "aliasing between quantities makes misalignment depend on call history",
  [Q + "spectrum.py"], [("Spectrum.slice", Q + "spectrum.py"), ("Spectrum.drop_short_arms", Q + "spectrum.py"), ("Spectrum.is_long", Q + "spectrum.py"), ("Spectrum.drop_arm", Q + "spectrum.py")])
p("C12", "Delta files hold each spectrum's deltas exactly once",
  "Saving writes, for every spectrum with a valid continuum and every arm with nonzero mean SNR, one table whose pixels are aligned in wavelength with DELTA = flux/cont - 1 (0 where ivar is 0), IVAR = ivar*cont^2, WEIGHT = weight*cont^2, CONT and the resolution matrix when present, with header values of that same spectrum. Every such table is written exactly once, in the file of its healpix pixel (or of its rank), and invalid spectra are never written.",
  ["inputs", "configurations"], "every list of spectra (any order of pixels, validity flags, arms), both file layouts, resolution on/off",
  "tests write one spectrum; routing and pairing must hold for every list",
  [Q + "spectrum.py", Q + "io.py"], [("Spectrum.write", Q + "spectrum.py"), ("save_deltas", Q + "io.py")])
p("C13", "Blinding follows the data, and blinded data is labelled",
  "Mock and metal-forest (side-band) analyses and data taken before 20210514 are unblinded; later data gets the m2, y1 or y3 blinding according to the last night of the whole catalog, the same on every rank, with no gaps between the date ranges. Blinded deltas are stored only under the blinded column name, unblinded ones under the plain name, and deltas can not be saved before a blinding has been set.",
  ["inputs", "configurations"], "every last night, analysis type and forest start, every call order",
  "a test picks some dates; the table must be total and exact",
  [Q + "spectrum.py", Q + "io.py"], [("Spectrum.set_blinding", Q + "spectrum.py"), ("save_deltas", Q + "io.py")])
p("C14", "A continuum is only accepted when it is physical",
  "After a continuum fit a spectrum is marked valid exactly if the minimiser succeeded and the continuum is not negative at any forest pixel; then the stored continuum equals the mean continuum times the fitted polynomial (and mean flux) on exactly that spectrum's forest pixels, and weights and chi2 are recomputed with it. A rejected spectrum has no continuum and chi2 -1 and is excluded from later steps (additive noise, coadding of arms, deltas), and the var_lss and eta that enter those later weights are the ones the fits used, also after the informative final fit of var_lss. A true or external continuum is the input continuum of the same target interpolated at the forest pixels times the mean flux (an external one must be positive). If no rank has a valid spectrum, every rank raises.",
  ["inputs", "configurations"], "every forest content, mean continuum, fit result (success or failure, any parameters)",
  "validity depends on the minimiser outcome and real data",
  [Q + "picca_continuum.py", Q + "continuum_models/picca_continuum_model.py", Q + "continuum_models/true_continuum_model.py", Q + "continuum_models/input_continuum_model.py"], [("PiccaContinuumModel.fit_continuum", Q + "continuum_models/picca_continuum_model.py"), ("TrueContinuumModel", Q + "continuum_models/true_continuum_model.py"), ("InputContinuumModel", Q + "continuum_models/input_continuum_model.py"), ("PiccaContinuumFitter.fit_continua / iterate", Q + "picca_continuum.py"), ("mpi_continuum_fitting", Q + "scripts/qsonic_fit.py")])
p("C15", "Stacked mean flux is the global weighted average",
  "Stacking fluxes gives, in every rest- or observed-wavelength bin, the weighted mean over all contributing pixels of all ranks' valid spectra, independent of how spectra are divided over ranks. A bin without data has zero weight and a defined value, and a new iteration does not inherit sums of the previous one.",
  ["inputs", "schedules", "histories"], "every list of spectra and rank division, every binning, repeated use",
  "linearity over all divisions and pixels cannot be sampled",
  [Q + "picca_continuum.py", Q + "continuum_models/picca_continuum_model.py"], [("FluxStacker", Q + "picca_continuum.py"), ("stack_spectra", Q + "continuum_models/picca_continuum_model.py")])
p("C16", "Variance statistics count each unmasked pixel in its own bin",
  "Each forest pixel of a valid spectrum inside the wavelength and ivar ranges is counted once, in the bin of its own wavelength [edge, next) and pipeline inverse variance (edge, next], contributing its delta moments; all other pixels contribute nothing. Totals are the sum over ranks, subsamples partition the spectra, and a reset clears every accumulator. The fit uses exactly the bins with enough pixels and spectra (half the limits if fewer than five qualify), and too many failing bins raise on every rank.",
  ["inputs", "schedules", "histories"], "every spectrum content, bin configuration, rank division and call history",
  "edge pixels and accumulations depend on arbitrary data and histories",
  [Q + "picca_continuum.py"], [("VarLSSFitter.add", Q + "picca_continuum.py"), ("VarLSSFitter.reset / calculate_subsampler_stats", Q + "picca_continuum.py"), ("VarLSSFitter.fit", Q + "picca_continuum.py")])
p("C17", "Subsampled mean and covariance are the jackknife estimates",
  "The subsampled mean is the weight-averaged measurement over all subsamples, and variance/covariance are the delete-one jackknife estimates of that mean, regardless of the order in which mean, variance and covariance are asked for (with the same bias correction). Adding a measurement changes only its own subsample, and the covariance is symmetric with the variance on its diagonal.",
  ["inputs", "histories"], "every number of subsamples, every data and weights, every order of calls",
  "call-order and all-weights identity",
  [Q + "mathtools.py"], [("SubsampleCov", Q + "mathtools.py")])
p("C18", "Interpolators reproduce nodes and splines are smooth",
  "Linear and cubic fast interpolators return the tabulated values at every node, the straight line or cubic of the interval between nodes, and the first or last interval's polynomial outside the range. The cubic spline is continuous with continuous first and second derivatives at interior nodes and satisfies its end conditions (not-a-knot or natural); tables with fewer than four points give the parabola or line through them. A copy is independent of the table passed in.",
  ["inputs"], "every table (size, values) and every query point",
  "continuum of query points and tables",
  [Q + "mathtools.py"], [("FastLinear1DInterp / FastCubic1DInterp", Q + "mathtools.py"), ("_spline_cubic", Q + "mathtools.py")])
p("C19", "Calibration script uses every delta exactly once",
  "The calibration script reads every delta file on exactly one rank for any number of files and ranks, excludes exactly the listed targets (any list length), the BAL quasars and other surveys' targets when asked to, and the deltas whose mean SNR is not strictly between the limits; all others enter the variance statistics once, and the stack is their weighted mean of 1 + delta at each wavelength wave1 + k*step. A rank without deltas takes part in the collective steps; if no rank has any, every rank raises.",
  ["inputs", "configurations", "schedules"], "every number of files and ranks, every exclusion list",
  "divisibility and single-entry lists are corner cases of unbounded families",
  [Q + "scripts/qsonic_calib.py"], [("mpi_read_all_deltas", Q + "scripts/qsonic_calib.py"), ("mpi_set_targetid_list_to_remove", Q + "scripts/qsonic_calib.py"), ("mpi_stack_fluxes", Q + "scripts/qsonic_calib.py")])
p("C20", "Coadding delta files preserves weighted information per target",
  "Coadding two deltas of one target gives, at each wavelength, the weight-averaged delta and continuum of the inputs covering it, with ivar and weight propagated so that a pixel masked in one input equals the other input's pixel and a pixel masked in both has zero ivar and weight. Resolution is averaged likewise and finite everywhere, and the result is blinded if an input is. The coadd script merges exactly the tables of the same target over all input directories and writes every target exactly once, in the file of its own pixel.",
  ["inputs"], "every pair of delta tables on aligned grids, any overlap, any masking; every set of tables in the input files",
  "overlap and masking patterns are unbounded",
  [Q + "spectrum.py", Q + "scripts/qsonic_coadd_deltas.py"], [("Delta.coadd", Q + "spectrum.py"), ("coadd script", Q + "scripts/qsonic_coadd_deltas.py")])
p("C21", "Exposure continua are the coadd's, pixel for pixel",
  "When exposures are analysed after a coadded fit, each exposure spectrum gets the continuum of the coadded spectrum of the same target at the same wavelengths; only exposures of targets with a valid coadd are read, and pixels or arms outside the coadd's forest are removed from the exposure. No exposure is paired with another target's continuum, for any order of targets; the coadds are unchanged, and a rank without valid spectra takes part.",
  ["inputs", "histories"], "every set of coadded and exposure spectra, arm coverage and order",
  "pairing and alignment over all arrangements",
  [Q + "scripts/qsonic_fit.py"], [("mpi_read_exposures_after", Q + "scripts/qsonic_fit.py")])
p("C22", "Inconsistent options are rejected before any data is read",
  "The fit program accepts a combination of options exactly when none of the documented conflicts holds (true continuum without mock analysis, fiducial mean flux or fiducial var_lss or together with an input continuum; input continuum model without its directory; empty wavelength or forest range; tile format with mocks, with healpix-wise saving or with exposures), and rejects before data is read, on every rank. Bounded numeric options accept exactly the documented range.",
  ["inputs", "configurations"], "every combination of the options involved and every numeric value",
  "the combination space is far larger than the tested cases",
  [Q + "scripts/qsonic_fit.py", Q + "io.py", Q + "picca_continuum.py"], [("args_logic_fnc_qsonic_fit", Q + "scripts/qsonic_fit.py")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
