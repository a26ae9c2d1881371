"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in (state or [])],
                               observe_at=observe or [], hook_needed=None), _t=technique, _n=note))


PBT = "property-based testing: "

prop("C01", "Rebinning is the exact bin average of the interpolated spectrum, or refuses",
     "For every strictly increasing input grid, output bins (given as edges or as centres), redshift or list of redshifts and one or several "
     "basis vectors, trapz_rebin returns for each bin the average of the piecewise-linear interpolant of the redshifted input over that bin, "
     "in the documented array shape and without modifying its inputs. Bins that reach outside the input coverage at any of the redshifts, and "
     "x/y of different lengths, raise ValueError. Bin edges derived from centres are the midpoints, mirrored at both ends.",
     ["inputs"], "every grid, edges (also exactly on samples or at the end of coverage), redshift batch and basis count",
     "the tests rebin three fixed grids; wrong handling of bins inside one sample interval, at a sample or at the end of coverage is a matter of the input",
     ["py/redrock/rebin.py"], [("trapz_rebin", "py/redrock/rebin.py"), ("centers2edges", "py/redrock/rebin.py")],
     PBT + "Hypothesis grids against an independent exact integral of the interpolant",
     "CPU path only; agreement to 1e-9 of the local scale")

prop("C02", "IGM transmission equals the published model at every redshift and wavelength",
     "transmission_Lyman returns, for each named model and for scalar or array redshifts and wavelengths, the transmission of the published "
     "formulas element by element: within [0,1], exactly 1 redward of Lyman-alpha. When no array is demanded, None may stand only for all-ones. "
     "Unknown model names raise ValueError.",
     ["inputs"], "every model name, redshift in -0.01..7, observed wavelength 600..12000 A, scalar/array form",
     "the tests look at a handful of redshifts of one or two models and cannot cover all the piecewise branches",
     ["py/redrock/igm.py"], [("transmission_Lyman", "py/redrock/igm.py"), ("transmission_IGM", "py/redrock/igm.py")],
     PBT + "differential against an independent transcription of Inoue+14 / Calura12 / Kamble20",
     "elements within 1e-9 of a branch boundary are skipped; Inoue tables copied into vlib/data")

prop("C03", "Scanned models are the rebinned template times its IGM transmission",
     "The models a template is distributed as cover all template redshifts in order, however many MPI processes share them, and each equals the "
     "bin-averaged redshifted template on the camera's wavelength grid multiplied by the template's own IGM transmission. Cycling the pieces over "
     "the processes shows every process every redshift exactly once and returns each piece to its owner.",
     ["inputs", "configurations"], "templates x wavelength grids x 1..n MPI processes (also more processes than redshifts)",
     "tests build one template on one grid in one process",
     ["py/redrock/templates.py"], [("DistTemplate", "py/redrock/templates.py"), ("Template rebinning", "py/redrock/rebin.py")],
     PBT + "differential against reference integral x reference IGM; MPI emulated in-process with drawn schedules",
     "MPI is emulated (threads, pickled messages), as no MPI library is installed")

prop("C04", "The scanned chi2 is the weighted least-squares optimum of the template fit",
     "For every target, template and redshift, the scan reports a chi2 that is the weighted squared residual of its own reported coefficients over "
     "all spectra of that target, and for PCA templates no coefficients do better (non-negative templates: coefficients are never negative). "
     "Targets without any good pixel get the sentinel chi2, zero coefficients and zero penalty; input spectra are not modified.",
     ["inputs"], "targets with any number of spectra, masks, resolution; templates with 1..4 basis vectors, PCA or NMF",
     "tests compare two or three noiseless targets; optimality is over all coefficients and all data",
     ["py/redrock/zscan.py"], [("calc_zchi2_targets", "py/redrock/zscan.py"), ("calc_zchi2_batch", "py/redrock/zscan.py"), ("spectral_data", "py/redrock/zscan.py")],
     PBT + "Hypothesis worlds against an SVD least-squares reference built from independent rebinning/IGM",
     "optimality judged where the design matrix has condition number < 1e5; NMF optimality only for interior optima and single vectors")

prop("C05", "Masked pixels never influence any result",
     "The flux values in pixels with zero inverse variance do not change any scanned chi2, coefficient, redshift, warning or other column of the "
     "answer, with and without coaddition of the exposures.",
     ["inputs"], "any mask and any finite replacement values up to 1e100",
     "tests never vary flux under the mask",
     ["py/redrock/zscan.py", "py/redrock/fitz.py", "py/redrock/targets.py"],
     [("weighting by ivar", "py/redrock/zscan.py"), ("compute_coadd", "py/redrock/targets.py")],
     PBT + "metamorphic: junk under the mask, exact equality of all outputs", "full fits on small synthetic worlds")

prop("C06", "Flux units and order of the spectra do not change the answer",
     "Multiplying all fluxes by a constant (and inverse variances by its inverse square) leaves redshifts, chi2, errors and warnings unchanged and "
     "scales coefficients. Reordering the spectra of a target leaves the scanned chi2 unchanged.",
     ["inputs"], "any target and template set (unit change: PCA templates without the [OII] term), powers of two; any permutation",
     "tests use one flux scale and one order",
     ["py/redrock/zscan.py", "py/redrock/fitz.py", "py/redrock/zfind.py"], [("zfind", "py/redrock/zfind.py"), ("calc_zchi2_batch", "py/redrock/zscan.py")],
     PBT + "metamorphic relations", "power-of-two scaling so that equality is exact; GALAXY templates excluded from scaling because the penalty is linear in flux")

prop("C07", "The [OII] penalty is the negative [OII] flux of PCA galaxy fits and nothing else",
     "The penalty reported for a scan equals the absolute value of the summed [OII]-window flux of the fitted model when that sum is negative and the "
     "template is a PCA GALAXY template; it is zero in all other cases. The scanned chi2 does not contain it, the refined chi2 does.",
     ["inputs"], "templates of each type and method with [OII] of either sign, random targets",
     "tests assert nothing about the penalty",
     ["py/redrock/zscan.py", "py/redrock/fitz.py"], [("calc_negOII_penalty", "py/redrock/zscan.py"), ("fitz", "py/redrock/fitz.py")],
     PBT + "reference recomputation from reported coefficients", "window 3724-3733 A as documented in the code")

prop("C10", "The result of a target depends only on that target's own data",
     "Fitting a target alone, with others, or in another order gives bit-identical scan and table rows for it; the table lists the targets in input "
     "order, each with its own metadata.",
     ["inputs", "configurations"], "any set of targets (different exposure counts, masks, no data), any permutation and subset",
     "tests fit identical twin targets in a fixed order",
     ["py/redrock/zfind.py", "py/redrock/zscan.py", "py/redrock/targets.py"], [("zfind", "py/redrock/zfind.py"), ("calc_zchi2_targets", "py/redrock/zscan.py")],
     PBT + "metamorphic: permutation and restriction, exact comparison", "serial run; process layouts are C08 and C09")

prop("C11", "Refinement finds the best-fit redshift, error and flags around each scan minimum",
     "Every candidate belongs to one local minimum of the scanned curve, taken best first and skipping those closer than the velocity limit to a better "
     "one, up to the requested number, sorted by chi2. Redshift, error and chi2 are those of the parabola through the three lowest points of a fine "
     "best-fit chi2 scan between the neighbouring grid points, with BAD_MINFIT for an unusable parabola and Z_FITLIMIT at the ends of the template's range. "
     "The reported coefficients are the best fit at the reported redshift.",
     ["inputs"], "any coarse curve (true scans, plateaus, monotone, NaN/inf-bounded), 1..7 minima, 5..21 fine points, wide and narrow grids",
     "tests check one target whose minimum is parabolic",
     ["py/redrock/fitz.py"], [("fitz", "py/redrock/fitz.py"), ("minfit", "py/redrock/fitz.py"), ("find_minima", "py/redrock/fitz.py")],
     PBT + "reference refinement re-implemented from the independent least squares", "judged only where chi2 differences are well above rounding and thresholds are not met within 1e-6")

prop("C12", "The redshift table is the complete ranked merge of the per-template fits",
     "For every target and spectral type the table holds the best candidates (up to the requested number) of all templates of that type, and nothing "
     "else, ranked from 0 without gaps: usable fits by ascending chi2, then fits with a bad-fit warning by ascending chi2. Each row (redshift, error, chi2, "
     "coefficients, class, number of pixels, warnings, chi2 samples) equals the one found by fitting with its template alone. The order of the templates does not matter, and two templates of the same type and subtype are refused.",
     ["inputs"], "2..4 templates of equal and different types, 1..4 candidates, 1..3 targets",
     "tests look at the best row for two templates",
     ["py/redrock/zfind.py"], [("zfind merge", "py/redrock/zfind.py"), ("sort_zfit", "py/redrock/zfind.py")],
     PBT + "model: merge recomputed from single-template runs", "ties in chi2 are compared as sets")

prop("C13", "deltachi2 is the distance to the next different answer",
     "deltachi2 of a row is the chi2 difference to the next lower-ranked candidate of the same target that is not a bad fit and is separated by more than the "
     "velocity limit (the smaller of the limits of the two classes), or 0 if there is none. SMALL_DELTA_CHI2 is set exactly when such a separated, not bad "
     "candidate, ranked before or after, differs by less than 9 in chi2.",
     ["inputs"], "any fit with several templates and candidates",
     "tests assert one inequality", ["py/redrock/zfind.py"], [("calc_deltachi2", "py/redrock/zfind.py"), ("zfind", "py/redrock/zfind.py")],
     PBT + "model recomputed from the table", "pairs within rounding of the limit are skipped")

prop("C14", "ZWARN bits mean what the documentation says",
     "In every result row NODATA is set exactly when the target has no unmasked pixel, LITTLE_COVERAGE exactly when it has fewer than ten per fitted coefficient, "
     "Z_FITLIMIT when the redshift lies in the first or last interval of the template's redshifts, and BAD_MINFIT exactly when the chi2 parabola is unusable; npixels is "
     "the number of unmasked pixels. Bits that describe something else, or are reserved, are not set by the fit. Every mask name has its documented bit value.",
     ["inputs"], "targets of every quality: none, few, noisy, masked or good pixels",
     "tests check NODATA and the mask names only", ["py/redrock/zwarning.py", "py/redrock/zfind.py", "py/redrock/fitz.py"],
     [("ZWarningMask", "py/redrock/zwarning.py"), ("zfind", "py/redrock/zfind.py")],
     PBT + "invariants over all rows plus exhaustive mask-name checks", "rows in which a condition is within rounding are skipped")

prop("C15", "A spectrum made from a template is found at its redshift and type",
     "For a target generated from one of the templates (noiseless or with high signal to noise) the best answer is that template at that redshift, "
     "within the reported error and grid step, and the reported model reproduces the spectrum.",
     ["inputs"], "random templates (all types, IGM models), redshifts, cameras and exposures",
     "tests recover two fixed redshifts", ["py/redrock/zfind.py", "py/redrock/zscan.py", "py/redrock/fitz.py", "py/redrock/templates.py"],
     [("zfind", "py/redrock/zfind.py"), ("Template.eval", "py/redrock/templates.py")],
     PBT + "generate-and-recover oracle", "only redshifts inside the grid; templates with distinctive features")

prop("C16", "Redshift priors act on exactly the listed targets by their stated form",
     "A prior adds the stated gaussian, lorentzian or tophat penalty to the scanned chi2 of the targets it names and changes nothing for any other; the "
     "candidates refined are minima of the sum, and under a tophat no candidate lies outside the allowed interval by more than one grid step.",
     ["inputs"], "any prior kind, centre and width; any subset of targets", "tests run one prior file",
     ["py/redrock/priors.py", "py/redrock/zfind.py"], [("Priors", "py/redrock/priors.py"), ("zfind", "py/redrock/zfind.py")],
     PBT + "differential with and without the prior against the closed forms", "a tophat that excludes the grid of every template is not generated")

prop("C17", "Re-using a saved chi2 scan gives the result of the original run",
     "The saved scan holds every target and template of the run, and a run that re-uses it (for all targets, a subset or another order) returns the table "
     "of the run that wrote it. Re-using the re-used scan reproduces the answer exactly.",
     ["inputs", "histories"], "write, re-use, write, re-use over random worlds, subsets, orders and candidate counts", "tests never re-use a scan",
     ["py/redrock/zfind.py", "py/redrock/results.py"], [("read_zscan_redrock", "py/redrock/results.py"), ("zfind chi2_scan", "py/redrock/zfind.py")],
     PBT + "metamorphic over write/re-use histories", "first re-use compared where single-precision storage keeps the order of the minima")

prop("C18", "The details file gives back what the fit returned",
     "Everything written by write_zscan (scans per target and template, all table columns, best rows) is returned by read_zscan and read_zfit unchanged up "
     "to the documented single-precision columns, for the whole file, a list or a single target, in either case style. Writing leaves only the finished file and does not modify its input.",
     ["inputs", "histories"], "any target ids in the signed 64-bit range, template sets, selections", "tests round-trip one fixed result",
     ["py/redrock/results.py"], [("write_zscan", "py/redrock/results.py"), ("read_zscan", "py/redrock/results.py"), ("read_zfit", "py/redrock/results.py")],
     PBT + "round trip", "single-precision columns to 1e-6")

NOT_APPLICABLE = []
#MORE
prop("C08", "The number of worker processes does not change the answer or hang the run",
     "A redshift fit with any number of multiprocessing workers terminates and returns bit-identical scans and tables to the serial fit, for any number of "
     "targets with any mix of exposure counts, and leaves the targets' spectra unchanged.",
     ["configurations", "schedules", "inputs"], "1..7 targets x 2..6 workers x id types, coadded or not, packed in shared memory or not",
     "the tests compare one layout of identical twin targets", ["py/redrock/zscan.py", "py/redrock/zfind.py", "py/redrock/targets.py", "py/redrock/utils.py"],
     [("calc_zchi2_targets multiprocessing branch", "py/redrock/zscan.py"), ("zfind multiprocessing branch", "py/redrock/zfind.py"), ("sharedmem_pack/unpack", "py/redrock/targets.py")],
     PBT + "differential serial/parallel under a progress watchdog", "OS scheduling not controlled; hang = no CPU use by any process for 20 s")

prop("C34", "GPU runs give the CPU answer",
     "With use_gpu, rebinning, IGM transmission, the scan, the archetype fits, zfind and rrdesi give what they give without: the same scans, penalties, redshifts, types, warnings, models and files "
     "up to rounding, for any spectra, templates and options, with one or several GPUs, any number of ranks per GPU, with and without ranks that have no GPU, little GPU memory, targets that are "
     "re-fitted after coadding. No kernel reads or writes outside its arrays.",
     ["inputs", "configurations", "schedules"], "inputs x options x ranks x GPUs x thread orders", "the tests skip everything on a GPU where there is none, and otherwise compare two targets",
     ["py/redrock/rebin.py", "py/redrock/igm.py", "py/redrock/zscan.py", "py/redrock/fitz.py", "py/redrock/archetypes.py", "py/redrock/zfind.py", "py/redrock/templates.py", "py/redrock/targets.py", "py/redrock/external/desi.py"],
     [("CUDA kernels", "py/redrock/rebin.py"), ("_batch_dot_product_sparse_gpu and kernels", "py/redrock/zscan.py"), ("solve_matrices", "py/redrock/zscan.py"), ("_transmission_Lyman GPU", "py/redrock/igm.py"),
      ("getGPUCountMPI", "py/redrock/utils.py"), ("gpu_spectral_data", "py/redrock/targets.py")],
     PBT + "differential GPU/CPU, the GPU being a cupy stand-in on numpy that compiles the CUDA kernels as C++ with every index checked, threads in drawn orders; MPI emulated",
     "no GPU here: races between threads, asynchronous execution and cupy's own functions are not covered; targets whose answer hangs on the last digits are compared by their scan only")

prop("C32", "A failing worker process ends the run with an error",
     "If a worker process raises an exception, exits or is killed during the scan or the refinement, the run ends with an error: it neither waits forever nor "
     "returns an answer that differs from the one without the failure.",
     ["fault_sequences", "crash_points"], "failure kind x stage x number of uses before it x process count", "no test lets a worker fail",
     ["py/redrock/zscan.py", "py/redrock/zfind.py", "py/redrock/utils.py"], [("mp_get", "py/redrock/utils.py"), ("_mp_calc_zchi2", "py/redrock/zscan.py"), ("_mp_fitz", "py/redrock/zfind.py")],
     PBT + "generated fault injection under a progress watchdog", "faults are injected through the data; a worker killed half-way through a queue write is not covered")

prop("C09", "MPI runs give the serial answer on the root process, or an error, never a hang",
     "A fit whose targets and templates are distributed over any number of MPI processes (more than targets or redshifts included) returns, on rank 0 only, the "
     "scans and table of the serial fit with the targets in input order, for every order in which processes and messages progress. Each target is held by exactly one "
     "process, also when only the root process provides them. This holds as well with priors and with a re-used chi2 scan.",
     ["configurations", "schedules", "inputs"], "1..6 targets x 1..5 ranks x schedule x buffered/synchronous sends x plain, prior, re-used scan x root",
     "no MPI is exercised by the tests", ["py/redrock/targets.py", "py/redrock/templates.py", "py/redrock/zscan.py", "py/redrock/zfind.py"],
     [("DistTargetsCopy", "py/redrock/targets.py"), ("calc_zchi2_targets cycling", "py/redrock/zscan.py"), ("zfind gather", "py/redrock/zfind.py"), ("DistTemplate.cycle", "py/redrock/templates.py")],
     PBT + "differential serial/MPI with drawn schedules on an in-process MPI emulation that detects deadlock", "MPI is emulated (threads, pickled messages); penalty compared to 1e-9")

prop("C20", "Packing spectra into shared memory is transparent",
     "After any sequence of packing, unpacking, pickling and handing targets to other processes, every spectrum has the wavelengths, flux, inverse variance, "
     "resolution and identity it had at the start. What a process does to its unpacked copy stays there, and arrays placed in shared memory keep shape, type and values and are "
     "visible to child processes.",
     ["histories", "inputs"], "histories of pack/unpack/access/fork/pickle over spectra of every size, type and bandwidth", "tests pack once",
     ["py/redrock/targets.py", "py/redrock/utils.py"], [("Spectrum.sharedmem_pack/unpack", "py/redrock/targets.py"), ("mp_array", "py/redrock/utils.py")],
     PBT + "stateful histories against a snapshot", "fork start method, as the code uses")

prop("C21", "The coadd is the inverse-variance weighted combination of the exposures",
     "Coadded flux, inverse variance and resolution of each wavelength grid are the weighted mean, the sum and the weighted mean over the exposures, whatever their "
     "order, so that chi2 differences and coefficients of a fit are those of the exposures. Cosmic rejection removes outlying pixels as if they were masked and changes nothing where the exposures agree. "
     "Exposures are not modified and entirely masked ones have no effect.",
     ["inputs"], "1..3 cameras x 1..5 exposures in any order, any masks, weights and resolutions", "tests check the number of coadded spectra",
     ["py/redrock/targets.py"], [("Target.compute_coadd", "py/redrock/targets.py")],
     PBT + "reference weighted mean, metamorphic relations, fit equivalence", "resolution judged when exposures share it or have flat weights")

prop("C22", "Work is distributed completely and evenly over the processes",
     "Every work unit goes to exactly one process and nothing else is assigned. No process holds a unit that another would have finished earlier, so equal work differs by at most "
     "one unit and the largest load is within the greedy bound of the optimum. The distribution is the same on every call and leaves its arguments unchanged.",
     ["inputs"], "0..30 units, 1..9 processes, any weights and capacities", "tests distribute one list",
     ["py/redrock/utils.py", "py/redrock/targets.py"], [("distribute_work", "py/redrock/utils.py"), ("distribute_targets", "py/redrock/targets.py")],
     PBT + "validity predicate plus brute-force optimum", "positive weights and capacities")

prop("C23", "DESI files are read, cleaned and distributed completely and in the file's order",
     "For every set of DESI spectra or coadd files, the targets read are those asked for (all, by ID, by range) in the order of the file, each with exactly its "
     "exposures in every camera: wavelength, flux, inverse variance zeroed at masked, excessively negative or insufficiently covered pixels, and resolution. "
     "The fibermap, exposure fibermap and TSNR2 tables hold the rows of those targets in that order, and any number of MPI processes hold each target exactly once with the data a serial run reads.",
     ["inputs", "configurations"], "1..3 files x cameras x exposures x masks, selection by ID or range, coadd or not, 1..5 processes", "tests read one file of two targets",
     ["py/redrock/external/desi.py"], [("DistTargetsDESI", "py/redrock/external/desi.py"), ("_get_header", "py/redrock/external/desi.py")],
     PBT + "synthetic files against an independent reading", "files are synthetic; the fibermap coaddition is desispec's")

prop("C24", "rrdesi writes the fit of its input spectra, complete and consistent, or refuses",
     "For every valid input, template set and option set, rrdesi writes one REDSHIFTS row per requested target holding the best fit of the independently read and cleaned "
     "spectra, with the fibermap and TSNR2 rows of the same targets, warning bits for bad fibers, missing and poor data, and details that read back as they were fitted. "
     "The same output comes from every process count, MPI or multiprocessing, and an optional model file evaluates those best fits. "
     "Runs without needed arguments, templates or inputs end with an error and write no redshift file.",
     ["inputs", "configurations"], "files x templates x options x process counts", "tests run the program on one file with one template",
     ["py/redrock/external/desi.py", "py/redrock/results.py", "py/redrock/zfind.py"],
     [("rrdesi", "py/redrock/external/desi.py"), ("write_zbest", "py/redrock/external/desi.py"), ("write_bestmodel", "py/redrock/external/desi.py"), ("write_zscan", "py/redrock/results.py")],
     PBT + "end-to-end runs on synthetic files against independent reading and the directly called fit", "MPI is emulated; files are synthetic")

prop("C25", "Best models are the template at the fitted redshift, seen through the resolution",
     "For every redshift table and template set, the evaluated model of each row is the bin-averaged redshifted template of that row's type times its coefficients and IGM transmission, "
     "convolved with that row's resolution where one is given, in the row and camera order of the input and with zeros for rows without a fit. The same holds on any number of MPI processes.",
     ["inputs", "configurations"], "0..5 rows x 1..4 templates x 1..3 cameras x resolution given or not x 1..3 processes", "tests evaluate no model",
     ["py/redrock/templates.py"], [("eval_model", "py/redrock/templates.py"), ("Template.eval", "py/redrock/templates.py")],
     PBT + "differential against reference integral x reference IGM x resolution", "pixels at an IGM branch are not judged")


prop("C19", "Output files appear complete or not at all",
     "Every writer (scan details, redshifts, BOSS redshifts, best models) leaves at its path either a complete file of the new contents or what was there before, "
     "whatever point of the write fails: a full disk, unwritable data, or death of the process. A failed write is reported by an exception, a repeated write after a failure succeeds in spite of "
     "stale temporary files, and missing output directories are created or reported.",
     ["crash_points", "fault_sequences", "inputs"], "writer x contents x existing file x fault x point of the fault", "tests write files without any fault",
     ["py/redrock/results.py", "py/redrock/external/desi.py", "py/redrock/external/boss.py"],
     [("write_zscan", "py/redrock/results.py"), ("write_zbest", "py/redrock/external/desi.py"), ("write_zbest", "py/redrock/external/boss.py"), ("write_bestmodel", "py/redrock/external/desi.py")],
     PBT + "fault injection (file size limits, kills, bad data) in a child process, then reading what is left", "unsynced data at loss of the machine are not covered; write_zscan(clobber=True) may remove the old file first")

prop("C26", "SDSS plates are read completely and rrboss writes the fit of what it read",
     "From every set of spPlate files, or spPlate with spCFrame exposures, the targets asked for (all, by ID, by fiber, by range) are read with exactly their own exposures, wavelength, flux, "
     "masked inverse variance and resolution, and the table of targets has their rows. "
     "rrboss writes one row per target, holding the fit of those spectra and the identifiers of the plate, the same for any number of processes. "
     "Contradicting or missing arguments end the run with an error and write nothing.",
     ["inputs", "configurations"], "1..3 plates x fibers x exposures x masks x selections x options x process counts", "tests need SDSS files which are not there",
     ["py/redrock/external/boss.py"], [("read_spectra", "py/redrock/external/boss.py"), ("rrboss", "py/redrock/external/boss.py"), ("write_zbest", "py/redrock/external/boss.py")],
     PBT + "synthetic plates against an independent reading, end-to-end runs against the directly called fit", "files are synthetic with the HDUs and keywords of SDSS files; MPI is emulated")

prop("C27", "Template files and sets load as they say, and outputs name those they used",
     "A template file gives the flux, wavelengths, type, IGM model, fit method and redshifts it records, with documented defaults, whatever its numeric type, or raises for one it cannot honour. "
     "Files, directories, lists and environment settings resolve to the documented template sets. "
     "The templates and versions recorded in an output header are those used and can be loaded again from it.",
     ["inputs", "configurations"], "template headers, data types, directories, list files, default files, environment", "tests read one or two fixed templates",
     ["py/redrock/templates.py"], [("Template", "py/redrock/templates.py"), ("load_templates", "py/redrock/templates.py"), ("find_templates", "py/redrock/templates.py"), ("load_templates_from_header", "py/redrock/templates.py")],
     PBT + "generated files against an independent reading; round trip through output headers", "template files are synthetic")

prop("C28", "Identifiers, byte order, text and types are converted without loss",
     "Target IDs encode plate, MJD and fiber without loss for every integer type, full template types parse into the type and subtype they were made of, and archetype coefficients are split "
     "into archetype and Legendre parts of every camera. Byte order and text conversions of arrays and tables keep every value. "
     "The number of processes is that asked for or one the machine has.",
     ["inputs"], "all integer types, scalars and arrays, names, data types, environment settings", "tests convert a few fixed values",
     ["py/redrock/utils.py", "py/redrock/external/boss.py", "py/redrock/templates.py", "py/redrock/archetypes.py"],
     [("platemjdfiber2targetid", "py/redrock/external/boss.py"), ("parse_fulltype", "py/redrock/templates.py"), ("native_endian", "py/redrock/utils.py"), ("encode_column", "py/redrock/utils.py"), ("get_mp", "py/redrock/utils.py"), ("split_archetype_coeff", "py/redrock/archetypes.py")],
     PBT + "round trips and independent arithmetic", "template names without ':::'")


prop("C31", "wrap-redrock runs every unprocessed file once, with its options",
     "wrap-redrock finds every spectra file or plate below the given directory whose outputs are not both there, gives each to exactly one of any number of ranks, evenly, and runs for it a command that "
     "rrdesi or rrboss accept, with the options given and its own outputs and log; a failing command is tried twice, does not keep others from running, and keeps the earlier logs; missing outputs are reported. "
     "A dry run or plan runs nothing; the planned job has the same options, all files, nodes within the limit and enough time. The rrdesi and rrboss command-line programs give the result of the functions they start.",
     ["inputs", "configurations", "crash_points"], "file trees x options x ranks x failures x earlier state", "no test runs any of the programs",
     ["bin/wrap-redrock", "bin/rrdesi", "bin/rrdesi_mpi", "bin/rrboss", "bin/rrboss_mpi"], [("find_specfiles", "bin/wrap-redrock"), ("group_specfiles", "bin/wrap-redrock"), ("plan", "bin/wrap-redrock"), ("run_redrock", "bin/wrap-redrock")],
     PBT + "a recording stand-in for the commands, whose arguments go through the real parsers; differential against direct calls", "distinct file names; batch systems are not run; MPI emulated")

prop("C35", "rrplot shows the fit of the chosen target and row",
     "The figure of PlotSpec and rrplot shows, for the target and row reached by the keys pressed: the scan of that target with every template, all its fits, the redshift and chi2 of the row, the unmasked flux of each spectrum and "
     "the model of that row, template or archetype, before and after the resolution, its type, redshift and warnings. It shows all targets with results, of all files given, and moving between rows keeps the zoom.",
     ["inputs", "histories"], "targets x templates x archetypes x results x sequences of keys", "no test draws anything",
     ["py/redrock/plotspec.py", "bin/rrplot"], [("PlotSpec.plot", "py/redrock/plotspec.py"), ("PlotSpec._onkeypress", "py/redrock/plotspec.py"), ("rrplot", "bin/rrplot")],
     PBT + "generated key sequences; the data of the axes against the scan, the table and Target.eval_model", "drawn without a display; data and labels are judged, not pixels")

prop("C36", "Converted and installed template sets are those of their source, and load",
     "rrconvertSDSStemplates writes one template file per named SDSS spectrum, or one for all unnamed ones, and rrqsotemplate one file, which load as templates of the wavelengths, spectra, type, subtype and version "
     "of the input; inputs that lack what is needed give a failing exit code and no file. install_redrock_templates puts the files of exactly the version asked for where it was told (or into the code "
     "installation, where later programs find them), whatever the paths and $RR_TEMPLATE_DIR, and succeeds only if they load. It never touches a directory which is there already, and ends with a failing exit code "
     "if the version or repository is not there.",
     ["inputs", "configurations"], "SDSS template files x names x grids x paths; template repositories x versions x earlier state x environment", "no test runs any of these programs",
     ["bin/rrconvertSDSStemplates", "bin/rrqsotemplate", "bin/install_redrock_templates", "py/redrock/templates.py"],
     [("convert", "bin/rrconvertSDSStemplates"), ("main", "bin/install_redrock_templates"), ("Template", "py/redrock/templates.py"), ("get_template_dir", "py/redrock/templates.py")],
     PBT + "generated files and git repositories; what Template and find_templates load against the source", "names that differ in letters or digits; local git repositories; rrgaltemplate, rrstartemplate and rrstarwdtemplate need desisim and are not covered")

prop("C29", "Archetype fits are the best archetype plus Legendre terms at each redshift",
     "With archetypes, every redshift minimum keeps its redshift and error and gets the archetype of least chi2, fitted with non-negative amplitude together with Legendre terms common to, or "
     "separate for, the cameras, and in per-camera fits the prior; with nearest neighbours, the joint fit of that many best ones. "
     "The reported type, coefficients and chi2 are those of one model, which the evaluated model reproduces, for coadds and single exposures, any number of cameras and no data. "
     "Minima are sorted by the archetype chi2, and archetypes rebin to bin averages, or interpolations, of exactly those asked for.",
     ["inputs", "configurations"], "templates x archetypes x Legendre degree x per camera x prior x neighbours x exposures", "tests fit one target at one redshift and check the number of coefficients",
     ["py/redrock/archetypes.py", "py/redrock/fitz.py", "py/redrock/zscan.py", "py/redrock/targets.py"],
     [("get_best_archetype", "py/redrock/archetypes.py"), ("nearest_neighbour_model", "py/redrock/archetypes.py"), ("Archetype.rebin_template_batch", "py/redrock/archetypes.py"), ("per_camera_coeff_with_least_square_batch", "py/redrock/zscan.py"), ("Target.eval_model", "py/redrock/targets.py")],
     PBT + "differential against independent penalised least squares; metamorphic against the fit without archetypes", "the choice is judged where the optimum has positive amplitudes")


prop("C30", "Runs in archetype mode report the archetype fits, in whichever options",
     "With archetypes for all, some or other types than the templates, the table keeps for every target the best fits of each type in the documented order, each with its own type, method, "
     "coefficients, Legendre terms and template coefficients, for any number of processes. "
     "rrdesi with archetype options writes the fit with those options or their documented defaults, and models of the reported chi2, and names the archetypes used. "
     "Archetype files, directories and environment settings load exactly the archetypes they name, or raise if there are none.",
     ["inputs", "configurations"], "templates x archetypes x fit options x minima x exposures x process counts x file forms", "tests run a single archetype file with one set of options",
     ["py/redrock/zfind.py", "py/redrock/external/desi.py", "py/redrock/archetypes.py", "py/redrock/results.py"],
     [("zfind", "py/redrock/zfind.py"), ("rrdesi", "py/redrock/external/desi.py"), ("All_archetypes", "py/redrock/archetypes.py"), ("find_archetypes", "py/redrock/archetypes.py")],
     PBT + "model of the ranked table over directly computed single fits, end-to-end differential runs", "single fits are those of the code, which C11 and C29 judge; MPI is emulated")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                               technique=p["_t"], level="exploration", level_note=p["_n"]))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NOT_APPLICABLE),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
