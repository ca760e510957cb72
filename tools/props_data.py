"""Single source for properties.jsonl and MANIFEST.json (see gen_meta.py)."""
F = "py/redrock/"
def P(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, na=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                observe=observe, technique=technique, note=note, na=na, state=state or [])

VF = "value-flow analysis of the source (AST, interprocedural inlining, gated terms)"
PROPS = [
P("C01", "Every result is filed under the target whose data produced it",
  "For any list of targets, in any order and with any mix of numbers of spectra per target, every scan result and every refined fit is stored under the ID of the target whose spectra produced it, whether the run is serial, uses any number of worker processes, or is distributed over MPI. The lists of local target IDs and local target data that are consumed in parallel always agree position by position.",
  ["inputs", "configurations"], "all target lists, spectra counts, process counts and target-container classes",
  "The existing tests use a handful of targets with the same number of spectra, for which weight-sorting does not reorder anything; attribution must hold for every ordering and process count.",
  [F+"zscan.py", F+"zfind.py", F+"targets.py", F+"external/desi.py"],
  [("parallel ID/data lists handed to the scan", F+"zscan.py calc_zchi2_targets"), ("per-target refinement in workers", F+"zfind.py zfind/_mp_fitz"), ("local id/data containers", F+"targets.py DistTargetsCopy, external/desi.py DistTargetsDESI")],
  ["results dictionary keyed by target ID"],
  "order-provenance analysis: sequences are abstracted as element maps over a base sequence; parallel uses must share provenance",
  "Decides alignment of ID and data sequences at every producer/consumer site listed in the evidence (worker spawn, collection, serial zip, container classes). Assumes target IDs are unique and that numpy/multiprocessing preserve element order."),
P("C02", "Distributing work assigns every unit to exactly one process",
  "Splitting a list of work units over any number of processes, with any weights and any capacities, returns one list per process, and every unit appears in exactly one of these lists, exactly once; none is dropped, duplicated or invented. This also holds when results are split into batches for sending.",
  ["inputs", "configurations"], "all unit lists, weights, capacities, process counts and batch sizes",
  "The unit test samples a few weight vectors; a dropped or duplicated unit can depend on ties, capacities or on list length relative to the batch size.",
  [F+"utils.py", F+"targets.py", F+"zfind.py"],
  [("greedy assignment loop", F+"utils.py distribute_work"), ("weights per target", F+"targets.py distribute_targets"), ("batched send", F+"zfind.py zfind")],
  ["return value of distribute_work and distribute_targets"],
  "exactly-once dataflow: per-iteration append counting on all paths over a permutation of the input",
  "Decides that each iteration over a permutation of the input performs exactly one append of that unit into one of nproc fresh lists on every path, and that batch slices tile the item list. Does not bound the load balance."),
P("C03", "Redshift slices are reassembled completely and in grid order",
  "When the redshift grid is split over MPI ranks, each rank's slice is evaluated for every local target, stored under that slice's own position, and the slices are put back together in grid order, so chi2, coefficients and penalties line up with the template's full redshift grid for any number of ranks, also when there are more ranks than redshifts. The ring exchange passes each slice to one neighbour and takes one from the other, and stops exactly when a rank's own slice returns.",
  ["schedules", "configurations"], "all communicator sizes, ranks and grid lengths",
  "No test runs under MPI; the order in which slices arrive depends on rank.",
  [F+"zscan.py", F+"templates.py"],
  [("slice storage and concatenation", F+"zscan.py calc_zchi2_targets"), ("ring exchange", F+"templates.py DistTemplate.cycle")],
  ["zchi2/zcoeff/penalty arrays per target"],
  "value-flow and ordering analysis of the slice index from split to concatenation",
  "Decides the data path of the slice index (split, store, sorted concatenation, ring neighbours, termination test). Does not model the MPI library."),
P("C04", "Every MPI collective is reached by all ranks of its communicator",
  "No collective operation (barrier, broadcast, gather, scatter, all-gather, split, or a helper that performs one) is executed by some ranks of a communicator and skipped by others: whether it is reached, and how often, never depends on the rank, on rank-local data or on whether this rank uses a GPU.",
  ["schedules", "configurations"], "all ranks, communicator sizes and option combinations on non-error paths",
  "Tests never run with more than one rank, so a rank-divergent collective (a deadlock) cannot show.",
  [F+"zfind.py", F+"zscan.py", F+"templates.py", F+"targets.py", F+"utils.py", F+"external/desi.py", F+"external/boss.py", "bin/wrap-redrock"],
  [("timing helper with a barrier", F+"utils.py elapsed"), ("gather and batches", F+"zfind.py zfind"), ("file broadcast", F+"external/desi.py DistTargetsDESI")],
  ["hang of an MPI run"],
  "interprocedural rank-taint analysis of the control conditions of collective call sites",
  "Flags a collective whose controlling conditions (including earlier early exits and loop trip counts) are rank-tainted. Error paths (raise, Abort) are excluded."),
P("C05", "Point-to-point messages match and the gathered result is complete",
  "For every number of targets per rank, the root receives from every other rank exactly as many messages as that rank sends, in the same order, and the union of the messages is the whole of that rank's results; in the ring exchange every send has its matching receive and is completed before the buffer is replaced.",
  ["schedules", "configurations", "inputs"], "all ranks, communicator sizes and numbers of targets per rank",
  "No test runs with two ranks, and the batched branch needs thousands of targets.",
  [F+"zfind.py", F+"templates.py"],
  [("batched send/receive", F+"zfind.py zfind"), ("ring exchange", F+"templates.py DistTemplate.cycle")],
  ["merged results on the root"],
  "send/receive counting on value-flow terms of both sides of the protocol",
  "Decides that announced and actual message counts agree symbolically, slices tile the items, sources range over all other ranks."),
P("C06", "Serial, multi-process and MPI runs feed the same computation",
  "Scanning and refinement receive the same inputs (penalised chi2, redshift grid, template, and every user option such as number of minima, archetype, prior width, number of fine-grid points, nearest neighbours, GPU use) on the serial, multi-process and MPI paths, each option reaching the parameter it is meant for. Choosing a number of processes therefore never changes what is computed.",
  ["configurations", "schedules"], "all option values and execution modes",
  "The parity test uses default options only, with which swapped or dropped options do not show.",
  [F+"zfind.py", F+"zscan.py", F+"templates.py"],
  [("worker wrappers", F+"zfind.py _mp_fitz, zscan.py _mp_calc_zchi2"), ("serial calls", F+"zfind.py zfind, zscan.py calc_zchi2_targets")],
  ["arguments of the refinement and scan"],
  "sibling cross-check: per-parameter value terms of the serial and the worker call compared after inlining",
  "Decides equality of per-parameter terms for every call of the refinement and scan kernels on both paths."),
P("C07", "GPU and CPU code paths compute from the same inputs",
  "Wherever the code branches on GPU use, both branches use the same weights, data, template, solver algorithm, solver bounds, coefficient prior, redshifts and rebinning range; only the array library differs.",
  ["configurations"], "all GPU/CPU branch pairs and options",
  "GPU tests are skipped without a GPU, so a prior, bound or algorithm dropped from one branch is not seen.",
  [F+"zscan.py", F+"fitz.py", F+"archetypes.py", F+"rebin.py", F+"targets.py"],
  [("branch pairs on use_gpu", F+"zscan.py calc_zchi2_batch, solve_matrices; fitz.py; archetypes.py")],
  ["arguments of solver and kernels in both branches"],
  "sibling cross-check of branch pairs on GPU use, by parameter, modulo an array-library map",
  "Compares the semantic arguments of sibling calls; does not decide numerical equality of CUDA kernels."),
P("C08", "Output files appear atomically and a crash never loses the old one",
  "Every results, catalog and model file is written completely to a temporary file in the same directory, closed, and only then renamed onto its final name; until that rename the final name is never opened for writing, truncated or removed. A failure at any point therefore leaves either the complete old file or the complete new file (or neither if there was none) under the final name.",
  ["crash_points", "inputs"], "all crash points in every writer, for existing and absent destination files",
  "Tests never crash a writer, nor overwrite an existing output.",
  [F+"results.py", F+"external/desi.py", F+"external/boss.py"],
  [("write temp then rename", F+"results.py write_zscan, external/desi.py write_zbest/write_bestmodel, external/boss.py write_zbest")],
  ["directory contents at any crash point"],
  "path-effect typestate analysis (temp-write, close, rename) plus a who-may-write rule over all file-writing APIs",
  "Decides ordering of file effects on all non-exceptional paths and path provenance (same directory). Does not cover fsync durability or library-internal writes."),
P("C09", "A failing worker process ends the run with an error, never a hang",
  "If a worker process hits an exception while scanning or refining, the parent learns of it and the run stops with an error; the parent never waits forever for a message that a failed worker did not send, and never returns results that silently lack that worker's targets.",
  ["fault_sequences", "schedules"], "all exceptions raised in a worker at any point",
  "Tests never make a worker fail.",
  [F+"zscan.py", F+"zfind.py"],
  [("worker wrappers", F+"zscan.py _mp_calc_zchi2, zfind.py _mp_fitz"), ("parent collection loops", F+"zscan.py calc_zchi2_targets, zfind.py zfind")],
  ["parent process termination"],
  "must-send path analysis of worker entry points and receive/raise analysis of the parent",
  "Decides that every handled-exception path of a worker sends on each queue its parent blocks on and that the parent raises on the failure message. Workers killed by signals are outside."),
P("C10", "Warning bits are distinct, only accumulate, and reserved bits stay clear",
  "Each named warning is its own single bit, the bits reserved for post-processing are never set, the set of warnings that make a fit 'bad' consists of exactly: negative model, many outliers, fit limit, negative emission and bad minimum fit. Once a warning bit has been set for a fit, no later step clears or overwrites it.",
  ["inputs", "histories"], "all writes to warning values over the life of a fit, on every path",
  "Tests look at warnings of a few fits; clearing needs two conditions on the same fit.",
  [F+"zwarning.py", F+"fitz.py", F+"zfind.py", F+"external/desi.py"],
  [("bit definitions", F+"zwarning.py"), ("flagging sites", F+"fitz.py, zfind.py, external/desi.py")],
  ["zwarn column"],
  "constant evaluation of the mask class plus a bit-set accumulation analysis of all writes to warning values",
  "Decides every syntactic write to a warning value reached in the analysed packages."),
P("C11", "Candidates are ranked by quality then chi2 and numbered in that order",
  "For every target the returned candidates are ordered with good fits before bad fits and by increasing chi2 within each group, at most the requested number of candidates per spectral type is kept and these are the best ones of that type, and the candidate numbers count 0,1,2,... in the final order. All columns of a candidate move together.",
  ["inputs"], "all sets of candidates, warning values and numbers of minima",
  "The unit tests sort small tables; the trimming and re-sorting of several subtypes and late warning bits are not sampled.",
  [F+"zfind.py"],
  [("sort, trim, re-sort, number", F+"zfind.py zfind, sort_zfit_dict, sort_dict_by_cols, sort_zfit")],
  ["order and znum of the returned table"],
  "ordering analysis of table events (flag, sort, trim, re-sort, number) and sort-key composition",
  "Decides key composition and order of events on all paths of the finalisation of one target; numpy's lexsort and boolean ordering are trusted."),
P("C12", "Delta-chi2 compares each fit with the next distinct good fit",
  "The reported chi2 difference of a candidate is the smallest difference to a later-ranked candidate that is a good fit and lies further away in velocity than the smaller of the two candidates' limits, and 0 if there is none; the small-difference warning is raised exactly when another good, distinct candidate (better or worse) is closer in chi2 than the threshold. Both are computed on the final ranking.",
  ["inputs"], "all candidate lists, redshifts, warnings and per-candidate limits",
  "Tests sample a few candidate lists with one common velocity limit.",
  [F+"zfind.py", F+"constants.py"],
  [("calc_deltachi2", F+"zfind.py")],
  ["deltachi2 and zwarn columns"],
  "index-alignment and guard analysis of the pairwise comparison terms",
  "Decides which operands enter the comparison, that slices are aligned and that each exclusion condition is present with the right polarity."),
P("C13", "Masked pixels have no influence on chi2 or coefficients",
  "Pixels with zero inverse variance never contribute to the chi2, to the fitted coefficients or to the pixel count of a fit, whatever (finite) flux value they hold: every sum over pixels is weighted by the inverse variance.",
  ["inputs"], "all spectra, masks and template bases, on CPU and GPU paths",
  "Tests use fully unmasked spectra.",
  [F+"zscan.py", F+"fitz.py", F+"targets.py"],
  [("normal equations and chi2", F+"zscan.py calc_zchi2_batch, _zchi2_one, spectral_data"), ("pixel count", F+"fitz.py fitz")],
  ["chi2 and coefficients"],
  "abstract interpretation in a zero-where-masked domain: every reduction over pixels must be of a value that vanishes on masked pixels",
  "Decides the weighting of every pixel reduction in the fitting kernels and that weights are exactly the inverse variances. Assumes finite values."),
P("C14", "Every source of bad data masks its pixels, and nothing unmasks them",
  "For DESI input, a pixel with a non-finite flux or inverse variance, a non-zero mask value, a significantly negative flux, or a wavelength in one of the two problematic sky-line windows (unless that masking is switched off) has inverse variance zero in the fit; spectra whose resolution does not integrate to about one are masked there. For BOSS input the and-mask is honoured when requested. No step ever raises an inverse variance or un-masks a pixel.",
  ["inputs", "configurations"], "all input pixel values and masking options",
  "No stable test reads DESI or BOSS input with bad pixels.",
  [F+"external/desi.py", F+"external/boss.py", F+"targets.py"],
  [("masking at load", F+"external/desi.py DistTargetsDESI.__init__, rrdesi"), ("and-mask", F+"external/boss.py read_spectra"), ("resolution mask", F+"targets.py Spectrum.__init__")],
  ["ivar of the spectra entering the fit"],
  "effect analysis of all writes to inverse-variance arrays: required masking effects present, all effects monotone decreasing",
  "Decides presence, polarity and monotonicity of masking effects; thresholds are checked against the documented constants."),
P("C15", "Flux, variance, mask and resolution of a spectrum come from the same row",
  "When DESI spectra are loaded, flux, inverse variance, mask and resolution of each spectrum come from the same input row, camera and file, are attached to the target that the input table names for that row, and are paired with that camera's wavelength grid, for any number of files, cameras, exposures and targets and for every target selection.",
  ["inputs", "configurations"], "all files, target selections, numbers of exposures and rank assignments",
  "No stable test loads multi-file or multi-exposure input.",
  [F+"external/desi.py"],
  [("row bookkeeping and fill loops", F+"external/desi.py DistTargetsDESI.__init__")],
  ["spectra of each target"],
  "sibling cross-check of the four fill loops and provenance analysis of row indices",
  "Decides that the four fills use the same row selection, target test, offsets and per-row counter step and that all use the same nesting order as the pre-allocation."),
P("C16", "Failed solves and empty data give the sentinel chi2, never a good one",
  "Whenever the linear solve fails or is not implemented, or a target has no weight at all, the chi2 of that redshift is the huge sentinel value and the coefficients stay zero; a failed evaluation can never look like a good or zero chi2, in the coarse scan or in the refinement.",
  ["inputs", "fault_sequences"], "all failure kinds and redshifts, in every chi2 kernel",
  "Tests have no singular or fully masked systems on these paths.",
  [F+"zscan.py"],
  [("exception handlers and weight test", F+"zscan.py calc_zchi2_batch, _zchi2_one, calc_zchi2, solve_matrices")],
  ["zchi2 values"],
  "exception-path analysis: every handler of the solver and every zero-weight exit must yield the sentinel",
  "Decides that each solver call is covered by handlers for the solver's documented failures and that every such path stores the sentinel; the solver's own detection of singularity is trusted."),
P("C17", "The negative [OII] penalty is applied identically in scan and refinement",
  "For templates that define the [OII] window, the penalty for negative line flux is computed the same way from the coefficients of the redshift at hand and added to chi2 both when choosing coarse minima and when refining them; the penalty is never negative, is zero for non-negative line flux, and is stored separately from the unpenalised scan chi2.",
  ["inputs", "configurations"], "all templates, coefficients and execution paths",
  "The tests' templates do not exercise negative line flux.",
  [F+"zscan.py", F+"fitz.py", F+"zfind.py", F+"templates.py"],
  [("penalty function", F+"zscan.py calc_negOII_penalty"), ("uses", F+"zscan.py calc_zchi2, fitz.py fitz, zfind.py zfind")],
  ["penalty array, refined chi2"],
  VF+": guard and operand agreement of the penalty at its sites",
  "Decides guard, operands and sign of the penalty at each site and that minima are searched on scan chi2 plus penalty."),
P("C18", "At most the requested number of mutually distinct minima is returned",
  "The refinement of one template returns at most the requested number of minima, tried from the lowest coarse chi2 upwards, and no two of them are closer in velocity than the limit for that template class (the stellar limit for stars), judged on the refined redshifts; the returned minima are sorted by refined chi2.",
  ["inputs"], "all chi2 curves, templates and numbers of minima",
  "Tests refine a few synthetic curves; near-duplicates created by the refinement itself are not sampled.",
  [F+"fitz.py"],
  [("minimum loop", F+"fitz.py fitz, find_minima, get_dv")],
  ["fit table of one template"],
  "dominance analysis: every append of a minimum is dominated by the count check and by a separation check on the value appended",
  "Decides dominance and operands of the checks and of the final sort."),
P("C19", "Failed or out-of-range minimum fits are always flagged",
  "A parabola fit with too few points, a failed solve, a non-positive curvature, a vertex outside the sampled points or a non-positive minimum chi2 always carries the bad-minimum warning; a fit whose redshift reaches the first or last grid steps always carries the fit-limit warning; and when the parabola vertex lies outside the fine grid, redshift and chi2 are replaced together by those of the lowest sampled point. No candidate is returned unflagged in any of these cases.",
  ["inputs"], "all chi2 curves, including degenerate and monotonic ones",
  "Tests cover well-behaved parabolas.",
  [F+"fitz.py"],
  [("minfit and range tests", F+"fitz.py")],
  ["zwarn of each minimum"],
  "flag-guard analysis: for every listed failure condition there is a bit-setting (or flagged return) guarded by it on the path to the result",
  "Decides the guard and bit for each condition on the value that is returned."),
P("C20", "The details file is read back as it was written",
  "Everything the details writer stores (target list, scan chi2, penalty, coefficients, redshift grid per template, fit tables) is read back by the readers under the same names and attributed to the same target, including when only some targets are selected in any order, and text columns come back as text. A saved scan can be fed back into a run and gives the same scan values per target and template.",
  ["inputs", "histories"], "all results, templates, selections and column sets",
  "The round-trip tests read one small file with all targets and without archetype columns.",
  [F+"results.py"],
  [("writer and readers", F+"results.py write_zscan, read_zscan, read_zfit, read_zscan_redrock")],
  ["nested dictionaries and tables from the readers"],
  "writer/reader schema extraction and cross-check (dataset paths, row order, index provenance, text columns)",
  "Decides agreement of dataset names, index provenance and text-column decoding; value precision is not decided."),
P("C21", "Template names and headers identify exactly the templates used",
  "Combining a spectral type and subtype into a full type and parsing it back gives the same pair; output headers list name, version and file of each template used under matching numbers, and the reader of such headers reconstructs the same list of template files in the same order; a template list file selects exactly the files it names, in order.",
  ["inputs", "configurations"], "all template sets, subtypes and headers",
  "Tests parse a few hand-written headers.",
  [F+"templates.py", F+"external/desi.py", F+"external/boss.py"],
  [("make/parse full type", F+"templates.py"), ("header writers and reader", F+"external/desi.py _get_header, external/boss.py write_zbest, templates.py header2templatefiles")],
  ["FITS header keywords"],
  "format-string cross-check of writers and readers (keyword patterns, separator, index)",
  "Decides keyword patterns, index sharing and separator agreement."),
P("C22", "Shared-memory packing and unpacking restores every spectrum",
  "Packing a spectrum for worker processes and unpacking it, any number of times in any order, gives back the same wavelengths, fluxes, inverse variances and resolution matrices (both formats when present); no field is lost, swapped or left in packed form.",
  ["histories", "inputs"], "all pack/unpack histories, with and without a cached resolution matrix",
  "The test packs and unpacks one target once.",
  [F+"targets.py", F+"utils.py"],
  [("pack/unpack", F+"targets.py Spectrum.sharedmem_pack/sharedmem_unpack")],
  ["attributes of a spectrum"],
  "typestate and field-map inversion: composing the field maps of pack and unpack must be the identity on every path",
  "Decides the composition of symbolic field maps and the state flag; the array copy helper is assumed value-preserving except for checks on its shape/type handling."),
P("C23", "Rebinning never reads outside the template",
  "Every call that rebins a template first checks that the requested bins lie inside the template's range at every requested redshift and raises an error otherwise; no caller reaches the unchecked compiled kernels another way, and callers that supply the range themselves supply the template's lower edge at the highest redshift and its upper edge at the lowest redshift.",
  ["inputs"], "all templates, redshift ranges and wavelength grids, CPU and GPU",
  "The tests check one out-of-range call of one entry point.",
  [F+"rebin.py", F+"fitz.py", F+"archetypes.py", F+"templates.py"],
  [("range guard", F+"rebin.py trapz_rebin"), ("caller-supplied ranges", F+"rebin.py rebin_template, fitz.py fitz, archetypes.py rebin_template_batch")],
  ["ValueError or correct result"],
  "dominance analysis of kernel call sites, who-may-call rule, and extremum provenance of caller-supplied ranges",
  "Decides the guard and the provenance of the range arguments; does not prove the kernels' inner loops."),
P("C24", "The same IGM absorption is applied in scan, refinement and model",
  "Each template is multiplied exactly once by the IGM transmission of the model named by that template, at the redshift it was shifted to and on the wavelength grid it was rebinned to, in the coarse scan, in the refinement, in the archetype fits and in the evaluated best-fit model.",
  ["inputs", "configurations"], "all templates, redshifts and wavelength grids",
  "No test compares high-redshift models across these stages.",
  [F+"templates.py", F+"fitz.py", F+"archetypes.py", F+"igm.py"],
  [("transmission after rebinning", F+"templates.py DistTemplate, Template.eval; fitz.py fitz; archetypes.py")],
  ["templates entering each fit and evaluated models"],
  "value-flow cross-check: each rebinned template reaching a fit or model carries exactly one matching transmission factor",
  "Decides presence, multiplicity and argument agreement of the transmission factor."),
P("C25", "Best-fit models are evaluated from the fit of the same target",
  "The model of each target is evaluated from the redshift, type, subtype and coefficients of the row with its own target ID, with its own wavelength grid and resolution, and the rows of the model file are in the same order as the catalog rows written next to them, for any distribution of targets over ranks.",
  ["inputs", "configurations"], "all targets, fits, cameras and rank distributions",
  "Tests evaluate models for one target at a time.",
  [F+"targets.py", F+"templates.py", F+"external/desi.py"],
  [("eval_models/eval_model", F+"targets.py"), ("collection and sort", F+"external/desi.py rrdesi, write_bestmodel")],
  ["model arrays"],
  "provenance analysis of row, grid and coefficient operands and of the gather/sort permutation",
  "Decides operand provenance and that one permutation built from IDs is applied to every band."),
P("C26", "A redshift prior is applied once, to its own target, on every path",
  "When a prior file is given, the prior of a target is evaluated on each template's own redshift grid and added exactly once to that target's scan chi2 before minima are searched, for fresh and for reloaded scans and for every execution mode; a target without an entry gets no contribution; the prior functions use that target's own mean and width.",
  ["inputs", "configurations"], "all prior files, targets, templates and execution modes",
  "Unit tests cover only the prior functions themselves.",
  [F+"priors.py", F+"zfind.py"],
  [("application loop", F+"zfind.py zfind"), ("lookup", F+"priors.py Priors")],
  ["effective chi2"],
  "must-precede and exactly-once effect analysis with operand provenance",
  "Decides the application effect (operands, multiplicity, position before refinement) and the lookup's fallback."),
P("C27", "Every command-line option reaches the computation it controls",
  "Each option accepted by the DESI and BOSS command-line programs takes effect: its value flows to the corresponding setting (target selection, masking thresholds, number of minima, priors, saved scan, templates, archetypes, redshift ranges, outputs), and the batch launcher only builds command lines that these programs accept.",
  ["configurations"], "all options and option combinations",
  "The command-line programs are not run by the stable tests.",
  [F+"external/desi.py", F+"external/boss.py", "bin/wrap-redrock"],
  [("option plumbing", F+"external/desi.py rrdesi, external/boss.py rrboss"), ("launcher", "bin/wrap-redrock run_redrock")],
  ["settings passed to the library"],
  "value-flow analysis from each parser option to its consumer parameter, and launcher/parser vocabulary cross-check",
  "Decides existence of the flow to the expected parameter for each tabulated option, not its numerical effect."),
P("C28", "No accepted option combination reads a variable that was never set",
  "On every path through the library and the command-line programs, whatever combination of optional settings is given, a variable or name is set before it is read.",
  ["configurations", "inputs"], "all paths and option combinations of all functions",
  "Tests execute a few option combinations; the unset-variable paths need rarely used ones.",
  [F+"fitz.py", F+"zfind.py", F+"zscan.py", F+"archetypes.py", F+"external/desi.py", F+"external/boss.py"],
  [("definite assignment", "all functions of the package and programs")],
  ["UnboundLocalError or NameError"],
  "definite-assignment dataflow with guard correlation, and name resolution over all functions",
  "Loops are assumed to run at least once and correlated guards are recognised when they test the same unmodified value."),
P("C29", "Catalog tables describe the same targets in the same order",
  "For one DESI input file, row i of the redshift catalog, of the fibermap and of the template-signal table describe the same target, for every way of selecting targets (all, a range, or a list of IDs in any order), and no selected target that is present in the file is lost.",
  ["inputs", "configurations"], "all target selections and their orders",
  "No stable test runs a target selection.",
  [F+"external/desi.py", F+"zfind.py"],
  [("target selection and fibermap slicing", F+"external/desi.py DistTargetsDESI"), ("catalog order", F+"zfind.py zfind")],
  ["REDSHIFTS, FIBERMAP, TSNR2 extensions"],
  "order-provenance analysis of the selected ID list against the table slices",
  "Decides that the selected IDs keep the file's order and that tables are filtered by the same selection; several files sharing a target are outside."),
P("C30", "BOSS target numbers encode plate, MJD and fiber reversibly",
  "The number built from plate, MJD and fiber decodes back to exactly the same three values for every plate, five-digit MJD and fiber below ten thousand, and the number of a fiber never collides with another's.",
  ["inputs"], "all plates, MJDs and fibers in range",
  "No stable test covers the encoding.",
  [F+"external/boss.py"],
  [("mixed-radix encode/decode", F+"external/boss.py")],
  ["decoded triple"],
  "symbolic mixed-radix agreement between encoder and decoder",
  "Decides the radix algebra exactly for integer inputs of unbounded size."),
P("C31", "Missing data and coverage problems are flagged on the right targets",
  "Each candidate with no unmasked pixel is flagged as having no data, each with fewer unmasked pixels than ten times its number of coefficients as having little coverage; for DESI input the fibermap conditions (poor position, bad or unassigned or broken fibers, sky, non-targets, bad amplifiers or columns) set their documented warnings on the rows of exactly those targets, and the fits of targets without data are reported at redshift zero with zero coefficients.",
  ["inputs"], "all pixel counts, coefficient counts and fibermap statuses",
  "No stable test runs fits with these conditions through to the catalog.",
  [F+"zfind.py", F+"external/desi.py", F+"fitz.py"],
  [("flagging after the fit", F+"zfind.py zfind"), ("fibermap flags", F+"external/desi.py rrdesi")],
  ["zwarn column"],
  "flag-guard table check: for each documented condition the OR-ed bit and its row mask are compared as normalised terms",
  "Decides condition/bit agreement and row selection by target ID."),
P("C32", "Archetype coefficients keep one layout from fit to model",
  "The coefficient vector of an archetype fit is laid out as archetype coefficients followed by one block of polynomial coefficients per camera, and the code that builds, splits, stores and evaluates it agrees on block sizes, the number of cameras, the number of archetypes and the order of the cameras, with and without per-camera fitting, a prior or nearest neighbours; a prior is only ever put on the polynomial coefficients.",
  ["configurations", "inputs"], "all numbers of cameras, polynomial degrees, neighbours and prior settings",
  "Tests use one layout with fixed cameras.",
  [F+"archetypes.py", F+"zscan.py", F+"fitz.py", F+"targets.py"],
  [("layout sites", F+"zscan.py per_camera_coeff_with_least_square_batch, archetypes.py split_archetype_coeff, fitz.py prior_on_coeffs")],
  ["coeff and legcoeff columns"],
  "layout-term cross-check (offsets, strides, camera order) between builder, splitter, prior and evaluator",
  "Decides agreement of offsets and strides as symbolic terms."),
P("C33", "Coaddition combines only like spectra, weighted by inverse variance",
  "A coadd groups exactly the spectra that share a wavelength grid and camera, its weight is the sum of their inverse variances, its flux and resolution are their inverse-variance-weighted means, a pixel masked in all inputs has zero weight, and cosmic-ray rejection removes single exposures from these sums without modifying the inputs: a pixel is rejected where the differences of neighbouring pixels (masked pixels, values and inverse variances, interpolated from unmasked ones) scatter among the exposures beyond the threshold, and in the exposure that deviates most, weighted by the inverse of its summed variances.",
  ["inputs"], "all sets of exposures, masks and rejection thresholds",
  "Tests coadd identical unmasked spectra.",
  [F+"targets.py"],
  [("compute_coadd", F+"targets.py Target.compute_coadd")],
  ["coadded spectra"],
  "abstract interpretation of the accumulation terms (weighted sums, normalisation, grouping key)",
  "Decides the algebraic shape of the sums and normalisations and the grouping; not floating-point accuracy."),
P("C34", "Redshift, chi2 and coefficients of a candidate belong together",
  "The chi2, the redshift and the coefficients reported for a candidate describe one and the same model: the coefficients are those fitted at the reported redshift (or at the sampled redshift whose chi2 and redshift replace it), on the data and with the template whose chi2 is reported; an archetype candidate is fitted at the redshift, on the spectra and for the type of the minimum it belongs to and its chi2, coefficients and type come from one fit; and the fine redshift grid on which a minimum is refined is rebinned and evaluated for the same redshifts; and in the table of a target the type, the subtype and the number of coefficients of a candidate are those of the fit it comes from, and no coefficient of it is cut off.",
  ["inputs"], "all chi2 curves, including those whose parabola has its vertex outside the fine grid, with and without archetypes, on CPU and GPU",
  "Tests fit noise-free synthetic minima well inside the fine grid; the coefficients of rejected or replaced vertices are never looked at.",
  [F+"fitz.py", F+"zscan.py"],
  [("refinement of one minimum", F+"fitz.py fitz"), ("fits at given redshifts", F+"zscan.py calc_zchi2_batch")],
  ["Z, CHI2 and COEFF columns"],
  "co-derivation analysis: the row selectors of redshift, chi2 and coefficients of each stored candidate are compared path by path as normalised terms",
  "Decides that the stored values come from the same fit on every path; not the accuracy of the fit."),
P("C35", "BOSS spectra keep each fiber's data together and are filed under its target",
  "Each spectrum read from BOSS plate or frame files carries the flux, inverse variance, wavelength grid and resolution of one and the same fiber, cropped to the same pixels, and is filed under the identifier of that fiber (computed from plate, MJD and fiber, invertibly, or looked up in the THING_ID table of its own file); every selected observation of a target is kept; the targets and the metadata table list the same identifiers in the same order, and the BOSS catalog has exactly the best fit of every target.",
  ["inputs", "configurations"], "all plate and frame files, fiber selections, and numbers of input files",
  "No test reads a BOSS file; the errors need frames of the second spectrograph, several plates or a fiber selection.",
  [F+"external/boss.py"],
  [("reading plates and frames", F+"external/boss.py read_spectra"), ("target identifiers", F+"external/boss.py platemjdfiber2targetid, targetid2platemjdfiber"), ("catalog", F+"external/boss.py rrboss")],
  ["targets returned by read_spectra, BOSS catalog rows"],
  "co-indexing analysis of the value terms (row selector, extension and crop of every quantity, for plates and for frames) and evaluation of the selectors over the fiber numbers of a survey plate",
  "Decides that the selectors agree with the fiber number and with one another; not the values of the resolution matrix."),
P("C36", "A plot shows the data, the fit and the model it names",
  "In the interactive display, the model drawn over a spectrum is the fit it names: the template, coefficients and redshift of the selected fit of the displayed target, evaluated at the wavelengths and with the resolution of the spectrum it is drawn over, with no other factor; the flux drawn is that spectrum's without masked pixels; the chi2 curves, minima and labels are those of the displayed target and list exactly its set warning flags; the keys step through all targets and all fits one at a time and stay in range; targets without fits are left out.",
  ["inputs", "operator actions"], "all targets, fits, spectra and key sequences",
  "No test draws a plot; the errors need several targets, spectra with different resolutions, or a redshift far from zero.",
  [F+"plotspec.py"],
  [("model and data", F+"plotspec.py PlotSpec.plot"), ("target and fit selection", F+"plotspec.py PlotSpec.__init__, PlotSpec._onkeypress")],
  ["curves, points and labels given to matplotlib"],
  "co-indexing analysis of the value terms reaching the drawing calls (fit row, target, template, coefficients, redshift, resolution, mask) and evaluation of the index updates under each key",
  "Decides which quantities are drawn together and that no other factor enters; not the look of the figure."),
P("C37", "Templates carry the wavelengths, vectors and identity of their file",
  "A template or archetype read from a file has the wavelengths CRVAL1 + CDELT1 * pixel of its header (their power of ten exactly if LOGLAM is set), the vectors and redshifts stored in the file unchanged, and the type, subtype, version, method and absorption model of their own keywords, with the documented defaults only where a keyword is missing; archetype names and interpolators belong to the row they are stored under. A template file written by the template programs describes the grid of the vectors it holds, one file per subtype, with the keywords the reader needs.",
  ["inputs"], "all template and archetype files, with and without optional keywords",
  "Tests read the installed templates only; the template programs need packages that are not run in the tests.",
  [F+"templates.py", F+"archetypes.py", "bin/rrgaltemplate", "bin/rrqsotemplate", "bin/rrstartemplate", "bin/rrstarwdtemplate", "bin/rrconvertSDSStemplates"],
  [("reading templates", F+"templates.py Template.__init__"), ("reading archetypes", F+"archetypes.py Archetype.__init__"), ("writing templates", "bin/rrgaltemplate, rrqsotemplate, rrstartemplate, rrstarwdtemplate, rrconvertSDSStemplates")],
  ["Template and Archetype attributes, headers of written template files"],
  "evaluation of the readers' value terms for each set of header keywords against the file convention; header/grid consistency of the writers' value terms",
  "Decides the formula and the source of each attribute, not the contents of the files."),
P("C38", "The batch launcher runs every unfinished spectra file exactly once",
  "wrap-redrock runs every spectra file whose two outputs do not both exist, exactly once per campaign and under one rank: the work is partitioned over the ranks without omission or repetition, each rank runs the files of its own group, completion is judged by the names that will be written, the outputs of a file carry its own name, a failing file does not keep the others from running, a dry run starts nothing and moves no file, old logs are kept, a run with nothing left to do ends normally, and the batch job printed by --plan runs with the options it was planned with.",
  ["inputs", "crash points", "schedules"], "all sets of spectra files, ranks, options and states left by earlier runs",
  "No test runs the launcher; it needs MPI, a tree of spectra files and interrupted runs.",
  ["bin/wrap-redrock"],
  [("partition", "bin/wrap-redrock weighted_partition, group_specfiles"), ("selection", "bin/wrap-redrock find_specfiles, spectra2outfiles"), ("launch", "bin/wrap-redrock run_redrock, plan, backup_logs")],
  ["commands started, files and logs written"],
  "guard-coverage and value-flow analysis of the partition, selection, naming and launch code",
  "Balance of the load is not judged (N06); files with the same name in different directories are outside the statement when an output directory is given."),
P("C39", "IGM absorption follows its published model in every regime",
  "For every redshift and wavelength, each component of the Inoue14 model has the optical depth of its published equation for that regime, exactly once, and none longward of its own limit; the transmission is exp(-scale_tau times the sum of the four components), computed for every redshift with wavelengths shortward of Lyman alpha and 1 otherwise; the Calura12 and Kamble20 models multiply exp(-A (lobs/line)^B) of each line shortward of that line; coefficients come from their own columns, and no line lies longward of the wavelength where absorption is skipped.",
  ["inputs"], "all redshifts, wavelengths, models; CPU and GPU",
  "Tests check a few redshifts against each other (CPU with GPU, scalars with arrays), not the regimes or their boundaries.",
  [F+"igm.py", F+"constants.py"],
  [("Inoue14 optical depths", F+"igm.py Inoue14.tLSLAF, tLSDLA, tLCDLA, tLCLAF, full_IGM"), ("application", F+"igm.py transmission_IGM_Inoue14, transmission_Lyman_CaluraKamble"), ("coefficients", F+"igm.py Inoue14._load_data, constants.py")],
  ["transmission arrays"],
  "abstract evaluation of the mask and value terms to monomials over an exact cell decomposition of the (wavelength, redshift) plane, compared with the published equations",
  "The cells are exact because masks only compare wavelengths and redshifts with constants. The values of the coefficient tables are not judged (N03)."),
P("C40", "Every fit solves the weighted least-squares problem of its own spectra",
  "For every target, redshift and template, the model matrix T stacks, over all spectra of the target in the order of the data, the spectrum's own resolution matrix times the template rebinned to that spectrum's own wavelength grid at that redshift; the solver gets the matrix T'WT (plus the prior, when there is one) and the vector T'Wf with W the inverse variances and f the fluxes of the same spectra; the coefficients are the solver's solution for that redshift and the chi2 is the sum over pixels of W (f - T z)^2; the same holds on CPU and GPU, in the scan, the refinement and the archetype fits.",
  ["inputs"], "all targets, spectra (also several on one grid), redshifts, templates, solvers, priors; CPU and GPU",
  "Tests fit a few noiseless spectra whose best redshift is insensitive to a wrong weight, prior or resolution, and mostly have one spectrum per grid.",
  [F+"zscan.py", F+"fitz.py", F+"archetypes.py", F+"targets.py", F+"rebin.py"],
  [("model matrix", F+"zscan.py dot_product_sparse_one, calc_zchi2_one, _batch_dot_product_sparse_gpu"), ("normal equations and chi2", F+"zscan.py calc_zchi2_batch, _zchi2_one, solve_matrices"), ("data", F+"zscan.py spectral_data, "+F+"targets.py Target.gpu_spectral_data"), ("callers", F+"fitz.py fitz, "+F+"archetypes.py, "+F+"zscan.py calc_zchi2"), ("template per grid", F+"rebin.py rebin_template")],
  ["chi2 arrays", "coefficients"],
  "array expressions are reduced to an index normal form (sums of products of atoms with labelled axes) and compared with the normal equations; use-def tracing of spectra, grids and redshift indices",
  "Judges which problem is posed, not how well LAPACK, NNLS or BVLS solve it (N01), nor the CUDA text of the kernels. The rebinning itself is N02."),
# ---- not applicable
P("N01", "Fitted coefficients minimise the weighted chi2",
  "For every redshift the returned coefficients minimise the weighted squared residual within the bounds of the chosen solver, and the returned chi2 is that minimum.",
  ["inputs"], "all data vectors and templates", "Tests compare a few fits with known inputs.",
  [F+"zscan.py"], [("linear solvers", F+"zscan.py solve_matrices")], ["coefficients"],
  na="Optimality is a statement about floating-point values produced by LAPACK, NNLS and BVLS; no static argument over this source bounds it. The structural clauses (weighting, same algorithm and bounds on each path, sentinel on failure) are claimed in C07, C13 and C16."),
P("N02", "Rebinning conserves integrated flux",
  "Trapezoidal rebinning returns the exact bin averages of the piecewise-linear template for every grid and redshift.",
  ["inputs"], "all grids and fluxes", "Tests sample a few grids.",
  [F+"rebin.py"], [("trapezoidal kernels", F+"rebin.py")], ["rebinned arrays"],
  na="A numerical identity over loop-carried indices into run-time arrays; proving it needs deductive or symbolic methods, not a structural analysis. The memory-safety clause (range guard) is claimed in C23."),
P("N03", "IGM transmission lies between 0 and 1 and decreases with redshift",
  "The transmitted fraction is between 0 and 1 for every redshift and wavelength and is 1 redward of Lyman-alpha.",
  ["inputs"], "all redshifts and wavelengths", "Tests sample a few wavelengths.",
  [F+"igm.py"], [("optical depths", F+"igm.py")], ["transmission"],
  na="Depends on the values of fitted polynomial coefficients loaded from data files at run time; not visible in the shape of the code."),
P("N04", "The best redshift is the true one for good data",
  "For data generated from a template at some redshift with adequate signal-to-noise, the top candidate has that template's type and that redshift within its error.",
  ["inputs"], "all templates, redshifts and noise realisations", "Tests recover one redshift.",
  [F+"zfind.py"], [("whole pipeline", F+"zfind.py")], ["best redshift"],
  na="A statistical statement about run-time numerical results; no static argument applies."),
P("N05", "Results are bitwise reproducible across execution modes",
  "The same input gives bitwise-identical catalogs for any number of processes.",
  ["schedules"], "all process counts", "One parity test exists.",
  [F+"zscan.py"], [("kernels", F+"zscan.py")], ["catalog bytes"],
  na="Floating-point reduction order inside BLAS and CUDA kernels is not visible in this source; the decidable part (same inputs to the same kernels, same attribution) is claimed in C01 and C06."),
P("N06", "Work is balanced over processes",
  "The most loaded process carries at most a bounded multiple of the mean load per capacity.",
  ["inputs"], "all weights and capacities", "One unit test samples weights.",
  [F+"utils.py"], [("greedy assignment", F+"utils.py distribute_work")], ["assigned loads"],
  na="A quantitative bound on run-time weights; the greedy bound is a mathematical argument about values, not a shape of the code. The partition property is claimed in C02."),
]
