"""Single source of the properties, what their checks run, and what makes a
case count. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, rule, units, observe=None, assumptions=None, **kw):
    PROPS[pid] = dict(
        property={
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe or [], "hook_needed": None}},
        check=dict(units=units, rule=rule, assumptions=assumptions or [], **kw))


prop("C01", "Numeric, boolean and duration settings are read exactly or refused",
     "Every number, boolean and duration a user writes in a setting is returned as exactly the value its text denotes (nearest representable for reals), for every integer width, signedness, list and default form. A text that is not such a value, has trailing rubbish, is empty, or does not fit the requested type is refused with an error and never read as some other value. A default is used exactly when the setting is absent.",
     ["inputs"], "all texts of a setting, all requested types, all defaults",
     "The tests read a few dozen literal values; boundary values, blanks, signs, hexadecimal forms, overflow and partial parses are an unbounded input space.",
     ["common/StringTools.cc", "common/ParameterValue.cc", "common/ParameterValue.h", "common/ParameterSet.cc", "common/ParameterSetImpl.cc"],
     [("strToInt/strToInt64/strToUint/strToDouble/strToBool", "common/StringTools.cc"), ("ParameterValue::get*", "common/ParameterValue.cc"), ("StringToTime", "common/ParameterValue.cc"), ("getInt/getUint/getDouble/...Vector", "common/ParameterSetImpl.cc")],
     "Generated texts (boundary integers of each width, hex, signs, blanks, exponents, rubbish suffixes, empty) are read through every typed accessor and compared with an independent big-integer / strtod based oracle. A case is non-trivial when the text is not a plain small decimal number: it lies at or over a type boundary, carries a sign, blank, base prefix, exponent or suffix, or must be refused.",
     ["parset"], ["common::ParameterValue and ParameterSet accessors"])

prop("C02", "Array shorthand expands to exactly the values it denotes",
     "An array value with ranges, zero-padded ranges, repetition counts, nested groups and quoted strings expands to exactly the sequence of values it denotes, in order, whatever the nesting. Text inside quotes is never expanded and text that is no array is returned unchanged. Expansion always terminates.",
     ["inputs"], "all array texts combining ranges, repetition, nesting, quotes, blanks and signs",
     "The tests expand about twenty fixed strings; combinations of nesting, padding, descending ranges and limits are not enumerable.",
     ["common/StringTools.cc", "common/ParameterValue.cc", "common/ParameterSetImpl.cc"],
     [("expandArrayString/expandRangeString/expandMultString", "common/StringTools.cc"), ("ParameterValue::expand", "common/ParameterValue.cc")],
     "A random sequence expression tree is rendered to text together with the flat sequence it denotes, and both library expansion and typed vector accessors are compared with it. Non-trivial: the text contains a range, a repetition or a quoted element.",
     ["parset"], ["common::expandArrayString, ParameterSet::get*Vector(key, true)"])

prop("C03", "Lists and records split exactly by nesting and quotes",
     "A list or record value splits at exactly its own top-level separators: brackets, parentheses, braces and quotes protect what they enclose, surrounding blanks are dropped and quoted text is returned verbatim. Unbalanced brackets, missing quotes and malformed records are refused. Writing a record and reading it back gives the same record.",
     ["inputs"], "all nested values up to a random depth, with and without a single-character damage",
     "The tests split a handful of flat values.",
     ["common/ParameterValue.cc", "common/ParameterRecord.cc", "common/StringTools.cc"],
     [("ParameterValue::splitValue/getVector/getRecord/getString", "common/ParameterValue.cc"), ("skipQuoted/skipBalanced", "common/StringTools.cc"), ("ParameterRecord operator<<", "common/ParameterRecord.cc")],
     "A random tree of vectors, records, quoted and bare scalars is rendered to text; every node obtained through the library is compared with the tree. A second section damages one bracket or quote and requires refusal. Non-trivial: at least one nested or quoted node, or a damaged text.",
     ["parset"], ["ParameterValue::getVector/getRecord/getString"])

prop("C04", "Parameter text is read as written and survives being rewritten",
     "Reading a parameter text yields exactly the key/value pairs written in it: comments outside quotes, blank lines, line continuations, surrounding blanks, carriage returns, repeated keys (the last wins), prefixes and command-line arguments included. Writing a parameter set to a file, text or buffer and reading that back gives the same set. A line without a key or without an assignment is refused.",
     ["inputs"], "all parameter texts made of these elements, all prefixes, all argument lists",
     "The tests read two fixed texts.",
     ["common/ParameterSetImpl.cc", "common/ParameterSet.cc"],
     [("readStream/addMergeLine", "common/ParameterSetImpl.cc"), ("writeFile/writeBuffer/writeStream", "common/ParameterSetImpl.cc"), ("adoptArgv", "common/ParameterSetImpl.cc")],
     "A random list of assignments is rendered with comments, continuations, quotes, blanks, CRLF and prefixes, read back via file, buffer, argument list and re-written output, and compared with the model. Non-trivial: the text has a comment, a continuation, a quoted value, a repeated key or a prefix.",
     ["parset"], ["ParameterSet::adoptFile/adoptBuffer/adoptArgv/writeFile/writeBuffer"])

prop("C05", "Selecting, merging and editing parameter groups is exact",
     "Taking the subset of a group, removing a group, merging another set under a prefix, adding, replacing and removing keys and locating a module change exactly the named keys and no others, in case-sensitive as well as case-insensitive sets. Subsets and copies are independent of, or share with, the original exactly as documented. Adding a key that exists and asking for one that does not are refused.",
     ["histories", "inputs"], "all histories of edit operations on sets with overlapping key prefixes",
     "The tests do one subset; interleaved histories over keys that are prefixes of each other are never sampled.",
     ["common/ParameterSetImpl.cc", "common/ParameterSet.cc", "common/ParameterSet.h"],
     [("makeSubset/subtractSubset/adoptCollection/merge", "common/ParameterSetImpl.cc"), ("add/replace/remove/find", "common/ParameterSetImpl.cc"), ("locateModule/fullModuleName", "common/ParameterSetImpl.cc")],
     "Random histories of edits on several sets are mirrored on an ordinary map; after every step the complete contents, size, definedness and lookups are compared. Non-trivial: the history has at least one subset/merge/removal that affects some but not all keys.",
     ["parset"], ["ParameterSet public interface"])

prop("C06", "Settings nobody asked for are reported, and only those",
     "After a run, the reported unused settings are exactly the settings that were given but never asked for, whichever accessor, sub-group, copy or letter case was used to ask. Checking whether a setting exists, or printing the set, does not change that report.",
     ["histories"], "all sets of given keys and all histories of queries through subsets and copies",
     "No test reads the report.",
     ["common/ParameterSetImpl.cc", "common/ParameterSet.cc"],
     [("itsAskedParms / unusedKeys", "common/ParameterSetImpl.cc"), ("makeSubset shares the asked set", "common/ParameterSetImpl.cc")],
     "Random query histories over generated key sets are mirrored in a model of asked keys; the report is compared after every phase. Non-trivial: some keys are used and some are not.",
     ["parset"], ["ParameterSet::unusedKeys"])

prop("C07", "A parameter set can be shared between threads",
     "Threads that query one parameter set, its copies and its subsets while others add new settings never corrupt memory or race, and every query returns a value that was given for that key and was defined at some moment of the query. No addition is lost or seen partially, and the report of unused settings afterwards equals the one of a sequential run.",
     ["schedules"], "all interleavings of queries, sub-group queries, module lookups and additions on shared sets",
     "All tests are single threaded.",
     ["common/ParameterSetImpl.cc", "common/ParameterSetImpl.h", "common/ParameterSet.h"],
     [("itsMutex", "common/ParameterSetImpl.h")],
     "Several threads run random query/add scripts against shared sets under ThreadSanitizer, with random delays; the recorded per-operation history (start/end stamps) is checked against monotone visibility of each key, and the final contents and unused report against the model. Non-trivial: at least two operations of different threads on the same key overlapped in time.",
     ["parset_threads"], ["ParameterSet used from several threads"])

prop("C08", "Per-station settings give each station the value meant for it",
     "A per-station setting gives every station the value of the last list item that selects it, where an item names one or more wildcard patterns, later patterns of an item can exclude stations again with a leading exclamation mark or caret, and a station no item selects keeps its previous value. An item without a value separator or with a value that is not a number is refused.",
     ["inputs"], "all station lists, name patterns, value lists and defaults",
     "No test covers per-station settings.",
     ["common/ValuePerStationParsing.h", "common/StringTools.cc"],
     [("ParseValuePerStation", "common/ValuePerStationParsing.h"), ("PatternToRegex", "common/StringTools.cc")],
     "Random station names, wildcard patterns and value lists are given to the library; an independent glob matcher and last-match rule give the expected table. Non-trivial: at least one pattern matches several but not all stations, or two entries match the same station.",
     ["parset"], ["common::ParseValuePerStation"])

prop("C10", "Baseline numbering is a bijection with station pairs",
     "For every number of stations and either baseline ordering, converting a station pair to its baseline number and back returns the same pair, numbers cover 0 up to the number of baselines exactly once, the pair order does not matter, and the list of baselines of one station holds exactly the baselines that station takes part in.",
     ["inputs"], "all station counts and station pairs",
     "Tests cover a few small station counts; the inverse uses a floating-point square root whose rounding matters at large counts.",
     ["common/baseline_indices.h"],
     [("ComputeBaselineIndex/ComputeBaseline/ComputeBaselineList", "common/baseline_indices.h")],
     "All pairs for every station count up to a bound (both orderings) and random pairs at counts up to tens of thousands are mapped both ways against an independently enumerated table. Non-trivial: at least three stations.",
     ["common"], ["common::ComputeBaselineIndex / ComputeBaseline / ComputeBaselineList"])

prop("C11", "Byte-order conversion and flag packing lose nothing",
     "Converting data between byte orders reverses the bytes of every element and nothing else, in place and to another buffer, and twice gives the original. Packing flags to bits and unpacking them gives the same flags at any start position and count, and bits and bytes outside that range keep their value.",
     ["inputs"], "all buffers, element types, lengths, start positions and alignments",
     "The tests convert one or two values; flag packing at odd positions is untested.",
     ["common/DataConvert.cc", "common/DataConvert.h"],
     [("byteSwap*/dataConvert*", "common/DataConvert.cc"), ("boolToBit/bitToBool", "common/DataConvert.cc")],
     "Random buffers inside exactly sized heap blocks (so that the address sanitizer sees every overrun) are converted and compared byte by byte and bit by bit with a reference. Non-trivial: more than one element, or a start position that is no multiple of eight.",
     ["common"], ["common::dataConvert*, boolToBit, bitToBool"])

prop("C12", "The median is the middle value and leaves its input alone",
     "The median of a non-empty collection is the middle value of its sorted order, or the mean of the two middle values for an even count; it is zero for an empty collection and does not depend on the order of the input. The non-modifying form leaves its input untouched.",
     ["inputs"], "all collections of finite values",
     "Tests cover a handful of vectors.",
     ["common/Median.h"], [("Median / InPlaceMedian", "common/Median.h")],
     "Random collections with ties, negatives, extremes and all small sizes are compared with a full sort. Non-trivial: at least two distinct values.",
     ["common"], ["common::Median"])

prop("C13", "The data fields a pipeline needs are exactly derived from its steps",
     "Combining, intersecting and removing field requirements behaves as set algebra, and for every chain of steps with declared required and provided fields, the fields asked from the input are exactly those some step reads before an earlier step has provided them.",
     ["inputs", "configurations"], "all field sets and all step chains",
     "Tests combine a few fixed sets.",
     ["common/Fields.cc", "common/Fields.h"], [("Fields operators, UpdateRequirements", "common/Fields.h, common/Fields.cc")],
     "All pairs of field sets are compared with a bit-mask model, and random chains are folded backward through the library and simulated forward by the oracle. Non-trivial: a chain of at least two steps where some step provides a field.",
     ["common"], ["common::Fields"])

prop("C14", "Quantities are printed with the right value and unit prefix",
     "Printing a quantity with an SI prefix shows a number and prefix whose product is the quantity within the printed precision, for every magnitude and sign, and picks a prefix that keeps the number readable.",
     ["inputs"], "all finite values and precisions",
     "Tests print a few values.",
     ["common/PrettyUnits.cc", "common/PrettyUnits.h"], [("PrettyUnits::pretty", "common/PrettyUnits.cc")],
     "Random values over the whole exponent range, including values that round up to the next power of ten, are printed, parsed back by the oracle and compared. Non-trivial: a prefix was used.",
     ["common"], ["common::PrettyUnits text"])

prop("C20", "Linear least-squares solvers return the least-squares solution",
     "For every full-rank overdetermined complex system with any number of right-hand sides, each selectable solver returns the solution that minimises the residual, in the same place of the output, also when the solver object is reused. Systems without a unique solution are reported as failed, or get the shortest exact solution from the solver that supports it, and unknown solver names are refused.",
     ["inputs", "configurations"], "all solver types, matrix shapes, right-hand side counts, scales and reuse histories",
     "The tests solve one or two tiny systems with a single right-hand side.",
     ["ddecal/linear_solvers/LLSSolver.cc", "ddecal/linear_solvers/LLSSolver.h", "ddecal/linear_solvers/QRSolver.h", "ddecal/linear_solvers/SVDSolver.h", "ddecal/linear_solvers/NormalEquationsSolver.h"],
     [("Solve via LAPACK gels/gelss/posv", "ddecal/linear_solvers/*.h"), ("Make/ParseType", "ddecal/linear_solvers/LLSSolver.cc")],
     "Random well-conditioned systems of random shape are solved and compared with a long-double elimination of the normal equations; underdetermined and singular systems are checked for refusal or for the exact shortest solution. Non-trivial: more rows than columns and at least two unknowns, or an under-determined or singular system.",
     ["cal"], ["LLSSolver::Solve"])

prop("C21", "Resampled solutions hold, at each moment, the solution covering it",
     "When directions have different numbers of solutions per interval, resampling to a regular grid gives every antenna, direction, channel block and polarization at every sub-step exactly the solution whose part of the interval covers that sub-step, for plain solutions as well as for constraint results with their weights and meta data. The number of sub-steps is a common multiple of the numbers of solutions and no larger than the solution interval.",
     ["inputs", "configurations"], "all solution intervals, divisor combinations, antenna/direction/polarization/channel counts",
     "Tests resample a couple of fixed configurations.",
     ["ddecal/SolutionResampler.cc", "ddecal/SolutionResampler.h", "ddecal/constraints/ConstraintResult.h"],
     [("Upsample / MapResampledToOriginal", "ddecal/SolutionResampler.cc")],
     "Solutions carrying unique identifiers are resampled, and each output value is traced back to the interval part that covers it. Non-trivial: more than one direction, and at least one with several solutions.",
     ["cal"], ["SolutionResampler::Upsample"])

prop("C22", "Applying gains and subtracting models touch exactly the cross visibilities",
     "Applying station gain matrices replaces each cross-correlation by the first station's matrix times the visibility times the conjugate transpose of the second's, and subtracting removes weight times model from each correlation and reports the total parallel-hand power before and after, ignoring invalid samples. Autocorrelations, gains, models and any memory between the strided elements stay untouched, for every memory layout.",
     ["inputs"], "all baselines, channel counts, gain matrices, models, weights, strides and invalid samples",
     "No stable test runs these functions.",
     ["base/Apply.cc", "base/SubtractMixed.cc", "base/Cursor.h"],
     [("apply", "base/Apply.cc"), ("subtract", "base/SubtractMixed.cc"), ("cursor strides", "base/Cursor.h")],
     "Random visibilities in exactly sized strided buffers with guard values in the gaps are processed and compared element by element with a direct matrix product / subtraction in double precision. Non-trivial: at least one cross-correlation.",
     ["cal"], ["base::apply, base::subtract"])

prop("C23", "TEC fits return the model that fits the phases, and its true cost",
     "Fitting one- or two-parameter TEC models to well-sampled phases with any wrapping and small noise finds parameters whose weighted mean deviation is as low as that of the true parameters, leaves phases that obey the fitted model, and returns exactly that deviation as the cost. The result does not depend on earlier contents of the output variables, the scale of the weights or the phases of channels without weight.",
     ["inputs"], "all bands, TEC values and offsets within the search range, weights, wraps and small noise",
     "The existing test of this fitter cannot be built here and samples a few models.",
     ["base/PhaseFitter.cc", "base/PhaseFitter.h"],
     [("FitDataToTEC1Model/FitDataToTEC2Model", "base/PhaseFitter.cc"), ("TEC1ModelCost/TEC2ModelCost", "base/PhaseFitter.cc")],
     "Phases of a random model over a random band are fitted; the oracle recomputes costs, model phases and compares with the cost of the true parameters. Every case is non-trivial (random band, parameters and weights).",
     ["fits"], ["PhaseFitter public interface"], ["At least 20 channels over 25-60 MHz around 110-200 MHz, weights within a factor of six: outside that domain the fit is a heuristic."])

prop("C24", "TEC, offset and delay fits find the best model",
     "The linear fit of TEC, delay and optionally offset is the weighted least-squares solution. The wrapped search finds, for data that follow a model within the searched number of wraps, parameters that fit as well as the true ones when an offset is fitted, and never worse than a linear fit from any grid point when not. Evaluated model phases agree with the parameters and lie within one turn around zero.",
     ["inputs"], "all frequency axes, parameters within the searched wraps, weights, offsets, both fitting methods",
     "The existing test fits a few fixed models and cannot be built here.",
     ["ddecal/constraints/TecOffsetDelayFitting.cc", "ddecal/constraints/TecOffsetDelayFitting.h"],
     [("LinearSolve", "ddecal/constraints/TecOffsetDelayFitting.cc"), ("TecOffsetDelayGridSearch", "ddecal/constraints/TecOffsetDelayFitting.cc"), ("VonMisesCost/Derivative", "ddecal/constraints/TecOffsetDelayFitting.cc")],
     "Random models are wrapped, optionally with small noise, and fitted with both methods; the oracle compares costs with those of the true parameters and checks orthogonality of least-squares residuals. Every case is non-trivial (random axis and parameters).",
     ["fits"], ["TecOffsetDelayGridSearch, LinearTec*Solve, EvaluateLinearTecOffsetValues"])

prop("C25", "Wrapped phase slopes are recovered for any grid",
     "Fitting a slope through the origin to wrapped phases on any sorted grid, of any sign and with repeated or nearly equal values, returns the weighted least-squares slope of the correctly unwrapped data whenever the slope lies within the searched range. Data that determine nothing give a finite answer.",
     ["inputs"], "all sorted grids, slopes within the resolvable range, weights, wraps and small noise",
     "The existing test uses positive regular grids and cannot be built here.",
     ["common/PhaseLineFitter.h"],
     [("GetRange / FitSlope / UnwrapAndFit", "common/PhaseLineFitter.h")],
     "Random grids (frequencies, squared wavelengths, irregular, negative, with duplicates) and slopes are fitted; the oracle checks the wrapped residual and its orthogonality. Every case is non-trivial.",
     ["fits"], ["common::phase_fitting::FitSlope"])

prop("C26", "Smoothing over frequency is the kernel-weighted mean",
     "Smoothing replaces each channel by the mean of the channels in its window weighted with kernel value times data weight, where each kernel is symmetric and has its documented shape and size scaling with frequency and factor. Constant data stay constant, channels without weight have no influence, a channel with no weight in reach becomes invalid, and weights are left alone.",
     ["inputs", "configurations"], "all channel grids, kernel types, bandwidths, exponents, factors, truncation and weights",
     "No stable test covers smoothing.",
     ["ddecal/constraints/KernelSmoother.h"],
     [("Kernel / Smooth", "ddecal/constraints/KernelSmoother.h")],
     "Random series on random grids are smoothed with a reused smoother and compared with the directly evaluated weighted mean over the admissible windows. Non-trivial: at least three channels.",
     ["fits"], ["KernelSmoother::Smooth"])

prop("C27", "Piece-wise phase fits reproduce straight phase lines",
     "Fitting phases piece-wise or with a sliding window reproduces every wrapped straight line whose change over a window is less than half a turn, weighted or not, for every chunk size, whatever the scale of the weights and with channels that have no weight. Unwrapping changes values by whole turns only and leaves steps of at most half a turn, and the weighted median has at most half the weight on either side.",
     ["inputs"], "all channel counts, chunk sizes, slopes, offsets and weights",
     "No stable test covers these fits.",
     ["ddecal/constraints/PieceWisePhaseFitter.h"],
     [("SlidingFit/PieceWiseFit/fitSlope", "ddecal/constraints/PieceWisePhaseFitter.h"), ("WeightedMedian/Unwrap", "ddecal/constraints/PieceWisePhaseFitter.h")],
     "Random lines are wrapped, fitted with both methods and compared modulo a turn. Non-trivial: a chunk size above one and more than two channels.",
     ["fits"], ["PieceWisePhaseFitter public interface"])

prop("C30", "Component fluxes follow the spectral and rotation-measure laws",
     "For every frequency, the Stokes values of a sky-model component equal the reference values scaled by the documented logarithmic or linear polynomial, Stokes Q and U follow the polarized fraction, angle and rotation measure when given, V and the reference values never change, and inspecting any sequence of components yields exactly each component's own attributes.",
     ["inputs", "histories"], "all reference fluxes, frequencies, numbers of spectral terms, rotation measures and orders of inspection",
     "The model flux enters every prediction; no stable test evaluates it.",
     ["base/PointSource.cc", "base/GaussianSource.cc", "base/ComponentInfo.cc"],
     [("PointSource::stokes(freq)", "base/PointSource.cc"), ("ComponentInfo::inspect", "base/ComponentInfo.cc")],
     "Random components are evaluated and compared with the law in extended precision; one inspector visits random sequences of components built in dirtied memory. Non-trivial: spectral terms or a rotation measure; more than one component.",
     ["sky"], ["PointSource, GaussianSource and ComponentInfo public interfaces"], ["stand-in for casacore's constants"])
prop("C31", "Patches are centred on their components and clustering is a partition",
     "The direction of a patch is the direction of the mean (or flux-weighted mean) unit vector of its components, wherever they lie on the sky and in whatever order; its flux is their sum. Clustering, splitting into one patch per component and flattening keep every component exactly once, with unique names, and give each cluster a direction at its components.",
     ["inputs"], "all directions (including across ra 0 and near the poles), fluxes, cluster limits and numbers of patches",
     "Patch directions decide where beams, phases and solutions are evaluated.",
     ["sky_model/Patch.cc", "sky_model/PatchInfo.cc", "sky_model/SkyModelFunctions.cc", "common/ProximityClustering.cc"],
     [("Patch::ComputeDirection", "sky_model/Patch.cc"), ("PatchSumInfo", "sky_model/PatchInfo.h"), ("clusterProximateSources", "sky_model/SkyModelFunctions.cc"), ("ProximityClustering::Group", "common/ProximityClustering.cc")],
     "Random skies, biased to wraps and poles, are grouped; directions are compared with vector means in extended precision and components are counted. Non-trivial: more than one component; some but not all components clustered.",
     ["sky"], ["Patch, PatchSumInfo and sky-model functions"], ["stand-in for aocommon's image coordinates"])
prop("C32", "Sky-model text is read as written",
     "For every valid format line (field order, separators, defaults, fixed values, quotes, case, unknown and dummy fields) each line of a sky model yields the source it describes: name, patch, type, position in any notation and sign, fluxes, spectral terms, shape and polarization; patches get the summed flux and flux-weighted direction of their sources; comments, blank lines and line endings have no influence; the components made for prediction carry the same values in radians, and Q and U given at a reference wavelength come back at that wavelength. Invalid lines are refused.",
     ["inputs"], "all format lines, notations, defaults and source attributes",
     "Parsing rules interact (defaults, quotes, brackets, separators); the repository tests only a few files.",
     ["sky_model/ReadSkyModel.cc", "sky_model/SkyModel.cc", "sky_model/Source.cc", "sky_model/SourceInfo.cc", "sky_model/SkyModelFunctions.cc"],
     [("ReadSkyModel/ReadFormat", "sky_model/ReadSkyModel.cc"), ("MakePatches", "sky_model/SkyModelFunctions.cc")],
     "A generator writes random sky models in random notations, remembers the values, and compares them with what the reader and the component factory return. Non-trivial: more than one source.",
     ["sky"], ["ReadSkyModel, ReadFormat, MakePatches"], ["stand-ins for casacore's regular expressions, angles and arrays"])
prop("C33", "Patch selection returns exactly the matching patches",
     "Selecting patches by patterns returns the sorted set of patches matched by any pattern (all without patterns), a list of names keeps its order, every selected patch has all its sources, the polarization and orientation tests depend on the selected patches only, a cached model gives the same answers, and unknown or empty names are refused. Directions for calibration default to all patches.",
     ["inputs", "histories"], "all sets of patch names, glob patterns, lists and source attributes",
     "A wrong selection silently predicts or calibrates in other directions.",
     ["sky_model/SkyModelSelection.cc", "sky_model/SkyModelFunctions.cc", "sky_model/SkyModel.cc", "sky_model/SkyModelCache.h"],
     [("SkyModelSelection", "sky_model/SkyModelSelection.cc"), ("MakePatchList/MakeDirectionList", "sky_model/SkyModelFunctions.cc"), ("SkyModel::FindPatches", "sky_model/SkyModel.cc")],
     "Random models are selected from with random patterns; a separate glob matcher is the oracle. Non-trivial: patterns that select some but not all patches.",
     ["sky"], ["SkyModelCache, SkyModelSelection, MakeDirectionList"], ["stand-in for casacore's regular expressions"])

prop("C40", "Observation metadata stays consistent through every change",
     "Whatever sequence of averaging, channel selection, station removal, antenna and channel changes a pipeline applies to its metadata, the number of channels, frequencies, widths, resolutions, total bandwidth, reference frequency, start channel, number of time slots, first and last time, interval, averaging factors, station lists, used-station maps, baseline lengths and autocorrelation index describe the same observation. Impossible changes (indivisible channels, channel ranges outside the band, inconsistent lists) are refused.",
     ["histories", "inputs"], "all observations and all histories of metadata operations",
     "Metadata is cached and updated incrementally; tests change it at most once.",
     ["base/DPInfo.cc", "base/DPInfo.h"],
     [("update/SelectChannels/setChannels", "base/DPInfo.cc"), ("removeUnusedAntennas/setAntennas", "base/DPInfo.cc"), ("getBaselineLengths/getAutoCorrIndex", "base/DPInfo.cc")],
     "A model of the observation follows random operation histories; after each operation every accessor is compared with the model. Non-trivial: a history of more than one operation, or a refused one.",
     ["pipe"], ["DPInfo public interface"], ["stand-ins for casacore positions and xtensor"])
prop("C41", "Averaging a time slot is the weighted mean of its unflagged samples",
     "Averaging by any time and frequency factors, also chained and for the incomplete last interval, yields for every baseline, channel and correlation the weighted mean of the unflagged samples, their summed weight, the mean uvw, the centre time and the summed exposure; an output is flagged exactly when fewer samples than required are unflagged or all weights are zero; flagged values never leak into results and factors 1x1 change nothing. The output metadata describe the output data.",
     ["inputs", "histories"], "all observations, factors, resolutions, flags, weights and minimum-point settings",
     "No stable test runs the averager.",
     ["steps/Averager.cc", "base/DPInfo.cc"],
     [("Averager::process/average/finish", "steps/Averager.cc"), ("Averager::updateInfo", "steps/Averager.cc")],
     "Random time slots (with NaN and huge values under flags) pass through one or two averagers into a recording sink that also monitors the step protocol; an extended-precision model is the oracle. Non-trivial: a factor above one with flagged or zero-weight samples.",
     ["pipe"], ["Step::process output", "getInfoOut()"], ["stand-ins for casacore and xtensor"])
prop("C42", "Baseline-dependent averaging covers every sample once with the right mean",
     "For every baseline the rows of a baseline-dependent average tile its time slots and channels exactly once within the limits the length of the baseline and the settings imply; each row is the weighted mean of the unflagged samples it covers, with their summed weight, weighted uvw, interval, exposure and row number, for all data buffers; buffers have the requested sizes; applying the averaging scheme of a set reproduces its rows.",
     ["inputs", "histories"], "all arrays, baselines, averaging limits, buffer sizes, flags and weights",
     "No stable test runs baseline-dependent averaging.",
     ["steps/BDAAverager.cc", "base/BdaBuffer.cc", "base/DPInfo.cc"],
     [("BDAAverager::updateInfo/process/finish/AddBaseline", "steps/BDAAverager.cc")],
     "Random slots are averaged; rows are matched to an independent plan and an extended-precision mean. Non-trivial: at least one baseline averages in time or frequency.",
     ["pipe"], ["BdaBuffer rows at the next step", "getInfoOut()"], ["stand-ins for casacore and xtensor"])
prop("C43", "Expanding baseline-dependent data restores the regular grid",
     "Expanding baseline-dependent rows yields every time slot of the regular grid once, in order, with for each baseline and channel the visibility, flag and uvw of the row that covers it and a weight that adds up to the row's; averaging followed by expansion is the identity where nothing was averaged.",
     ["inputs", "histories"], "all arrays, averaging plans, row orders and buffer partitions",
     "No stable test runs the expander.",
     ["steps/BdaExpander.cc", "base/BdaBuffer.cc"],
     [("BdaExpander::process/CopyData/updateInfo", "steps/BdaExpander.cc")],
     "Rows of random baseline-dependent averages pass the expander; the sink compares each output sample with the row that covers it. Non-trivial: a baseline is averaged.",
     ["pipe"], ["DPBuffer at the next step"], ["stand-ins for casacore and xtensor"])
prop("C44", "Buffers keep, move, share and discard exactly what is asked",
     "Copying, moving, renaming, taking and removing named data, solutions and other fields of a buffer affects exactly those; copies are independent unless sharing is requested; a baseline-dependent buffer accepts rows exactly while they fit, keeps their data contiguous, and copies or drops exactly the requested fields.",
     ["histories"], "all histories of buffer operations over all field sets",
     "Ownership bugs depend on histories of copies, moves and renames that tests sample once.",
     ["base/DPBuffer.cc", "base/DPBuffer.h", "base/BdaBuffer.cc", "base/BdaBuffer.h"],
     [("DPBuffer::Copy/MoveData/CopyData/TakeData", "base/DPBuffer.cc"), ("BdaBuffer::AddRow/SetBaseRow/CopyRow", "base/BdaBuffer.cc")],
     "Histories of operations run on buffers and on a map-based model under AddressSanitizer; all fields are compared after each operation. Non-trivial: the history has a copy, move or removal.",
     ["pipe"], ["DPBuffer and BdaBuffer public interfaces"], ["stand-ins for casacore and xtensor"])

prop("C45", "Pre-flagging sets exactly the flags the selection describes",
     "The preflagger flags (or with mode clear, setcomplement and setother: unflags or flags the rest of) exactly the samples that satisfy its criteria: times (absolute, relative, of day, lst, slots), stations and baselines, uv range, azimuth and elevation, channels and frequencies, amplitude, phase, real and imaginary ranges per correlation; named sub-selections combine by and, or, not and parentheses exactly as their expression says; nothing else in the buffer changes and the counters count exactly what it flagged.",
     ["inputs", "histories"], "all observations, criteria, nested expressions, modes and existing flags",
     "No stable test runs the preflagger; criteria combine in unboundedly many ways.",
     ["steps/PreFlagger.cc", "base/BaselineSelection.cc"],
     [("PreFlagger::PSet::process/match*/flag*", "steps/PreFlagger.cc"), ("PreFlagger::PSet::exprToRpn", "steps/PreFlagger.cc"), ("PreFlagger::setFlags/clearFlags", "steps/PreFlagger.cc")],
     "Random selections (with expression trees rendered to text) are evaluated sample by sample by an independent three-valued oracle (a value within rounding of a limit decides nothing) and compared with the flags after the step. Non-trivial: the selection matches some and not all samples.",
     ["flag"], ["DPBuffer flags at the next step"], ["stand-ins for casacore measures convert azimuth/elevation and sidereal time consistently for code and oracle", "flags are equal for the correlations of a channel, DP3's own invariant"])
prop("C46", "Baseline selection matches exactly the named baselines",
     "A baseline selection by names, wildcards, pairs, cross/auto type and length ranges (in all combinations, including old-style and bracketed lists) selects exactly the baselines it describes.",
     ["inputs"], "all arrays and selections",
     "The selection language is unbounded; no stable test runs it.",
     ["base/BaselineSelection.cc"],
     [("BaselineSelection::apply", "base/BaselineSelection.cc"), ("BaselineSelection::HandleBlSelection/handleLengthRanges", "base/BaselineSelection.cc")],
     "Random station names, patterns and ranges are applied to random arrays; an independent matcher is the oracle. Non-trivial: the selection matches some and not all baselines.",
     ["flag"], ["BaselineSelection::apply result"], ["stand-ins for casacore text and glob matching"])
prop("C47", "UVW flagging flags exactly the baselines inside the given ranges",
     "The uvw flagger flags, per baseline and channel, exactly the samples whose u, v, w or uv distance lies in one of the flagged ranges (in metres or in wavelengths of that channel), for regular and baseline-dependent data and for another phase centre or a moving source; nothing else changes and its counters are exact.",
     ["inputs"], "all observations, ranges, min/max limits, phase centres and existing flags",
     "No stable test runs the uvw flagger.",
     ["steps/UVWFlagger.cc", "base/UVWCalculator.cc"],
     [("UVWFlagger::process/doProcess", "steps/UVWFlagger.cc"), ("UVWFlagger::testUVWm/testUVWl/fillUVW", "steps/UVWFlagger.cc"), ("UVWCalculator::getUVW", "base/UVWCalculator.cc")],
     "Random ranges flag random slots and rows; the oracle tests every sample with its own uvw (rotated independently when a phase centre is given). Non-trivial: some and not all samples are flagged.",
     ["flag"], ["DPBuffer and BdaBuffer flags at the next step"], ["stand-ins for casacore measures"])
prop("C48", "Flag counts equal the flags that were seen",
     "The flag counters report for each baseline, channel and correlation, and in their percentages per station and in total, exactly the flags present in the data that passed, also over several added counters; the counter step passes data on unchanged.",
     ["inputs", "histories"], "all flag patterns, observations and counter histories",
     "No stable test runs the counters.",
     ["base/FlagCounter.cc", "steps/Counter.cc"],
     [("FlagCounter::add/showBaseline/showChannel/showCorrelation", "base/FlagCounter.cc"), ("Counter::process", "steps/Counter.cc")],
     "Random flags are counted and the printed tables are parsed back and compared with counts made independently. Non-trivial: flags are neither all set nor all clear.",
     ["flag"], ["FlagCounter text output", "FlagCounter accessors"], ["stand-ins for casacore and xtensor"])

prop("C49", "Shifting the phase centre turns phases and uvw by exactly the change of direction",
     "Shifting data to another phase centre multiplies every visibility by the phase that the change of direction implies for its baseline and frequency, rotates its uvw to the new centre and records the new centre, for any chain of shifts including the one back to the original; a source at the new centre becomes real in all channels, and flags, weights, times and other data stay as they were.",
     ["inputs", "schedules"], "all observations, directions, chains of shifts and thread counts",
     "No stable test runs the step; sign and frame errors only show for particular directions.",
     ["steps/PhaseShift.cc"],
     [("PhaseShift::updateInfo/process", "steps/PhaseShift.cc"), ("PhaseShift::fillEulerMatrix/handleCenter", "steps/PhaseShift.cc")],
     "Random slots pass one to three shifts with 1-5 threads; an independent rotation of unit vectors is the oracle for uvw and phases, a simulated source at the new centre a second one. Non-trivial: at least one shift to another direction.",
     ["steps", "steps_tsan"], ["DPBuffer at the next step", "getInfoOut()"], ["stand-ins for casacore and the thread pool"])
prop("C50", "MAD flagging flags exactly the outliers of the local median",
     "The MADFlagger flags exactly the unflagged samples whose amplitude exceeds the median plus the threshold times 1.4826 times the median absolute deviation of the unflagged samples in the (mirrored) time and frequency window of their baseline and correlation, with the windows, thresholds, correlations, length limits and autocorrelation mode as set; flags set before stay, all slots come out once and in order, and the counts equal what was flagged.",
     ["inputs", "schedules"], "all data, flags, window and threshold expressions, correlation lists and numbers of slots (also fewer than announced)",
     "No stable test runs the step; its ring buffer and mirrored windows have many edge cases.",
     ["steps/MadFlagger.cc", "common/Median.h"],
     [("MadFlagger::process/finish/flag", "steps/MadFlagger.cc"), ("MadFlagger::computeFactors/getExprValues", "steps/MadFlagger.cc")],
     "Random data with outliers is flagged with 1-5 threads; an independent oracle computes every window's medians (a sample within rounding of its limit decides nothing) and the expected counts. Non-trivial: some samples are flagged, some not, and a time window exceeds one.",
     ["steps", "steps_tsan"], ["DPBuffer flags at the next step", "showCounts output"], ["stand-ins for casacore expressions and the thread pool"])
prop("C51", "Interpolation fills flagged samples with the weighted mean of their neighbours",
     "The interpolate step replaces every flagged sample by the Gaussian-weighted mean of the unflagged samples in its time and channel window and unflags it; where the window holds none, the result is zero and flagged; unflagged samples and all else stay exactly as they were, for any number of threads.",
     ["inputs", "schedules"], "all data and flags, window sizes, numbers of slots and thread counts",
     "No stable test runs the step; samples are interpolated in place by concurrent threads.",
     ["steps/Interpolate.cc", "common/buffered_lane.h"],
     [("Interpolate::process/finish/sendFrontBufferToNextStep", "steps/Interpolate.cc"), ("Interpolate::interpolateSample", "steps/Interpolate.cc")],
     "Random slots are interpolated with 1-5 threads under AddressSanitizer and ThreadSanitizer; an independent double-precision kernel is the oracle. Non-trivial: samples with neighbours are flagged and the window exceeds one.",
     ["steps", "steps_tsan"], ["DPBuffer at the next step"], ["stand-ins for aocommon::Lane and the thread pool"])
prop("C52", "Scaling, combining and Stokes nulling change the data by exactly what they state",
     "Scaling multiplies each visibility by the square root of the product of its stations' polynomials (first matching pattern, else the default of the antenna set) at its frequency, for regular and baseline-dependent data; combining adds or subtracts the named buffer, removes it, and refuses an unknown one; nulling makes exactly the chosen Stokes parameters zero and keeps the others, and refuses data without four correlations; all else stays as it was.",
     ["inputs"], "all observations, patterns, coefficients, buffers and Stokes choices",
     "No stable test runs these steps.",
     ["steps/ScaleData.cc", "steps/Combine.cc", "steps/NullStokes.cc"],
     [("ScaleData::updateInfo/process", "steps/ScaleData.cc"), ("Combine::process", "steps/Combine.cc"), ("NullStokes::process", "steps/NullStokes.cc")],
     "Random data passes each step; every sample is compared with an independent computation and everything else with the input. Non-trivial: the step has something to change.",
     ["steps"], ["DPBuffer and BdaBuffer at the next step"], ["stand-ins for casacore and xtensor", "scalesize needs a measurement set table and is switched off"])
prop("C53", "Upsampling covers each finer time slot once with the data of its input slot",
     "Upsampling by any factor gives each finer time slot exactly once, in order, at its own centre time, with the data, flags and weights of the input slot that covers it, its share of the exposure and (if asked) the uvw of its own time; where input slots overlap, the later one is used unless it is flagged entirely; the metadata gives the finer interval, number and times of the slots.",
     ["inputs", "histories"], "all factors, flags, overlapping and missing slots",
     "No stable test runs the step.",
     ["steps/Upsample.cc", "base/UVWCalculator.cc"],
     [("Upsample::process/finish/updateInfo", "steps/Upsample.cc"), ("UVWCalculator::getUVW", "base/UVWCalculator.cc")],
     "Random sequences of regular, overlapping and missing slots are upsampled; a map from fine slots to input slots is the oracle. Non-trivial: more than one input slot.",
     ["steps"], ["DPBuffer at the next step", "getInfoOut()"], ["slots two apart do not overlap, as with slots inserted by the reader", "stand-ins for casacore measures"])

prop("C54", "A step set to change nothing leaves the stream and its metadata untouched",
     "Any sequence of steps whose settings ask for no change (averaging by one, no baseline selected, no scaling, an empty station group list, counting, phase centre of the data itself) passes every buffer on once, in order, with every field and the metadata unchanged, passes the end on once, and steps that only count or relabel never touch the data.",
     ["inputs", "histories"], "all observations and sequences of neutral steps",
     "Tests run single steps with fixed sizes; that neutral steps compose for all inputs is not tested.",
     ["steps/Counter.cc", "steps/SetBeam.cc", "steps/NullStokes.cc", "steps/ScaleData.cc", "steps/PreFlagger.cc", "steps/UVWFlagger.cc", "steps/Averager.cc", "steps/Filter.cc", "steps/StationAdder.cc", "steps/MultiResultStep.cc", "steps/Combine.cc", "steps/PhaseShift.cc"],
     [("Step::process/finish/setInfo", "steps/Step.cc"), ("Filter::process", "steps/Filter.cc"), ("StationAdder::process", "steps/StationAdder.cc"), ("SetBeam::updateInfo", "steps/SetBeam.cc")],
     "Random chains of neutral steps are run over random buffers; the buffers and DPInfo at the sink are compared with those put in. Non-trivial: at least one step and one slot.",
     ["chain"], ["DPBuffer and DPInfo at the last step", "finish() calls"], ["stand-ins for casacore"])

prop("C55", "A step uses and changes only the fields that it declares",
     "A step computes the same output when all fields that it does not declare as required are absent or hold other values, and leaves unchanged all fields that it does not declare as provided; the reader reads and the writer writes just what the declared sets say, so this decides whether a pipeline is correct.",
     ["inputs", "configurations"], "all steps built here and their settings",
     "Tests compare the declared sets with constants; that a step keeps to them is not tested.",
     ["steps/MadFlagger.cc", "steps/PreFlagger.cc", "steps/UVWFlagger.cc", "steps/Interpolate.cc", "steps/PhaseShift.cc", "steps/ScaleData.cc", "steps/Averager.cc", "steps/StationAdder.cc", "steps/Filter.cc", "steps/NullStokes.cc", "steps/Upsample.cc", "steps/Combine.cc"],
     [("getRequiredFields/getProvidedFields", "steps/*.h"), ("MadFlagger::process", "steps/MadFlagger.cc"), ("Combine::process", "steps/Combine.cc")],
     "Each step runs twice on the same stream: once with all fields, once with the fields it does not require removed or scrambled; declared outputs are compared, and undeclared fields with the input. Non-trivial: a field was removed or scrambled.",
     ["chain"], ["DPBuffer at the next step"], ["stand-ins for casacore"])

prop("C56", "A superstation is the exact combination of its member stations",
     "Adding stations appends each new station once with the mean position of its members and adds a baseline to every station outside the group with enough members (and, if asked, an autocorrelation); its visibilities are the weighted sum or mean of the member baselines' unflagged visibilities, conjugated where the order is reversed, its weights their sum, its samples are flagged when fewer than minpoints are unflagged, and its uvw are the weighted mean or computed from the position; existing baselines are untouched and a station is never in two groups.",
     ["inputs"], "all arrays, groups, weights and flags",
     "The step has tests for two fixed groupings and none is run here.",
     ["steps/StationAdder.cc", "base/UVWCalculator.cc"],
     [("StationAdder::updateInfo", "steps/StationAdder.cc"), ("StationAdder::process", "steps/StationAdder.cc"), ("StationAdder::getMatchingStations", "steps/StationAdder.cc")],
     "Random arrays and groups; a naive per-baseline computation is the oracle. Non-trivial: a superstation with at least two members got a baseline.",
     ["chain"], ["DPBuffer at the next step", "getInfoOut()"], ["stand-ins for casacore measures"])

prop("C57", "Reading a measurement set gives exactly the selected rows, at regular times",
     "For every measurement set and selection (band, baselines, start channel and number of channels, start/end time or time slot, number of times, sort, auto weights, weight column, extra data columns) the reader hands out one buffer per time slot of the selected range, at a regular interval: with the data, flags, weights and UVW of exactly the rows of that slot, band, baselines and channels if the slot is present, and fully flagged zero data with the right time if it is missing; samples with non-finite data are flagged, a flagged row counts as flagged; the metadata (times, channels, antennas, phase centre, beam) match the selection; an impossible selection is refused, never read as something else.",
     ["inputs"], "all measurement sets with missing slots, jittered times, several bands and all selections",
     "A test samples a few selections of one file; the guarantee is over every combination of selection, gap and jitter.",
     ["steps/MsReader.cc", "base/DPInfo.cc", "base/MS.cc"],
     [("MsReader::process", "steps/MsReader.cc"), ("MsReader::ParseTimeSelection", "steps/MsReader.cc"), ("MsReader::ParseChannelSelection", "steps/MsReader.cc"), ("MsReader::GetWeights", "steps/MsReader.cc")],
     "Random measurement sets in memory with known rows, read with random selections; every buffer is compared with the rows. Non-trivial: at least one slot was read and compared.",
     ["reader"], ["DPBuffers at the next step", "getInfoOut()"], ["casacore tables and measures are stand-ins held in memory (shim/casacore)"])

prop("C58", "Writing a measurement set loses and invents nothing",
     "A new measurement set holds one row per time slot and baseline that reached the writer, in that order, with that slot's time, exposure, antennas, UVW, data, flags and weights (FLAG_ROW iff all samples are flagged); its subtables are those of the input, with the one band, time range, phase centre, beam and history of the written data; with a chunk duration the slots are divided over consecutive numbered sets without loss or duplication; the input set and the buffers passed on are unchanged; an existing set is only replaced when told to; writing with a background thread gives the same set and is free of races.",
     ["inputs", "schedules"], "all streams, selections, earlier steps and thread timings",
     "Which rows are written depends on stream, chunking and thread timing; tests see one timing and one stream.",
     ["steps/MSWriter.cc", "steps/OutputStep.h", "base/DPInfo.h"],
     [("MSWriter::process", "steps/MSWriter.cc"), ("MSWriter::CreateMs", "steps/MSWriter.cc"), ("MSWriter::WriteQueueProcess", "steps/MSWriter.cc"), ("MSWriter::UpdateSpw", "steps/MSWriter.cc")],
     "Random sets, selections and steps are written; the resulting tables are compared cell by cell with what went into the writer. Also run under ThreadSanitizer. Non-trivial: a set was written.",
     ["writer", "writer_tsan"], ["written tables", "buffers at the next step", "ThreadSanitizer reports"], ["casacore tables are stand-ins held in memory (shim/casacore)"])

prop("C59", "Updating a measurement set changes the selected samples only",
     "Updating in place writes, for every row and channel that was read, exactly the data, flags or weights that reached the updater into the column asked for (adding the column if it does not exist), sets FLAG_ROW consistently, and leaves every other row, channel, column and subtable as it was; updating is refused when a step changed the shape or meaning of the data since the set was read or written, and works on a set written earlier in the same run.",
     ["inputs"], "all sets, selections and columns",
     "An update that touches one cell too many destroys data; no finite test shows all other cells are left alone for every selection.",
     ["steps/MSUpdater.cc", "steps/MSWriter.cc", "base/DPInfo.h"],
     [("MSUpdater::process", "steps/MSUpdater.cc"), ("MSUpdater::updateInfo", "steps/MSUpdater.cc"), ("MSUpdater::putData", "steps/MSUpdater.cc"), ("MSUpdater::putFlags", "steps/MSUpdater.cc")],
     "A copy of all tables before the run is compared cell by cell with the tables after it. Non-trivial: rows were updated.",
     ["writer"], ["tables before and after"], ["casacore tables are stand-ins held in memory (shim/casacore)"])

prop("C60", "After stations are removed or added, every table refers to the right stations",
     "When a filter with remove=true or a station adder precedes the writer, the written ANTENNA table lists exactly the stations in use, in order, and every station number in the main table and in the FEED, POINTING, SYSCAL, quality and beam subtables denotes the station (by name) it denoted before; rows of removed stations are gone and no row of a remaining station is lost.",
     ["inputs"], "all arrays, baseline selections and groups",
     "Renumbering errors show only for particular sets of removed stations.",
     ["steps/Filter.cc", "steps/StationAdder.cc", "base/DPInfo.cc"],
     [("Filter::addToMS", "steps/Filter.cc"), ("Filter::renumberSubTable", "steps/Filter.cc"), ("StationAdder::addToMS", "steps/StationAdder.cc"), ("DPInfo::RemoveUnusedAntennas", "base/DPInfo.cc")],
     "Random arrays with all subtables are filtered and extended; the names behind all station numbers are compared before and after. Non-trivial: a set with a changed ANTENNA table was written.",
     ["writer"], ["written tables"], ["casacore tables are stand-ins held in memory (shim/casacore)"])

prop("C61", "Several measurement sets are read as one band, in order and complete",
     "Reading several measurement sets gives, per time slot, the data, extra data, flags and weights of each set in its own consecutive channels, ordered by frequency (or as listed), with the matching frequencies and widths; a set that does not exist is replaced by flagged zeros with zero weight at the interpolated frequencies; sets whose times, baselines, correlations or antenna set differ, or that lack a time slot, are refused instead of being mixed.",
     ["inputs"], "all lists of measurement sets, orders, selections and missing sets",
     "Which channels go where depends on the number, order and absence of sets.",
     ["steps/MultiMsReader.cc", "steps/MsReader.cc"],
     [("MultiMsReader::process", "steps/MultiMsReader.cc"), ("MultiMsReader::FillBands", "steps/MultiMsReader.cc"), ("MultiMsReader::SortBands", "steps/MultiMsReader.cc"), ("MultiMsReader::ValidateBands", "steps/MultiMsReader.cc")],
     "Random lists of sets; the joined buffers are compared with those of reading each set alone (decided by C57). Non-trivial: slots were joined and compared, or an unfit set was offered.",
     ["multi"], ["DPBuffers at the next step", "getInfoOut()"], ["casacore tables are stand-ins held in memory (shim/casacore)"])

prop("C62", "Data and flags taken from another set or column land on the samples they belong to",
     "Transferring visibilities or flags from an averaged measurement set gives every sample of each selected baseline the value of the averaged time slot and channel that contains it, whatever baselines the reader selected and whichever time slots are missing, and leaves all other baselines and fields as they were; a source that is no averaged version is refused; a model column is read for exactly the rows of the buffer. No access lies outside the buffers.",
     ["inputs"], "all averaging factors, selections and missing slots",
     "Off-by-one channels, rows or slots appear only for particular factors and selections.",
     ["steps/Transfer.cc", "steps/FlagTransfer.cc", "steps/MsColumnReader.cc", "steps/Filter.cc"],
     [("Transfer::process", "steps/Transfer.cc"), ("Transfer::TransferSingleTimeSlot", "steps/Transfer.cc"), ("FlagTransfer::process", "steps/FlagTransfer.cc"), ("MsColumnReader::process", "steps/MsColumnReader.cc")],
     "Random targets with matching averaged sources; expected values computed per sample from the source rows. Non-trivial: the source is averaged or has fewer baselines.",
     ["multi"], ["DPBuffers at the next step", "sanitizer reports"], ["casacore tables are stand-ins held in memory (shim/casacore)"])

prop("C63", "A baseline-dependent averaged set is written and read back exactly",
     "Rows of baseline-dependent averaged data written to a measurement set carry their data, weights, flags, UVW, times, exposure and antennas and refer to a spectral window with exactly the frequencies and widths of their baseline; the sub tables that describe the averaging name every baseline with its time and frequency factors; reading the set gives the same rows, in order of time, with the same metadata. Nothing that was not set is written.",
     ["inputs"], "all averaging factors and baselines",
     "Wrong bands or rows appear only for particular mixtures of averaging factors.",
     ["steps/MSBDAWriter.cc", "steps/MSBDAReader.cc", "base/BdaBuffer.cc"],
     [("MSBDAWriter::process", "steps/MSBDAWriter.cc"), ("MSBDAWriter::OverwriteSubTables", "steps/MSBDAWriter.cc"), ("MSBDAReader::process", "steps/MSBDAReader.cc")],
     "Random observations averaged per baseline, written and read; tables and read rows are compared with what was averaged. Non-trivial: more than one averaging factor occurs.",
     ["bdaio"], ["rows of the tables", "BdaBuffers of the reader", "sanitizer reports"],
     ["casacore tables are stand-ins held in memory (shim/casacore)", "flags of a baseline-dependent set are not read (a limitation the code documents)"])

prop("C64", "A pipeline writes what its steps deliver, reading only what is needed",
     "Running a parameter set gives, in every output measurement set, exactly the visibilities, flags, weights, UVW, times and antennas that the named steps deliver in that order when all fields are read, whatever fields the pipeline chose to read and however the parameters are divided over the parset file and the command line, where arguments take precedence; step types are taken from the type key or the step name without digits, in any case; an update leaves every other row and column as it was, and the input untouched when a new set is written; each branch of a split gives what it gives as a pipeline of its own. A pipeline with an unknown step, no input, no output, incompatible steps, an update after the structure changed, or (when asked to check) unused keys is refused.",
     ["inputs"], "all lists of steps, parameters and output places",
     "A field that is not read or not written shows only for particular combinations of steps and output.",
     ["base/DP3.cc", "steps/Split.cc", "steps/InputStep.cc", "steps/MSWriter.cc", "steps/MSUpdater.cc", "common/Fields.cc"],
     [("Execute", "base/DP3.cc"), ("MakeMainSteps", "base/DP3.cc"), ("MakeStepsFromParset", "base/DP3.cc"), ("SetChainProvidedFields", "base/DP3.cc"), ("GetChainRequiredFields", "base/DP3.cc"), ("Split::process", "steps/Split.cc")],
     "Random pipelines executed through the command line entry; the tables written are compared with what the same steps, connected by hand after a reader of all fields, deliver. Non-trivial: the pipeline ran, or had to be refused.",
     ["pipeline"], ["rows of all output tables and of the input", "sanitizer reports"],
     ["casacore tables are stand-ins held in memory (shim/casacore)", "steps that need absent libraries cannot be created (shim/dp3)", "a last output that updates the input after an intermediate new set is not generated"])

prop("C15", "Descriptions of clusters and data sets, names and types survive a round trip",
     "A node, cluster or data-set description that is written and read again has the same contents, entry by entry and in the same order, names with special characters included; the file system and mount point of a file are those of the longest mount point that is a directory above it; the files of an automatically described cluster and the parts of a data set keep their own times, bands and names; every calibration mode and data type has a name that is accepted again and denotes the same mode, other names are refused; splitting text into tokens loses and invents no characters.",
     ["inputs"], "all node, cluster and data-set descriptions, all texts",
     "The mount point or entry found depends on combinations of directories and on the characters in names.",
     ["common/NodeDesc.cc", "common/ClusterDesc.cc", "common/VdsDesc.cc", "common/VdsPartDesc.cc", "common/StringTools.cc", "common/TypeNames.cc", "base/CalType.cc"],
     [("NodeDesc::findFileSys", "common/NodeDesc.cc"), ("NodeDesc::write", "common/NodeDesc.cc"), ("ClusterDesc::write", "common/ClusterDesc.cc"), ("VdsDesc::write", "common/VdsDesc.cc"), ("StringToCalType", "base/CalType.cc"), ("stringtools::tokenize", "common/StringTools.cc")],
     "Random descriptions are written, read and compared; look-ups are compared with a model of directories. Non-trivial: the description has entries, or the text has more than one token.",
     ["desc"], ["re-read descriptions", "returned file systems, names and tokens", "sanitizer reports"],
     ["casacore times and paths are stand-ins (shim/casacore)"])

prop("C28", "Solvers find the gains that the data show and use only unflagged data",
     "Given visibilities made from model visibilities and gains per antenna, direction, channel block and sub interval, every gain solver finds gains that reproduce the data, with directions and sub intervals of unequal number and also when an interval has fewer time slots than sub intervals; flagged samples and autocorrelations do not influence any gain, whatever they contain; channel blocks are solved independently of each other and of the number of threads; an antenna or sub interval without data gets an undefined gain and no other does; undefined gains start from the average amplitude of the others in the next interval; scaling data and model together changes nothing; the number of iterations respects the given minimum and maximum, also for a chain of solvers, and tells convergence.",
     ["inputs", "schedules"], "all gains, models, flags, antennas without data, sub-interval layouts and numbers of threads",
     "Solutions depend on the interplay of all data of an interval; a mixed-up index shows only for unequal numbers of sub intervals, missing antennas or odd numbers of channels per block.",
     ["ddecal/gain_solvers/SolverBase.cc", "ddecal/gain_solvers/SolveData.cc", "ddecal/gain_solvers/SolverTools.cc", "ddecal/gain_solvers/ScalarSolver.cc", "ddecal/gain_solvers/DiagonalSolver.cc", "ddecal/gain_solvers/FullJonesSolver.cc", "ddecal/gain_solvers/IterativeScalarSolver.cc", "ddecal/gain_solvers/IterativeDiagonalSolver.cc", "ddecal/gain_solvers/IterativeFullJonesSolver.cc", "ddecal/gain_solvers/HybridSolver.cc", "ddecal/linear_solvers/LLSSolver.cc"],
     [("SolverBase::Step", "ddecal/gain_solvers/SolverBase.cc"), ("SolverBase::AssignSolutions", "ddecal/gain_solvers/SolverBase.cc"), ("SolveData::SolveData", "ddecal/gain_solvers/SolveData.cc"), ("AssignAndWeight", "ddecal/gain_solvers/SolverTools.cc"), ("PerformIteration", "ddecal/gain_solvers/DiagonalSolver.cc"), ("SolveDirection", "ddecal/gain_solvers/IterativeScalarSolver.cc"), ("HybridSolver::RunSolver", "ddecal/gain_solvers/HybridSolver.cc")],
     "Random problems with known gains; solutions are put back into the measurement equation by the harness' own code and compared with the data; paired runs differ only in flagged samples, other blocks, threads or scale. Non-trivial: a solver ran.",
     ["solve"], ["solutions", "iteration counts", "sanitizer reports"],
     ["problems are well determined: gains scatter around one by at most a quarter and there are at least five visibilities per unknown", "the schaapcommon thread pool, xtensor and aocommon matrices are stand-ins (shim)", "LBFGS, low-rank and CUDA solvers need absent libraries"])

prop("C29", "Constraints keep what they promise of calibration solutions",
     "Applied to any set of solutions, antenna-group and antenna-interval constraints give every member the average of its group over the defined solutions and leave others alone; the amplitude, reference and leakage constraints give exactly unit phase, the phase relative to the reference, and pure diagonals; smoothing gives at each channel the weighted kernel average of the samples within reach, with the size set by antenna and direction factors, and does not invent solutions; the rotation, rotation-and-diagonal, Faraday and TEC constraints recover the parameters of solutions that have that form, replace the solutions by exactly the form that the returned parameters describe, and label each parameter and its weight with the antenna, direction, sub solution, channel and polarization it belongs to.",
     ["inputs"], "all solutions, weights, sub-solution layouts and undefined entries",
     "A mixed-up index or order of factors shows only for unequal numbers of sub solutions, channels and antennas, or for matrices that do not commute.",
     ["ddecal/constraints/AmplitudeOnlyConstraint.cc", "ddecal/constraints/AntennaConstraint.cc", "ddecal/constraints/AntennaIntervalConstraint.cc", "ddecal/constraints/FaradayConstraint.cc", "ddecal/constraints/PolarizationLeakageConstraint.cc", "ddecal/constraints/RotationAndDiagonalConstraint.cc", "ddecal/constraints/RotationConstraint.cc", "ddecal/constraints/SmoothnessConstraint.cc", "ddecal/constraints/TecConstraint.cc", "ddecal/constraints/KernelSmoother.h"],
     [("AntennaConstraint::Apply", "ddecal/constraints/AntennaConstraint.cc"), ("SmoothnessConstraint::Apply", "ddecal/constraints/SmoothnessConstraint.cc"), ("RotationAndDiagonalConstraint::Apply", "ddecal/constraints/RotationAndDiagonalConstraint.cc"), ("FaradayConstraint::PerformFit", "ddecal/constraints/FaradayConstraint.cc"), ("TecConstraint::Apply", "ddecal/constraints/TecConstraint.cc")],
     "Random solution sets, made from known parameters or arbitrary, with undefined entries; the returned solutions, parameters, labels and weights are compared with a model. Non-trivial: a defined solution was constrained.",
     ["constr"], ["constrained solutions", "constraint results and weights", "sanitizer reports"],
     ["the thread pool, xtensor and aocommon are stand-ins (shim)", "fits are judged on solutions that have the fitted form with at most small noise", "the screen and low-rank constraints need absent libraries"])

prop("C35", "Predicted visibilities are those of the sky model",
     "The visibility predicted for a baseline, channel and correlation is the sum over components of brightness (Stokes parameters, spectral index, rotation measure), shape and geometric phase, added to what the buffer held; autocorrelations are left alone; Stokes-I prediction gives the I part; frequency and time smearing, separately or together, give the mean over the channel and the exposure; station positions found from baseline UVW reproduce every baseline, one origin per group of connected stations, preferring the longest baselines; and rotating UVW to a direction gives the coordinates of the rotated frame.",
     ["inputs"], "all sky components, baselines, frequencies and UVW",
     "Errors in phase, shape or smearing depend on the position, channel and baseline together.",
     ["base/Simulator.cc", "base/Simulate.cc", "base/GaussianSource.cc", "base/PointSource.cc", "base/Stokes.cc", "base/ComponentInfo.cc", "steps/PhaseShift.cc"],
     [("Simulator::visit", "base/Simulator.cc"), ("nsplitUVW", "base/Simulate.cc"), ("rotateUVW", "base/Simulate.cc"), ("PointSource::stokes", "base/PointSource.cc"), ("GaussianSource::setPositionAngle", "base/GaussianSource.cc")],
     "Random sky components and arrays; predictions are compared with the measurement equation in double precision by the harness' own code, and smeared ones with numerical means over channel and exposure. Non-trivial: a component lies away from the phase centre.",
     ["predict"], ["predicted visibilities", "station UVW", "sanitizer reports"],
     ["casacore and xsimd are stand-ins (shim)", "means over channel and exposure are compared to first order, with the bound of the second"])

prop("C34", "Calibration parameter tables give back the values that were stored",
     "An axis locates every coordinate in the cell that contains it, and subset, extended, compressed and combined axes have the cells their definition asks for; boxes, grids and their joins and mappings agree with the domains they cover; polynomial parameters evaluate to the polynomial (also after rescaling to another domain and after solving), scalar parameters to the value of the cell; names, default values, values, errors and types written to a parameter table are read back unchanged, for any pattern, domain and sequence of sessions; deleting removes exactly what was named.",
     ["inputs", "operation sequences"], "all axes, domains, parameters, patterns and sequences of writes, reads and deletes",
     "Cell searches, overlaps and joins fail at particular boundaries, and stored values only after several sessions and domains.",
     ["parmdb/Axis.cc", "parmdb/AxisMapping.cc", "parmdb/Box.cc", "parmdb/Grid.cc", "parmdb/Parm.cc", "parmdb/ParmCache.cc", "parmdb/ParmDB.cc", "parmdb/ParmDBCasa.cc", "parmdb/ParmFacadeLocal.cc", "parmdb/ParmSet.cc", "parmdb/ParmValue.cc"],
     [("Axis::locate/combine", "parmdb/Axis.cc"), ("Grid::Grid(domains)", "parmdb/Grid.cc"), ("ParmDBCasa::putValues", "parmdb/ParmDBCasa.cc"), ("ParmCache::getValueSet", "parmdb/ParmCache.cc"), ("ParmValueSet::rescale", "parmdb/ParmValue.cc")],
     "Random axes, domains and sequences of operations on a table; an own model keeps the cells, polynomials and stored values. Non-trivial: an axis has several cells or a table was reopened.",
     ["parmdb"], ["axes", "grids", "parameter values read back", "sanitizer reports"],
     ["casacore tables are a stand-in in memory (shim)"])
