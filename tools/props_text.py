NOT_APPLICABLE = []
NOTES = ("Every check drives the real code of /repo/src (PYTHONPATH) with randomized workloads and decides with "
         "independent oracles; nothing of /repo is modified and no hooks are used. Exit 0 held, 1 violation, "
         "2 undecided. known_findings.txt lists defects left in place and defects repaired.")

prop("C01", "Bandpowers and window functions are those of the quadratic estimator",
     "Every bandpower of an estimated power spectrum, for each time, baseline-pair, spectral window and polarization pair, equals the quadratic "
     "estimator of the two named visibilities (with the chosen weighting, taper, flags and weights, filter extension, number of delays, normalization and "
     "beam scalar), and the window functions kept with it are those of the same estimator. "
     "The fast and the direct evaluation agree, and so do the matrices and un-normalized spectra the object reports.",
     ["inputs", "configurations"],
     "for all visibilities, flags and weights, all weightings, tapers, extensions, numbers of delays, normalizations and windows",
     "tests compare one or two settings on one data file, mostly to the code's own earlier output; the property is over every combination",
     [S + "pspecdata.py"],
     [("pspec, q_hat, p_hat, get_G/get_H/get_MW", S + "pspecdata.py"), ("R, weighting and filter extension", S + "pspecdata.py")])

prop("C02", "Every estimated spectrum is labelled with the data it was made from",
     "For every spectrum of an estimated power spectrum, the times, LSTs, baseline-pairs and their antenna positions, polarization pair, dataset labels, frequencies, delays, channel "
     "weights, sample counts, integration time, units, cosmology, beam scalars and recorded settings are those of the visibilities that entered it, for stored and "
     "reversed baselines, datasets with different row orders and labels, several windows and absent polarizations. "
     "Baseline-pairs, polarizations and settings that cannot be used are refused or skipped without disturbing the others.",
     ["inputs", "configurations"],
     "for all datasets, row orders, baselines, windows, polarizations, labels and options",
     "tests look at a few attributes of one result from one regular file; mixed orders, repeated datasets and skipped polarizations are not sampled",
     [S + "pspecdata.py"],
     [("pspec", S + "pspecdata.py"), ("units, delays, spw bookkeeping", S + "pspecdata.py")])

prop("C03", "Estimates depend on data and settings, never on earlier computations",
     "After any sequence of setting changes, matrix requests, added datasets and power spectrum estimates, the matrices and power spectra an estimation object gives "
     "equal those of a newly made object with the same data and settings: no cached matrix of another window, taper, weighting, flag pattern or key is ever used. "
     "Estimating does not change the settings or the data given.",
     ["histories", "inputs"],
     "for all sequences of operations on one estimation object",
     "tests use short fixed sequences on a fresh object; stale caches appear only after particular orders of operations",
     [S + "pspecdata.py"],
     [("caches of C, iC, R, Y, G, H; clear_cache", S + "pspecdata.py"), ("set_spw/set_taper/set_weighting", S + "pspecdata.py")])

prop("C04", "Bandpower covariances propagate the stated input covariances",
     "The covariance stored with each spectrum, real and imaginary part, for every time, baseline-pair, window and polarization pair, is the Gaussian (Isserlis) propagation, "
     "through the same estimator and normalization, of the chosen model of the visibility covariances (empirical, given errors, autocorrelations, "
     "foreground-dependent, or given matrices). It scales with the fourth power of the data's scale at any "
     "amplitude, is symmetric, and belongs to the time and pair it is stored under.",
     ["inputs", "configurations"],
     "for all data, error models, weightings, normalizations, windows and amplitudes",
     "tests compare a few covariances of one file with loose bounds; no test recomputes the covariance of every stored spectrum",
     [S + "pspecdata.py"],
     [("get_unnormed_V, cov_q_hat, cov_p_hat, get_analytic_covariance", S + "pspecdata.py"), ("C_model", S + "pspecdata.py")])

prop("C05", "Estimated power spectra are calibrated and obey their symmetries",
     "White noise of known variance gives, on average, the flat spectrum of that noise times the beam and cosmological volume, and a wave of known delay appears at that delay, with the "
     "sign set by the baseline's orientation and with its power, whatever the taper, window and normalization. The spectrum is linear in either visibility, is "
     "conjugated when the two are swapped, mirrors when both baselines are reversed, does not see what lies under channels flagged at all times, and does not depend on which other "
     "windows, pairs and polarizations are requested with it. Normalization scalars equal the direct integral of the beam, taper and volume.",
     ["inputs", "configurations"],
     "for all tapers, weightings, windows, beams, normalizations, scalings and requests",
     "tests check the white-noise amplitude of one simulated file to tens of percent; the relations are over all inputs",
     [S + "pspecdata.py", S + "pspecbeam.py"],
     [("pspec, scalar, scalar_delay_adjustment", S + "pspecdata.py"), ("_compute_pspec_scalar", S + "pspecbeam.py")])

prop("C06", "Preparing datasets changes only what each step says",
     "Adding datasets keeps each with its own weights, errors and a unique label, and inconsistent sets are refused. Trimming keeps exactly the integrations whose LST all datasets share; "
     "rephasing multiplies each visibility by the phase that moves its pointing to the matching LST of the reference, leaving the reference and non-drifting data alone; the conversion from Jy to mK "
     "multiplies data and errors once by the beam's factor for their frequency and polarization; calibration divides by the gains; flag broadcasting makes flags separable in the chosen windows by the "
     "threshold rule. Everything else about the datasets is left as it was.",
     ["inputs", "histories", "configurations"],
     "for all sets of datasets, flags, LST grids, beams, gains and thresholds, alone and one after the other",
     "tests apply each step to one or two regular files and mostly look at shapes or one channel; mixed sets with weights and errors, offset LSTs and irregular flags are not sampled",
     [S + "pspecdata.py", S + "pspecbeam.py"],
     [("add, trim_dset_lsts, rephase_to_dset, Jy_to_mK, broadcast_dset_flags, apply_cals", S + "pspecdata.py"), ("Jy_to_mK", S + "pspecbeam.py")])

prop("C07", "Power-spectrum files return exactly what was written",
     "Whatever valid power spectrum object is written to a file or an open file group, reading it back gives an "
     "object with the same data, weights, integration times, sample counts, covariances, statistics, window "
     "functions, labels and metadata, in one object or after repeated write-read cycles. Reading only a selection of the file "
     "(spectral windows, baselines, baseline-pairs, times, LSTs, polarization pairs) gives the same as reading everything and "
     "selecting afterwards, and a metadata-only read gives the same metadata. A write that is refused (existing "
     "file without permission to overwrite, or an invalid object) leaves an existing file as it was.",
     ["inputs", "configurations", "histories"],
     "for all valid objects, all optional contents, all selections and all sequences of write and read",
     "unit tests write and read one or two fixed objects from data files; the property quantifies over every "
     "combination of optional content, ragged row layout and selection",
     [S + "uvpspec.py", S + "uvpspec_utils.py"],
     [("write_to_group/write_hdf5", S + "uvpspec.py"), ("read_from_group/read_hdf5", S + "uvpspec.py"),
      ("_select on an HDF5 group", S + "uvpspec_utils.py")],
     note="random objects and selections; storage-layer corruption is not modelled")

prop("C08", "A container is a map from group and name to power spectra",
     "After any sequence of storing, replacing, listing, fetching and merging through any mix of handles, a container holds "
     "exactly the spectra last stored under each group and name, and listings show exactly those. A refused or "
     "failed store (duplicate name without overwrite, read-only handle, invalid object, storage error) does not change or lose any other stored "
     "spectrum, and a refused store keeps the previous spectrum of the same name. Merging split spectra combines exactly "
     "the pieces of each name, keeps their content, and leaves all others untouched; concurrent transactional "
     "writers that retry lose no update.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "for all operation histories, all injected storage faults, all concurrent transactional writers",
     "tests exercise one short fixed history on one file; no test injects faults, name collisions or concurrency",
     [S + "container.py"],
     [("set_pspec/get_pspec", S + "container.py"), ("transactional decorator", S + "container.py"),
      ("combine_psc_spectra", S + "container.py")],
     note="histories are random and bounded; faults are exceptions at dataset creation, not process kills")

prop("C09", "Selections and keyed access return exactly the matching spectra",
     "Selecting by spectral windows, baselines, baseline-pairs, times, LSTs or polarization pairs, in any spelling and any "
     "sequence, keeps exactly the matching spectra with all their associated data and labels unchanged, and a copying "
     "selection leaves the original alone. Every keyed accessor returns the rows of exactly the requested window, "
     "baseline-pair and polarization pair in any accepted spelling of the key; index and key conversions agree with "
     "the object's own rows, and selecting what several objects have in common keeps exactly the shared spectra.",
     ["inputs", "configurations", "histories"],
     "for all objects, all selections, all key spellings",
     "tests check a few selections and keys on one file with regular layout; ragged, shuffled, folded and "
     "multi-window objects with optional content are not sampled",
     [S + "uvpspec.py", S + "uvpspec_utils.py"],
     [("select/_select", S + "uvpspec_utils.py"), ("get_* accessors, key_to_indices, *_to_indices", S + "uvpspec.py"),
      ("select_common", S + "uvpspec_utils.py")])

prop("C10", "Combining power spectrum objects is lossless and refuses conflicts",
     "Cutting an object along spectral windows, baseline-pair-times or polarization pairs, reordering the pieces and their rows, and "
     "combining them by any entry point gives back every spectrum with its data, weights, covariances, statistics, window "
     "functions, labels and metadata. The result does not depend on the order of the inputs, optional content survives when "
     "every input has it, and inputs are unchanged. Objects that overlap, differ along more than one axis, or "
     "disagree on metadata that must match are refused.",
     ["inputs", "configurations"],
     "for all objects, all partitions along one axis, all orders and all conflicting pairs",
     "tests combine two or three regular pieces whose rows are in the same order; the property is over all "
     "partitions and orders",
     [S + "uvpspec.py"],
     [("combine_uvpspec", S + "uvpspec.py"), ("get_uvp_overlap", S + "uvpspec.py"),
      ("recursive_combine_uvpspec", S + "uvpspec.py")])

prop("C11", "Incoherent averages are the stated weighted means with propagated errors",
     "Averaging over baseline-pair groups and/or times gives, for each window and polarization pair, the weighted mean of exactly the "
     "spectra of the group, weighted by integration time or by an error field and by the given baseline-pair weights; fully flagged or "
     "infinite-error spectra do not contribute. Covariances, error statistics, window functions, integration times, sample counts and "
     "weights follow the matching propagation rule, and times, LSTs and labels are those of the averaged spectra. The result does not depend "
     "on the scale of the data, on how often or in which order members are listed beyond their weight, or on other parts of the object, and the input is unchanged.",
     ["inputs", "configurations"],
     "for all objects, all groupings, all weights and error fields",
     "tests average one regular object with equal weights; the property is over all content, weights and layouts",
     [S + "grouping.py", S + "uvpspec.py"],
     [("average_spectra", S + "grouping.py"), ("UVPSpec.average_spectra", S + "uvpspec.py")])

prop("C12", "Folding averages matching positive and negative delays",
     "Folding replaces each spectrum by the mean of its values at +delay and -delay, in every spectral window and for even and odd numbers of delays, and the "
     "delays it reports are the positive ones. Covariances, error statistics, window functions and sample counts are folded by the "
     "matching rule, spectra and labels stay in place, a second folding is refused, and folding gives the same result before or after "
     "selecting, combining, averaging or storing.",
     ["inputs", "configurations", "histories"],
     "for all objects, all delay-axis parities per window, all optional content",
     "tests fold one or two objects with one parity; mixed windows with covariances, statistics and windows are not sampled",
     [S + "grouping.py", S + "uvpspec.py"],
     [("fold_spectra", S + "grouping.py"), ("folded accessors", S + "uvpspec.py")])

prop("C13", "Spherical and delay binning combine exactly the modes of each bin",
     "Spherical averaging gives, for each |k| bin, the weighted least-squares mean (uniform, by error field or by inverse covariance) of exactly the "
     "modes whose |k|, from the baseline length, delay, frequency and cosmology of the object, falls in the bin, with covariances, errors, "
     "window functions, integration times and sample counts propagated to match. Bins without modes carry zero power and infinite error, "
     "and bad binning requests are refused. Averaging in delay bins and spherically averaging exact window functions follow "
     "the same kind of rule, and inputs, bins and kernels are left unchanged.",
     ["inputs", "configurations"],
     "for all objects, all bin grids, all weightings, both h conventions",
     "tests compare a few bins of one regular object with loose bounds; no test covers ragged content, several windows or folding",
     [S + "grouping.py", S + "uvpspec.py", S + "conversions.py"],
     [("spherical_average, spherical_wf_from_uvp, average_in_delay_bins", S + "grouping.py"),
      ("get_kperps/get_kparas", S + "uvpspec.py")])

prop("C14", "Bootstrap samples are draws with replacement, summarized faithfully",
     "Each bootstrap sample draws, in every baseline-pair group independently, as many baseline-pairs as the group has, with replacement, "
     "and is exactly the average of the drawn spectra with their multiplicities; samples repeat with the same seed. The resampled errors are the standard "
     "deviation, robust spread and percentiles of those very samples, attached to the unresampled average of the same groups. A run "
     "on a container stores these results under the stated names, uses exactly the requested spectra, and changes nothing else unless "
     "overwriting is allowed; grouping a list of baselines loses or repeats none.",
     ["inputs", "configurations", "histories"],
     "for all objects, groupings, seeds, numbers of samples and container contents",
     "tests run a handful of resamplings on one file and look at shapes; the property is about the law of the draw and "
     "exact agreement with the samples",
     [S + "grouping.py"],
     [("bootstrap_average_blpairs", S + "grouping.py"), ("bootstrap_resampled_error/bootstrap_run", S + "grouping.py"),
      ("group_baselines/sample_baselines", S + "grouping.py")])

prop("C15", "Cosmological conversions are those of the stated cosmology",
     "Redshifts, frequencies, distances, volumes and wave-vectors are those of the LCDM cosmology with the given parameters (flat or curved, any way of stating them), in h^-1 Mpc or Mpc and Hz or GHz as asked, "
     "at every redshift; conversions are mutually inverse and consistent with one another, and a cosmology rebuilt from its parameters is the same. The delays of a set of frequencies are the "
     "centred Fourier modes of their bandwidth; windows of frequency or redshift select exactly the channels inside; the circular mean does not depend on where angles wrap.",
     ["inputs", "configurations"],
     "for all cosmological parameters, redshifts, frequencies, units and windows",
     "tests compare a few distances at one redshift with stored numbers; curvature, other conventions and the identities over the whole range are not sampled",
     [S + "conversions.py", S + "utils.py"],
     [("Cosmo_Conversions", S + "conversions.py"), ("get_delays, spw_range_from_freqs, spw_range_from_redshifts, circular_average", S + "utils.py")])

prop("C16", "Units, wave-vectors and arithmetic of stored spectra",
     "The baseline lengths and vectors and the wave-vectors of a spectra object are those of its antennas, delays, frequencies and cosmology. Conversion to Delta^2 multiplies every spectrum, error and covariance by "
     "its own k^3/2pi^2, and adopting a cosmology or beam rescales data, errors and covariances by the ratio of the normalization scalars, which equal their defining integrals, "
     "keeping the stated units true. The difference of two objects pairs spectra of the same window, baseline-pair, LST and polarization, combining errors, samples, integrations and weights in (inverse) "
     "quadrature; statistics are set exactly where asked. Nothing else changes.",
     ["inputs", "configurations"],
     "for all objects (ragged, folded, several windows and polarizations), cosmologies, beams and both h conventions",
     "tests convert one regular object and look at shapes or one factor; errors, covariances, row order, folding and h conventions are not sampled",
     [S + "uvpspec.py", S + "uvpspec_utils.py"],
     [("convert_to_deltasq, set_cosmology, compute_scalar, get_kperps/get_kparas, set_stats, set_stats_slice", S + "uvpspec.py"), ("subtract_uvp", S + "uvpspec_utils.py")])

prop("C17", "Predicted thermal noise is the scatter that noise produces",
     "Noise spectra follow the radiometer formula for the system temperature, integration time, samples, component, beam and cosmology given, for every baseline-pair and time. Temperatures "
     "come from the auto-correlations of the four antennas of the pair at its own times, converted with the beam of their polarization and averaged over unflagged channels with the "
     "taper, never from flagged times; fully flagged data has infinite error. Signal-dependent errors and their correction follow their definitions, and the approximate covariance has the given "
     "variances. The scatter of power spectra of noise of known temperature agrees with the prediction.",
     ["inputs", "configurations"],
     "for all temperatures, flags, pairs, polarizations, interleavings, windows, tapers and options",
     "tests compare averages over one file to some percent; dependence on antenna, time, flags, polarization order and options is not sampled",
     [S + "noise.py", S + "utils.py", S + "uvpspec.py"],
     [("calc_P_N, Sensitivity, get_approximate_delay_delay_corr_matrix", S + "noise.py"), ("uvd_to_Tsys, uvp_noise_error, apply_P_SN_correction", S + "utils.py"),
      ("generate_noise_spectra, add_approximate_covariance", S + "uvpspec.py")])

prop("C18", "Names of antennas, baselines, baseline-pairs and polarization pairs round-trip",
     "Every way of naming a thing means the same thing: antenna numbers 0 to 899 and baseline or baseline-pair numbers convert into each other exactly, conjugation swaps exactly the baselines or antennas asked, "
     "every pair of polarizations converts between integers, strings and numbers (feed orientation included), weighting-parameter tables and the grouping of pairs keep every entry, and any spelling of a "
     "visibility key gives the visibilities of the named dataset, antennas and polarization. What names nothing is refused.",
     ["inputs"],
     "for all antenna numbers, polarizations, orientations, spellings and keys",
     "tests convert a few small antenna numbers and the XX and pI polarizations",
     [S + "uvpspec_utils.py", S + "pspecdata.py", S + "uvpspec.py"],
     [("_antnums_to_blpair, _blpair_to_antnums, _conj_*, polpair_int2tuple/polpair_tuple2int, compress_r_params, _get_blpairs_from_bls", S + "uvpspec_utils.py"),
      ("parse_blkey, x, w", S + "pspecdata.py")])

prop("C19", "Baseline choices follow the array's geometry",
     "Redundant groups are the classes of equal antenna separations (up to direction, within the tolerance), with the baseline's true lengths and its angle in [0, 180), and cuts on length, angle, flagging and antennas "
     "remove exactly what they say. Baseline-pairs formed from groups of two datasets contain every pair asked for once, paired in the same orientation, with auto-pairs, cross-pairs and permutations kept or "
     "left out as asked. Pairs that are not redundant are reported, and groupings of a spectra object or of files agree with those of the array.",
     ["inputs", "configurations"],
     "for all array layouts, antenna numberings, flags, cuts, exclusions and pairing options",
     "tests group one hexagonal file; westward numbering, kilometre baselines, differing datasets and most option combinations are not sampled",
     [S + "utils.py", S + "pspecdata.py", S + "uvpspec.py"],
     [("get_reds, get_bl_lens_angs, calc_blpair_reds, get_blvec_reds, config_pspec_blpairs, construct_blpairs", S + "utils.py"), ("validate_blpairs", S + "pspecdata.py"),
      ("get_red_bls, get_red_blpairs", S + "uvpspec.py")])

prop("C20", "Pseudo-Stokes visibilities are the stated combinations",
     "Pseudo-Stokes I, Q, U and V visibilities are the stated sums of the linear polarizations (in either polarization convention) for every baseline, time and channel, whatever the row and polarization order "
     "and however the data are given, with flags combined by or, and sample counts by the variance of the sum; units, times and metadata are kept and the label is the one asked for. A polarized sky gives back its "
     "Stokes parameters. The input data are unchanged, data that cannot be combined are refused, and the command-line tool writes what the functions give.",
     ["inputs", "configurations"],
     "for all visibilities, flags, sample counts, conventions, orders and sources of the data",
     "tests form pI and pQ of one file and look at a label or one value",
     [S + "pstokes.py", "scripts/generate_pstokes_run.py"],
     [("construct_pstokes, _combine_pol, generate_pstokes, filter_dset_on_stokes_pol", S + "pstokes.py")])

prop("C21", "Beam integrals and unit conversions are those of the beam",
     "The integrals of a beam and of its square, for every polarization, spelling and feed orientation and whatever the beam is made from, equal the sums over its response; "
     "normalization scalars equal the integral of beam, squared taper and cosmological volume over the band, noise and exact forms included; and Jy-to-mK factors equal c^2/(2 k nu^2 Omega) "
     "at every frequency. Tables of integrals hold what was put in, bad input is refused, and the beams and tables given are not changed.",
     ["inputs", "configurations"],
     "for all beams, polarizations, frequencies, tapers and cosmologies",
     "tests compare a few stored numbers for one beam file and one Gaussian",
     [S + "pspecbeam.py"],
     [("PSpecBeamBase, PSpecBeamGauss, PSpecBeamUV, PSpecBeamFromArray, _compute_pspec_scalar", S + "pspecbeam.py")])

prop("C22", "Exact window functions are those of the beam, the pairs and the taper",
     "Exact window functions equal the definition (squared Fourier transform of the beam across the baseline's chromatic track, Fourier transformed along frequency with the taper and averaged over the "
     "cylindrical bins) for every baseline, delay, channel count and polarization pair, are normalized and average as told between cylindrical and spherical bins, and a spectra object gets, for each of its pairs and windows, "
     "the ones of its own baselines and polarizations. Beams read from files or arrays keep their values, and stored window functions are never lost to a failed or refused write.",
     ["inputs", "configurations"],
     "for all beams, baseline groups, tapers, bands, bin choices and polarization pairs",
     "tests run one beam file, one band and an even number of delays and look at shapes",
     [S + "uvwindow.py", S + "uvpspec.py"],
     [("FTBeam, UVWindow.get_spherical_wf, get_cylindrical_wf, cylindrical_to_spherical, run_and_write, from_uvpspec", S + "uvwindow.py"), ("get_exact_window_functions", S + "uvpspec.py")])

prop("C23", "Pipelines and command-line programs give what their steps give",
     "Running the power spectrum pipeline on objects or files, from Python or the command line, stores for every pair of datasets with matching baselines exactly the spectrum of the requested steps (loading, calibration, trimming, "
     "interleaving, rephasing, flag broadcasting, unit conversion, baseline choice, estimation) done one by one, under the stated group and name. It warns when there is no pair, keeps existing results unless told to overwrite, "
     "and refuses bad input. The bootstrapping, noise-error and merging programs give what the functions they run give, with every command-line option meaning what it says.",
     ["inputs", "configurations", "histories"],
     "for all datasets, files, dataset pairs, options and existing results",
     "tests run the pipeline on two files and look at names and shapes; the programs themselves are never run",
     [S + "pspecdata.py", S + "cli.py", S + "grouping.py", S + "container.py", "scripts/pspec_run.py", "scripts/bootstrap_run.py", "scripts/auto_noise_run.py",
      "scripts/psc_merge_spectra.py"],
     [("pspec_run, _load_dsets, _load_cals, argument parser", S + "pspecdata.py"), ("bootstrap_run", S + "grouping.py"), ("combine_psc_spectra", S + "container.py"),
      ("command-line programs", "scripts/pspec_run.py")])

prop("C24", "Bias corrections and simulations have the stated size and statistics",
     "A bias correction multiplies, in each window, power (and errors by the same, covariances by the squared factor, for a total bias; power alone for a data bias) and nothing else, in place or on a copy. Simulated noise is "
     "circular, independent and of the stated level for every time, channel, polarization and sample count, extends the time axis evenly, is missing where there are no samples, and repeats with a seed; simulated skies have the "
     "stated covariance, and are alike over baselines and times exactly as asked. Example spectra built from data are those of all pairs in the given groups.",
     ["inputs", "configurations"],
     "for all corrections, temperatures, sample counts, integration times, polarizations, seeds and options",
     "tests compare a few standard deviations of one file and one set of options",
     [S + "loss.py", S + "testing.py"],
     [("apply_bias_correction", S + "loss.py"), ("noise_sim, gauss_cov_fg, sky_noise_jy_autos, sky_noise_sim, uvpspec_from_data, build_vanilla_uvpspec", S + "testing.py")])

prop("C25", "Jobs, logs and configuration files do what they are told",
     "A monitored job run gives every element to the worker, repeats exactly the failed elements up to the number of tries, reports exactly the positions of those still failing, and is an error only when everything failed "
     "or there was nothing to do, however the jobs are mapped. Log messages reach the screen and the file at once, indented and with their traceback, as asked. Configuration files are read with every "
     "'None' as none and lists of lists as lists of tuples at any depth of nesting.",
     ["inputs", "schedules", "histories"],
     "for all job lists, failure histories, mapping functions, messages and nested configurations",
     "tests run four jobs numbered 0 to 3 with one seed and read one configuration file",
     [S + "utils.py"],
     [("job_monitor, log, load_config, flatten", S + "utils.py")])

prop("C26", "Plots show the numbers of the object drawn",
     "Curves, markers, error bars, waterfalls and wedges show exactly the chosen component of the chosen spectra (selected, averaged, folded and converted as asked, logarithm included) of every requested baseline-pair and time, "
     "against the right delays, wave-numbers, LSTs and baseline lengths, with labels that name them; integrations without data are blank. Saved waterfalls of visibilities show each baseline and polarization in its own file. "
     "The object drawn is not changed, and what cannot be drawn is refused.",
     ["inputs", "configurations"],
     "for all spectra, visibilities, selections and plot options",
     "tests count lines and axes of a few figures, never the numbers drawn",
     [S + "plot.py"],
     [("delay_spectrum, delay_waterfall, delay_wedge, plot_uvdata_waterfalls", S + "plot.py")])
