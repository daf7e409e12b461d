LN = "TLC checks the properties on the bounded specification; the real code is driven through the specification's behaviours (and recorded runs are checked against it) within the stated bounds."
p("C01", "Baseline-keyed containers are one map over physical baselines",
  "A container of per-baseline data behaves as a single map from physical baselines to values, where either antenna order (with the matching polarization order) and any polarization capitalization name the same entry. After any history of building, storing, overwriting, deleting, copying and arithmetic, a read returns the last value written, complex-conjugated exactly when the requested orientation is opposite to the one written, and membership, listings, per-polarization and per-antenna-pair views, and length all agree with that map. Arithmetic combines the baselines both operands have, keeps the left operand's other entries, returns a new container and leaves its operands unchanged.",
  ["histories", "inputs"], "every history of container operations over every mixture of orientations, polarizations and capitalizations",
  "Tests read a few keys of a fully populated rectangular container; ragged contents, reversed deletes and mixed-orientation histories are never sampled.",
  ["hera_cal/datacontainer.py", "hera_cal/utils.py"],
  [("DataContainer item access", "hera_cal/datacontainer.py: DataContainer.__getitem__/__setitem__/__delitem__/__contains__"), ("arithmetic operators", "hera_cal/datacontainer.py: DataContainer.__add__ etc."), ("key normalisation", "hera_cal/utils.py: comply_bl, reverse_bl, conj_pol")],
  "public container API: reads, membership, listings after each operation", LN)

p("C02", "Selecting times or channels keeps data and metadata aligned",
  "After any history of selecting, reordering or duplicating times and channels, splitting alternately in time, concatenating and transposing a data container, each data row still belongs to the time (and sidereal time) listed at its position and each column to the frequency listed at its position, for every baseline and in the per-baseline time lists. The selected values are exactly those asked for, in the order asked for, whatever the order or repetition of the existing axis and even when both axes have the same length. Operations asked not to act in place leave the original untouched.",
  ["histories", "inputs"], "every history of time/frequency selections, including unsorted and repeated axes",
  "Tests select once from a sorted axis of a real file; chained selections from an already reordered axis are not sampled.",
  ["hera_cal/datacontainer.py"],
  [("time selection", "hera_cal/datacontainer.py: DataContainer.select_or_expand_times"), ("frequency selection", "hera_cal/datacontainer.py: DataContainer.select_freqs"), ("interleaving", "hera_cal/datacontainer.py: DataContainer.deinterleave, concatenate")],
  "data arrays against times/lsts/freqs attributes", LN)

p("C03", "Redundant-group collections stay self-consistent under any edit history",
  "A collection of redundant baseline groups always partitions its baselines: every baseline (in either orientation) is found in exactly one group, its group as reported for that orientation is that group (reversed when asked reversed), and all members of a group share one representative key whose reversal represents the reversed group. This holds after any history of adding, merging, extending, replacing, deleting and filtering groups, and operations asked not to act in place leave the original unchanged. A container of one visibility per group returns, for any member baseline, that group's visibility (conjugated for the reverse) and accepts new groups without disturbing others.",
  ["histories", "inputs"], "every history of group edits over every small array of antennas",
  "The tests exercise one operation on one fixed list; inconsistencies between the group list and its lookup maps appear after particular edit sequences.",
  ["hera_cal/red_groups.py", "hera_cal/datacontainer.py"],
  [("RedundantGroups edits and lookup", "hera_cal/red_groups.py: RedundantGroups"), ("RedDataContainer", "hera_cal/datacontainer.py: RedDataContainer")],
  "public group API: iteration, membership, lookup by baseline, representative keys", LN)

p("C04", "Redundancy finding and filtering are sound and complete",
  "For any antenna layout and tolerance-respecting position errors, grouping baselines by redundancy puts two baselines in the same group exactly when their separation vectors agree, lists every baseline of the array exactly once with a consistent orientation per group, and repeats the grouping for each requested polarization. Filtering groups by antennas, baselines, groups, length or polarization keeps exactly the baselines that satisfy every requested condition, drops emptied groups, and never alters the groups passed in.",
  ["inputs", "configurations"], "every array layout, polarization list and combination of filters",
  "Tests check counts on hexagonal arrays and one filter at a time.",
  ["hera_cal/redcal.py"],
  [("grouping", "hera_cal/redcal.py: get_pos_reds, get_reds, add_pol_reds"), ("filtering", "hera_cal/redcal.py: filter_reds, combine_reds")],
  "returned group lists", LN)

p("C05", "Applying calibration divides by g_i conj(g_j), never loses a flag, and undoes",
  "Calibrating visibilities divides each by the first antenna's gain times the conjugate of the second antenna's gain for that baseline's two polarizations (or multiplies for the opposite gain convention), and un-applying the same gains restores the original. A sample is flagged afterwards whenever it was flagged before or either antenna's calibration is flagged there or is missing, and no other sample becomes flagged; replacing old calibration by new equals un-applying the old and applying the new. For baseline-dependent-averaged data each integration uses the gains (averaged if several, flagged if any of them is) that cover its time span. Recalibrating a redundant group multiplies each member by the mean old-to-new ratio of the group's usable members and flags samples that have none.",
  ["inputs", "histories"], "every set of gains, flags, missing antennas, polarizations and sequence of apply / un-apply",
  "Tests use a handful of real files in which missing antennas, zero gains and cross-polarizations rarely coincide.",
  ["hera_cal/apply_cal.py", "hera_cal/utils.py"],
  [("in-place calibration", "hera_cal/apply_cal.py: calibrate_in_place, build_gains_by_cadences"), ("redundant recalibration", "hera_cal/apply_cal.py: calibrate_redundant_solution")],
  "data, flags after the call", LN)

p("C06", "Partial loading gives the same result as loading everything",
  "Calibrating a uvh5 file chunk by chunk writes the same data, flags, sample counts, baselines, channels and times as calibrating it in one go, and both equal the specified result, for every chunk size and every combination of old calibration, gain convention, band-edge flags, spectral window, antenna flags from a yaml file and redundant averaging, whatever orientation baselines are stored in. Iterating over one file or several by baseline, redundant group, time or frequency visits every requested datum with the value a full read gives, keeps redundant groups whole, and rewriting a file chunk by chunk leaves every datum as last written. Delay filtering a file a few baselines at a time gives the same residuals, models, filled data, flags and sample counts as all at once.",
  ["inputs", "configurations"], "every chunk size and combination of options",
  "Tests compare one chunk size with one option set.",
  ["hera_cal/apply_cal.py", "hera_cal/io.py"],
  [("partial I/O calibration", "hera_cal/apply_cal.py: apply_cal"), ("iterators", "hera_cal/io.py: HERAData.iterate_over_bls/_freqs/_times"), ("partial write", "hera_cal/io.py: HERAData.partial_write")],
  "output files read back", LN)

p("C07", "Visibility files round-trip and all readers agree",
  "Data, flags and sample counts updated in memory and written to a visibility file read back identical for every baseline, time, channel and polarization, and reading any subset (baselines, times, sidereal times, channels, polarizations) returns exactly the corresponding part of a full read with matching metadata. The fast reader and the ordinary reader return the same data, flags, sample counts, times and antenna metadata for the same request, over one file or several.",
  ["inputs", "histories"], "every selection and every update/write/read history",
  "Tests compare readers on a few fixed files and selections.",
  ["hera_cal/io.py"],
  [("HERAData", "hera_cal/io.py: HERAData.read, update, write_uvh5, build_datacontainers"), ("fast reader", "hera_cal/io.py: read_hera_hdf5, HERADataFastReader")],
  "returned containers and files", LN)

p("C08", "Calibration files round-trip without mixing antennas, times or channels",
  "Gains, flags, qualities and total qualities written to a calibration file read back identical per antenna-polarization, time and channel, after any history of updating, selecting, adding channels or writing, and reading several files orders them by time. Restricting a read to antennas, times, channels or polarizations returns exactly that part of the full content, and combining two calibrations multiplies their gains and unites their flags.",
  ["inputs", "histories"], "every antenna/polarization/time/channel content and update history",
  "Tests round-trip one file with every antenna present.",
  ["hera_cal/io.py"],
  [("HERACal", "hera_cal/io.py: HERACal.read, update, write"), ("writers", "hera_cal/io.py: write_cal, update_cal"), ("combination", "hera_cal/utils.py: combine_calfits")],
  "files read back", LN)

p("C09", "No existing output file is replaced unless overwriting was requested",
  "Every routine that writes visibility, calibration or metadata files and offers an overwrite or clobber switch (ordinary and partial visibility writers, file calibration with and without partial loading or redundant averaging, calibration writers and combiners, autocorrelation and noise extraction, chunking, reconstitution, time averaging, delay filtering, smoothing, reflection gains, redundant calibration runs) leaves an existing output file byte-for-byte unchanged when overwriting was not requested, produces the file when it does not exist or when overwriting was requested, and changes no other file. (uvfits output is documented as always overwritten.)",
  ["inputs", "configurations"], "every writer, option set and pre-existing file",
  "Tests check the switch on one or two writers with default paths.",
  ["hera_cal/io.py", "hera_cal/utils.py", "hera_cal/apply_cal.py", "hera_cal/redcal.py", "hera_cal/vis_clean.py", "hera_cal/chunker.py"],
  [("writers", "hera_cal/io.py: write_vis, write_cal, update_vis, update_cal, HERACal.write"), ("combiner", "hera_cal/utils.py: combine_calfits")],
  "bytes of the file on disk", LN)

p("C10", "Concurrent and interrupted filter-cache writers never poison readers",
  "However many processes share one filter-cache directory and wherever any of them is interrupted, a process that loads the cache never fails and obtains, for each filter, exactly the matrices that some process stored. Every filter stored by a process that finished its write is available to all later readers.",
  ["schedules", "crash_points"], "every interleaving of readers and writers and every crash point of a writer",
  "A unit test runs one process to completion.",
  ["hera_cal/io.py"],
  [("cache write", "hera_cal/io.py: write_filter_cache_scratch"), ("cache read", "hera_cal/io.py: read_filter_cache_scratch")],
  "cache directory contents and returned cache", LN, technique="TLA+ spec of writers/readers/crashes checked with TLC; its schedules are replayed step by step into the real code with an instrumented file layer")

p("C11", "Work is divided so that every item is handled exactly once",
  "When baselines are divided among jobs, files among chunks or redundant groups among memory-limited chunks, every baseline, file or group member is assigned to exactly one part, for any number of items and any chunk size or job count, in every process that computes the division, with groups kept whole and input lists unmodified. Chunked files concatenate back to the original data, and reassembling time files from baseline files restores every baseline and time once with its own data.",
  ["inputs", "configurations", "schedules"], "every item count, chunk size and job index, across independent processes",
  "Tests use one file count that divides evenly.",
  ["hera_cal/io.py", "hera_cal/utils.py", "hera_cal/chunker.py", "hera_cal/vis_clean.py"],
  [("job division", "hera_cal/io.py: baselines_from_filelist_position"), ("group chunks", "hera_cal/utils.py: chunk_baselines_by_redundant_groups"), ("file chunks", "hera_cal/chunker.py: chunk_files"), ("reassembly", "hera_cal/vis_clean.py: time_chunk_from_baseline_chunks")],
  "returned lists and written files", LN)

p("C12", "Flag summaries mean what they say and never unflag",
  "Per-antenna flags synthesized from baseline flags are set exactly where the fraction of that antenna's flagged baselines exceeds the requested threshold (all of them, for a threshold of one), counting no baseline of a fully flagged antenna, and fully flagged antennas come out fully flagged. Factorized flags consist of every input flag plus, in each spectral window, all times of the channels flagged for more than the threshold fraction of not fully flagged integrations and all channels of the integrations with any other flag. Thresholding and broadcasting flags over antennas only adds flags, applies each threshold to its own axis as documented, and changes nothing when repeated; the boxes that isolate unflagged data contain every unflagged sample and are the smallest that do; Sun flagging adds exactly the integrations with the Sun above the limit. Inputs change only when asked for in place.",
  ["inputs", "configurations"], "every flag pattern and threshold",
  "Tests check a few hand-made patterns.",
  ["hera_cal/flag_utils.py", "hera_cal/smooth_cal.py"],
  [("antenna flags", "hera_cal/flag_utils.py: synthesize_ant_flags"), ("factorization", "hera_cal/flag_utils.py: factorize_flags, get_minimal_slices"), ("broadcast", "hera_cal/smooth_cal.py: flag_threshold_and_broadcast"), ("Sun", "hera_cal/flag_utils.py: solar_flag")],
  "returned flags", LN)

p("C13", "Redundant averaging is a weighted mean that conserves samples",
  "Averaging redundant baselines gives, for each group, time, channel and polarization, the weighted mean of that group's unflagged data (by sample count, integration time or supplied weights), sample counts equal to the total of the unflagged members' and a flag exactly when every member is flagged. The result is stored under that group's own key in the key's orientation, with the mean integration time of the members not wholly flagged, does not depend on the order of baselines or on how many groups are absent from the data, and leaves the inputs unchanged when not in place.",
  ["inputs", "configurations"], "every grouping, flag pattern, weight and member orientation",
  "Tests average one simulated array with all groups present.",
  ["hera_cal/utils.py"],
  [("averaging", "hera_cal/utils.py: red_average")],
  "returned containers", LN)

p("C14", "The redundant-calibration driver only ever excludes more and always flags it",
  "Across the runs of the redundant-calibration driver the set of excluded antennas only grows by antennas whose chi-squared z-score reaches the threshold, the loop ends within the permitted number of runs, the returned and written result is that of a calibration with the final exclusions, and the history names exactly the antennas thrown out. In the result, excluded antennas, visibilities no two good antennas measure, flagged edge channels and integrations with the Sun above the horizon are flagged; every other integration is solved, with a model that reproduces the data and a count of the samples that went in. Neither flags nor solutions depend on how many integrations are loaded at a time.",
  ["histories", "configurations"], "every sequence of per-iteration quality outcomes and loading chunk size",
  "Running the full driver on a file samples one outcome sequence.",
  ["hera_cal/redcal.py"],
  [("driver", "hera_cal/redcal.py: redcal_run"), ("iteration", "hera_cal/redcal.py: redcal_iteration")],
  "returned calibration dictionary and written files", LN)

p("C15", "Redundant solutions reproduce the data and degeneracy moves change nothing",
  "For noise-free redundant data, logcal, lincal, omnical and the full chain firstcal-logcal-omnical find gains and visibilities whose model reproduces every baseline; iterative refinement never ends with larger chi-squared than it started with, reports the chi-squared of the solution it returns, and does not alter its inputs. Fixing degeneracies, to given gains or to unit average amplitude and zero average phase and slope, changes gains and visibilities together so that the model of every baseline is unchanged, and doing it twice is the same as once. Extending a solution, gains to further antennas or visibilities to further groups, solves exactly what the baselines at hand determine, agrees with the data, leaves existing solutions unchanged, and gives zero gain where there is no weight.",
  ["inputs", "histories"], "every array, gain set, flag pattern and sequence of degeneracy operations",
  "Tests use two array shapes with random gains and check one operation at a time.",
  ["hera_cal/redcal.py"],
  [("solutions", "hera_cal/redcal.py: RedSol"), ("calibrator", "hera_cal/redcal.py: RedundantCalibrator.remove_degen, logcal, lincal, omnical, firstcal")],
  "model g_i conj(g_j) V per baseline", LN)

p("C16", "Chi-squared and its observation counts add up over baselines and pieces",
  "Chi-squared is the sum over (cross-correlation) baselines of weighted squared residuals between the data and gain-scaled model, the observation count is the number of positive weights among them, and the per-antenna and per-polarization values contain exactly the baselines that involve that antenna or polarization. Accumulating the baselines over several calls, in any order or split, gives the same totals as one call; flagged samples contribute nothing to either, and data, model, weights and gains are left alone. The predicted chi-squared is the number of degrees of freedom, adding up consistently over baselines, groups and antennas, and normalized chi-squared is chi-squared divided by it.",
  ["inputs", "histories"], "every split and order of baselines, flags and polarizations",
  "Tests accumulate twice at most and for one polarization.",
  ["hera_cal/utils.py", "hera_cal/redcal.py"],
  [("chi-squared", "hera_cal/utils.py: chisq"), ("degrees of freedom", "hera_cal/redcal.py: predict_chisq_per_bl, predict_chisq_per_red, predict_chisq_per_ant, normalized_chisq")],
  "returned chi-squared and counts", LN)

p("C17", "Every integration lands in exactly the sidereal-time bin that contains it",
  "When integrations from many nights are stacked on a sidereal-time grid, each integration within the grid is assigned to exactly the one bin that contains it and integrations outside are dropped, across the 24-hour wrap and for grids covering the full day. All of an integration's data, flags, sample counts and time stay together, and data missing from a night appear as flagged with zero samples.",
  ["inputs", "configurations"], "every grid, night and integration time including bin edges and the wrap",
  "Tests use one short grid away from edges.",
  ["hera_cal/lst_stack/binning.py"],
  [("bin assignment", "hera_cal/lst_stack/binning.py: get_lst_bins, lst_align"), ("file binning", "hera_cal/lst_stack/binning.py: lst_bin_files_for_baselines, lst_bin_files_from_config")],
  "stacked data per bin", LN)

p("C18", "Sidereal-bin averages are weighted means that conserve samples",
  "For each baseline, bin, channel and polarization the stacked average is the sample-weighted mean of the unflagged (or, in in-painted mode, usable) inputs, the flag is set exactly when no usable input remains, and sample counts and days binned count exactly the unflagged inputs. The average, flags and sample counts do not depend on the order of nights or on whether scatter is also requested.",
  ["inputs", "configurations"], "every flag, sample-count and in-painting pattern and option set",
  "Tests check constant data and one or two flag patterns.",
  ["hera_cal/lst_stack/averaging.py"],
  [("averaging", "hera_cal/lst_stack/averaging.py: lst_average, reduce_lst_bins, get_masked_data")],
  "returned averages, flags, counts", LN)

p("C19", "The stacking plan covers the grid and loses no file or integration",
  "The stacking plan divides the sidereal-time grid into output files so that every grid bin belongs to exactly one output file, and for each output file selects every input file and integration whose sidereal time falls in one of its bins, across the 24-hour wrap and when the grid does not divide evenly. A plan written to disk and read back is identical, and running the plan for each output file separately gives together the same stack as running it at once.",
  ["inputs", "configurations"], "every grid width, files-per-output size and set of nights",
  "Tests use one set of three nights with an evenly dividing grid.",
  ["hera_cal/lst_stack/config.py", "hera_cal/lst_stack/io.py"],
  [("plan", "hera_cal/lst_stack/config.py: LSTBinConfigurator, LSTConfig, LSTConfigSingle"), ("file filter", "hera_cal/lst_stack/io.py: filter_required_files_by_times")],
  "plan object and its file", LN)

p("C20", "Smoothing grids a day's solutions without mixing and honours its thresholds",
  "Gathering a day's calibration files puts each integration's gains and flags at its own grid time, leaves grid times without data flagged, and unites calibration flags with external flags. Blacklisted times, sidereal times, frequencies and channels are exactly those inside the given inclusive bounds (including bounds across 24 h), rephasing makes the reference antenna's phase zero while preserving amplitudes and relative phases, and unflagged non-finite gains are refused. A smoothed gain depends only on unflagged, non-blacklisted gains of the same antenna, and every input file gets back exactly its own integrations and antennas.",
  ["inputs", "configurations"], "every set of files, gaps, bounds and reference antennas",
  "Tests use one contiguous pair of files.",
  ["hera_cal/smooth_cal.py"],
  [("gridding", "hera_cal/smooth_cal.py: CalibrationSmoother.__init__"), ("blacklists", "hera_cal/smooth_cal.py: build_time_blacklist, build_freq_blacklist"), ("reference antenna", "hera_cal/smooth_cal.py: rephase_to_refant, pick_reference_antenna")],
  "grids and written files", LN)

p("C21", "Time averaging and interleaving conserve data",
  "Averaging a waterfall in time gives, per window and channel, the weighted mean of unflagged data, the total of unflagged samples and a flag exactly when the whole window is flagged, with the last short window included and times and LSTs of the window's mean; without flags or sample counts every sample counts once. De-interleaving then interleaving in time restores the original order, each integration appearing once.",
  ["inputs", "configurations"], "every window size, interleave count, flag and sample pattern",
  "Tests use evenly dividing windows on one file.",
  ["hera_cal/frf.py"],
  [("time averaging", "hera_cal/frf.py: timeavg_waterfall, FRFilter.timeavg_data"), ("interleaving", "hera_cal/frf.py: deinterleave_data_in_time, interleave_data_in_time")],
  "returned arrays", LN)

p("C22", "Edge trimming, padding and row flagging around filters are exact, reversible",
  "Trimming flagged edges removes exactly the channels or integrations at the ends of each contiguous band that are flagged throughout, keeps every sample with nonzero weight, and restoring puts every kept sample back at its original position with zeros elsewhere. Padding then unpadding data and axis values is the identity on every axis, and flagging of rows near edges or with long contiguous gaps zeroes exactly the rows that meet the stated criterion. A Fourier filter then flags exactly the trimmed edges and the rows it skipped, leaves model and residual zero there, and elsewhere model plus residual is the data wherever they are unflagged, in every spectral window.",
  ["inputs", "configurations"], "every weight pattern, band structure and axis",
  "Tests trim one hand-made pattern.",
  ["hera_cal/vis_clean.py"],
  [("trimming", "hera_cal/vis_clean.py: truncate_flagged_edges, restore_flagged_edges, find_discontinuity_edges"), ("padding", "hera_cal/vis_clean.py: zeropad_array"), ("row flags", "hera_cal/vis_clean.py: flag_rows_with_flags_within_edge_distance, flag_rows_with_contiguous_flags")],
  "returned arrays", LN)

p("C23", "Baseline, polarization and sidereal-time conversions invert one another",
  "Splitting a baseline key into antennas and joining it again, reversing a key twice, and converting polarization names to numbers and back (for either feed orientation) are identities for every accepted spelling, and reversing a baseline swaps the antennas together with their feeds. Picking baselines by antennas to keep or exclude (by number or by number and feed), polarization and length keeps exactly those that meet every criterion, in order. A Julian date converts to sidereal time and back to the same date within a millisecond, and a sidereal time converts to the date on the requested day or, when other days are allowed, to the first one after the branch cut on that day; inputs are left alone. The best branch cut of a set of sidereal times is the end of their largest gap around the circle, and sidereal-time grids divide the circle into a whole number of equal bins, as narrow as possible but no narrower than asked, starting with the bin closest to the requested beginning and spanning the requested width.",
  ["inputs"], "every key, polarization spelling, date, sidereal time, branch cut and grid request",
  "Tests sample a few keys and times.",
  ["hera_cal/utils.py", "hera_cal/lst_stack/config.py", "hera_cal/lstbin.py"],
  [("keys", "hera_cal/utils.py: split_pol, join_pol, conj_pol, comply_pol, split_bl, join_bl, reverse_bl, comply_bl, make_bl"), ("time", "hera_cal/utils.py: JD2LST, LST2JD, JD2RA, get_best_lst_branch_cut"), ("grids", "hera_cal/lst_stack/config.py and hera_cal/lstbin.py: make_lst_grid")],
  "returned keys, times and grids", LN)

p("C24", "Absolute calibration compares each datum with its own model counterpart",
  "Each data integration is paired with the model integration nearest in sidereal time (across the 24-hour wrap, whatever the order or names of the model files) unless it is farther than the allowed separation, and model files are selected if and only if they overlap the data in sidereal time. Data and model baselines are matched by antennas (full models) or by separation vector (unique-baseline models) with the orientation of the data, and data weights are sample counts over predicted noise variance, zero where data or model are flagged. For noise-free redundantly calibrated data the driver's gains turn the raw data into the model, rephased from the model's to the data's sidereal time, for any number of integrations loaded at a time, and its flags are exactly those of redundant calibration plus unpaired integrations, samples the model lacks and samples of a flagged reference antenna.",
  ["inputs", "configurations"], "every set of data times, model files, baseline orientations, flags and loading chunks",
  "Tests use one data file and one model in time order with matching orientation.",
  ["hera_cal/abscal.py"],
  [("time map", "hera_cal/abscal.py: get_d2m_time_map, get_all_times_and_lsts"), ("file match", "hera_cal/abscal.py: match_times"), ("baseline match", "hera_cal/abscal.py: match_baselines"), ("weights", "hera_cal/abscal.py: build_data_wgts"), ("driver", "hera_cal/abscal.py: post_redcal_abscal_run")],
  "returned maps and weights, written calibration files", LN)
p("C25", "Noise-weighted averages use exactly the usable data, corrected per SNAP",
  "Calibrating and averaging redundant groups with noise weights gives, in every sample, the mean of the calibrated members weighted by one over the product of their antennas' calibrated autocorrelations, where members are the baselines with gains, autocorrelations, data and no excluded antenna, and a sample of one counts if and only if neither gain is non-finite or flagged, the datum is not flagged and, between SNAPs, no loss is unmeasured. Autocorrelations are averaged with equal weights; sample counts are the effective ones implied by the averaged autocorrelations (or plain counts); chi-squared per antenna and in total is the noise-weighted scatter over its degrees of freedom, and excluded antennas get chi-squared only of their own. Decoherence is corrected between SNAPs and never within one, a correction with unmeasured losses on unflagged data or at other times or channels is refused with the data untouched, and inputs are never changed. Decoherence measurements are written, read and joined without mixing integrations or SNAPs: joined in time order, unmeasured where a part lacks the SNAP, refused when parts share an integration or disagree on channels, settings or antenna mapping, and files are not overwritten unless asked.",
  ["inputs", "histories"], "every array, flags, gains, excluded antennas, SNAP mapping and losses; every sequence of writing, reading and joining",
  "Tests compare a few arrays in expectation and one join.",
  ["hera_cal/apply_cal.py", "hera_cal/io.py"],
  [("averaging", "hera_cal/apply_cal.py: calibrate_and_red_avg"), ("decoherence correction", "hera_cal/apply_cal.py: correct_SNAP_decoherence_in_place"), ("measurement", "hera_cal/io.py: SNAPDecoherence")],
  "returned containers, chi-squared, files", LN)

p("C26", "Absolute-calibration solvers recover the true gains from usable data alone",
  "When the data are a model times gains of the solver's own form, every absolute-calibration solver returns those gains: overall amplitude and tip-tilt phase, per-antenna amplitude and phase, per-antenna delay and offset, delay slope, phase slope, cross-polarized phase and full complex phase, through the functions, through the solver object (as dictionaries, arrays or for other antennas) and through the post-redundant calibration pipeline, so that gains times model reproduce the data. Samples with zero weight, non-finite data or a zero model never influence the answer; overall amplitudes from disagreeing data are the weighted least-squares ones; a reference antenna has zero phase; channels cut at the edges are not used; inputs are not changed. Delays are recovered to half a nanosecond.",
  ["inputs", "configurations"], "every array, polarization mode, gain of the solver's form, flag and weight pattern",
  "Tests solve one simulated file per solver, with hardly any flags.",
  ["hera_cal/abscal.py", "hera_cal/utils.py"],
  [("solvers", "hera_cal/abscal.py: abs_amp_logcal, abs_amp_lincal, TT_phs_logcal, amp_logcal, phs_logcal, delay_lincal, delay_slope_lincal, global_phase_slope_logcal, cross_pol_phase_cal, complex_phase_abscal"), ("object", "hera_cal/abscal.py: AbsCal"), ("pipeline", "hera_cal/abscal.py: post_redcal_abscal"), ("delay", "hera_cal/utils.py: fft_dly")],
  "returned gains and fits", LN)

p("C27", "Sky-model calibration finds the gains the data determine, and nothing else",
  "Calibrating noise-free data against a sky model gives each antenna and feed the gain amplitude and, relative to the other antennas, the phase with which gains times model reproduce the data, in every integration and channel the usable data determine; elsewhere (flagged antennas or channels, missing, zero or non-finite model) the gain is not a number. With a SNAP mapping, baselines within a SNAP do not influence it; cross-polarized data, antennas left out and unusable samples never do. Unmapped antennas, missing autocorrelations, uneven flags and antennas without a partner are refused. Antennas left out are then solved as the weighted least-squares gain over their usable baselines to solved antennas, with chi-squared of their own, changing no solved antenna. Starting amplitudes are relative to the median of unflagged autocorrelations; delays relative to the array mean. Losses per SNAP and block of channels are found relative to the least affected measured block of the band, unmeasured where nothing was measured, each SNAP and integration on its own. Inputs are not changed.",
  ["inputs", "configurations"], "every array, SNAP mapping, polarization set, flag structure, set of antennas left out and loss pattern",
  "Tests simulate one array with one polarization and few flags.",
  ["hera_cal/skycal.py"],
  [("pipeline", "hera_cal/skycal.py: sky_calibrate, build_data_model_ratio, model_based_firstcal, refine_gains"), ("antennas left out", "hera_cal/skycal.py: expand_sky_gains"), ("amplitudes", "hera_cal/skycal.py: calibrate_abs_amp_from_autos"), ("losses", "hera_cal/skycal.py: estimate_SNAP_decoherence, log_gain_inverse_variance")],
  "returned gains, chi-squared and losses", LN)

p("C28", "Calibrating an LST stack makes every night agree with the model",
  "When each night of an LST stack is a common model seen through one amplitude and one tip-tilt per feed and one phase between the feeds per channel, absolute calibration of the stack returns exactly those amplitudes and gains whose products turn the night's data (and its autocorrelations) into the model, each night and channel on its own, from unflagged samples (inpainted ones only if asked) and nothing else. Where nothing usable was measured, amplitudes are one, tip-tilts zero and gains one. Smoothing over bands keeps gains that do not change with frequency, fills channels without a solution from the others of the band, leaves channels outside the bands alone and leaves nights without data in a band at one. Data are divided by the gains if and only if calibration in place is asked; flags, sample counts and models are not changed. Files of such solutions return what was written, and the gains made from them follow from amplitude, tip-tilt and phase between feeds at the requested antennas, polarizations and range of sidereal times (through midnight as well), flagged if all of the range is; a range without solutions and polarizations the file lacks are refused.",
  ["inputs", "configurations"], "every array, polarization set, gain of this form, pattern of flagged and inpainted samples, option and range of sidereal times",
  "Tests calibrate one array with one kind of gain at a time and hardly any flags.",
  ["hera_cal/lst_stack/calibration.py", "hera_cal/abscal.py"],
  [("calibration", "hera_cal/lst_stack/calibration.py: lstbin_absolute_calibration, _lstbin_amplitude_calibration, _lstbin_phase_calibration, _lstbin_cross_pol_phase_calibration"), ("smoothing", "hera_cal/lst_stack/calibration.py: _expand_degeneracies_to_ant_gains"), ("files", "hera_cal/lst_stack/calibration.py: write_single_baseline_lstcal_solutions, load_single_baseline_lstcal_solutions, load_single_baseline_lstcal_gains")],
  "returned parameters and gains, calibrated data, files", LN)

p("C29", "Stack scores, clipping and selections are exact for the samples they concern",
  "The squared Z-score of a sample of an LST stack is its squared distance from the sample-weighted mean of the usable nights (unflagged, not inpainted, finite) over its predicted variance, times M/(M-n) for n of M samples in all; it is not a number if the sample or all others are unusable. Against given statistics, the centre, total and deviation asked for are used and samples are counted once. The variance predicted for a sample is the product of the autocorrelations of its two antennas, each in the feed of the baseline, over time, bandwidth and number of samples, infinite where flagged, without samples, or (if asked) inpainted. Sigma clipping flags exactly the samples, or whole bands of them, whose distance from the median along one axis (masked and non-finite samples ignored) exceeds the threshold in units of the given or the median absolute deviation, and nothing on axes that are too short or outside the bands; flag thresholds flag exactly the bins flagged in more than the given fraction of nights, in place only if asked. Selections of scores return exactly the nights, baselines, channels and polarizations asked for, in the order asked or else that of the data, masked where flagged, non-finite or rejected by a selector; reductions over named axes and tables of statistics keep nights, baselines, channels and polarizations apart. Inputs are not changed.",
  ["inputs", "configurations"], "every stack, pattern of flags, inpainted, missing and non-finite samples, statistics, axes, bands, thresholds and selection",
  "Tests use unflagged Gaussian noise with one sample per night and compare distributions.",
  ["hera_cal/lst_stack/metrics.py", "hera_cal/lst_stack/flagging.py"],
  [("scores", "hera_cal/lst_stack/metrics.py: get_squared_zscores, get_squared_zscores_flagged, get_nightly_predicted_variance, get_nightly_predicted_variance_stack"), ("selection", "hera_cal/lst_stack/metrics.py: downselect_zscores, get_compressed_zscores, get_selected_bls, reduce_stack_over_axis, LSTBinStats"), ("flags", "hera_cal/lst_stack/flagging.py: sigma_clip, threshold_flags")],
  "returned scores, variances, flags and selections", LN)
