PBT = "property-based testing (Hypothesis)"
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=f"{PBT}: {technique}", note=note, observe=list(observe)))


SAMPLED = "Sampled, not exhaustive: the property held on every generated case of the stated bounds. "

P("C01", "Visibility container is a map over physical baselines",
  "A visibility container holds one entry per physical baseline and polarization: reading through the antenna-reversed "
  "key or another capitalization gives the same entry, conjugated exactly when reversed, whatever key it was stored "
  "under. After any history of sets, deletions, arithmetic, concatenations and time/frequency selections, every "
  "observer (len, keys, items, in, get, antpairs, pols, per-pol and per-baseline views, times, lsts, freqs) agrees with "
  "that map, and operations documented to return a copy leave the original unchanged.",
  ["histories", "inputs"], "all construction forms, key spellings/orientations, dtypes, and operation sequences",
  "Tests use a couple of fixed containers and single operations; they never mix conjugate-stored entries, repeated "
  "selections and deletions in one history.",
  ["hera_cal/datacontainer.py", "hera_cal/utils.py"],
  [("DataContainer.__getitem__/__setitem__/__delitem__", "hera_cal/datacontainer.py"),
   ("select_or_expand_times/select_freqs/concatenate", "hera_cal/datacontainer.py")],
  "model-based stateful histories vs a dictionary over canonical baselines",
  SAMPLED + "Histories of up to 7 operations over up to 8 entries.")

P("C02", "Redundant-group bookkeeping stays a consistent partition",
  "A set of redundant groups is an ordered partition of baselines, and a container keyed by it returns the one stored "
  "visibility of a group for any member baseline (conjugated for reversed members). After any history of appends, "
  "insertions, replacements, deletions, filters, sorts, unions and re-keyings, membership, group lookup, representative "
  "key, position, antenna and baseline listings all describe the same partition, and non-in-place edits leave the "
  "original unchanged.",
  ["histories", "inputs"], "all group layouts, edit sequences, key orientations and re-keying sets",
  "Tests apply one edit to one hand-made group list at a time.",
  ["hera_cal/red_groups.py", "hera_cal/datacontainer.py"],
  [("RedundantGroups", "hera_cal/red_groups.py"), ("RedDataContainer", "hera_cal/datacontainer.py")],
  "model-based stateful histories vs a list-of-sets partition", SAMPLED + "Histories of up to 8 edits.")

P("C03", "Redundancy finding groups exactly the redundant baselines",
  "For any antenna layout whose position errors are well inside the tolerance, the reported redundant groups are exactly "
  "the classes of baselines with equal separation vectors up to overall sign, each baseline listed once and oriented "
  "consistently with its group; polarization modes replicate them as documented. Filtering keeps exactly the baselines "
  "and groups meeting every criterion given, and the number of phase-gradient degeneracies reported equals the dimension "
  "of the space of antenna-position assignments consistent with the groups.",
  ["inputs", "configurations"], "all jittered grid layouts in 1-3 dimensions, polarization modes and filter combinations",
  "Tests use a few fixed hexagonal and linear arrays.",
  ["hera_cal/redcal.py", "hera_cal/red_groups.py"],
  [("get_pos_reds/get_reds/filter_reds", "hera_cal/redcal.py"), ("reds_to_antpos/combine_reds", "hera_cal/redcal.py")],
  "brute-force reference partition and a rank oracle over generated layouts", SAMPLED + "Up to 12 antennas.")

P("C04", "Redundant calibration recovers gains and visibilities",
  "For noise-free data that are exactly redundant up to per-antenna gains, the redundant calibration steps (firstcal for "
  "delay/offset gains, logcal, lincal, omnical and the full chain) return gains and unique visibilities whose products "
  "reproduce the data for every baseline, and whose gains match the truth once the degeneracies are fixed to the truth. "
  "Visibilities and gains extended to baselines and antennas left out of the solve reproduce the data too.",
  ["inputs", "configurations"], "all arrays, gains, sky visibilities, weights, polarization modes",
  "Tests use one or two seeds on fixed hexagonal arrays with loose tolerances.",
  ["hera_cal/redcal.py"],
  [("RedundantCalibrator.firstcal/logcal/lincal/omnical", "hera_cal/redcal.py"),
   ("RedSol.extend_vis/extend_gains", "hera_cal/redcal.py"), ("redundantly_calibrate", "hera_cal/redcal.py")],
  "simulated truth recovery and data = g g* V reconstruction", SAMPLED + "Truth is simulated by the harness.")

P("C05", "Degeneracy removal moves a solution only along its degeneracies",
  "Removing or replacing degeneracies changes gains and visibilities only so that every modelled visibility g_i g_j* V "
  "is unchanged, is idempotent, makes mean gain amplitude products and phase gradients equal to the reference (1 and 0 by "
  "default), and gives the same answer for two solutions differing only by a degenerate transformation.",
  ["inputs", "configurations"], "all arrays, solutions, reference solutions and polarization modes",
  "Tests fix one array per polarization mode.",
  ["hera_cal/redcal.py"],
  [("remove_degen_gains", "hera_cal/redcal.py"), ("RedSol.remove_degen", "hera_cal/redcal.py")],
  "metamorphic and invariant oracles over generated solutions", SAMPLED)

P("C06", "Chi-squared accounting matches its definition",
  "Chi-squared, observation counts and their per-antenna versions equal the direct sums over unflagged data-model pairs, "
  "with gains, weights, flags, redundant expansion and accumulation across calls as documented. Predicted degrees of "
  "freedom per baseline sum to the number of data minus fitted parameters plus degeneracies, and normalized chi-squared "
  "divides by exactly these.",
  ["inputs", "configurations"], "all data, models, weights, flags, gain sets, groups and polarization modes",
  "Tests use constant arrays of ones.",
  ["hera_cal/utils.py", "hera_cal/redcal.py"],
  [("chisq", "hera_cal/utils.py"), ("predict_chisq_per_bl/per_red/per_ant, normalized_chisq", "hera_cal/redcal.py")],
  "direct-sum reference and rank identities", SAMPLED)

P("C08", "Applying gains in memory follows the calibration equation",
  "Calibrating visibilities in memory multiplies each baseline by exactly (old_i old_j*)/(new_i new_j*) for the divide "
  "convention and its inverse for multiply, keeps autocorrelations real, and leaves gains untouched. Flags become the OR of "
  "data flags and both antennas' gain flags (weights go to zero there); baselines with a missing or zero gain end up "
  "flagged, never silently scaled. Gains on a coarser or finer power-of-two cadence apply as repeated or flag-weighted "
  "averaged gains, other cadences are errors, and unapplying a calibration restores the data.",
  ["inputs", "configurations"], "all baseline sets, key orientations, gain/flag sets, conventions and cadences",
  "Tests apply one file's gains to one file's data with one flag pattern.",
  ["hera_cal/apply_cal.py", "hera_cal/utils.py"],
  [("calibrate_in_place", "hera_cal/apply_cal.py"), ("_check_polarization_consistency", "hera_cal/apply_cal.py")],
  "calibration-equation oracle and apply/unapply round trip", SAMPLED + "Up to 5 antennas, 12 baselines.")

P("C11", "Redundant averaging is the weighted mean of each group",
  "Redundantly averaging data gives, for every group with data and every polarization, the weighted mean of its members "
  "(weights given, or nsamples times unflagged, times integration time), flagged exactly where no member contributes (or "
  "as flag propagation asks), with nsamples summed over contributing members. It does so whatever order or orientation the "
  "baselines are stored in, for containers and UVData objects alike, keeps only one baseline per group, and leaves its "
  "inputs alone unless averaging in place.",
  ["inputs", "configurations"], "all arrays, groups, weights, flags, key choices and storage orders",
  "Tests average one file with default arguments.",
  ["hera_cal/utils.py"],
  [("red_average", "hera_cal/utils.py")],
  "direct weighted-sum oracle over generated groups", SAMPLED + "Weights are 0 or at least 1e-3.")

P("C07", "Absolute calibration recovers the gains between data and model",
  "When data differ from a model only by gains an absolute-calibration solver fits (array-wide amplitude, phase gradient, "
  "delay slope, phase between polarizations, or per-antenna amplitude and phase), applying the solver's gains to the data "
  "gives back the model, for any weights and whatever zero-weight or cut edge-channel samples contain. Delay and phase-slope "
  "searches lock on the right peak, each integration is solved on its own, inputs are not changed, and the chained "
  "post-redundant calibration returns gains doing all of this at once.",
  ["inputs", "configurations"], "all arrays, models, gains within each solver's stated wrap limits, weights, polarizations and edge cuts",
  "Tests fit one simulated or recorded file per solver, mostly checking that an output exists.",
  ["hera_cal/abscal.py", "hera_cal/utils.py"],
  [("abs_amp_logcal/lincal, TT_phs_logcal, delay_slope_lincal, global_phase_slope_logcal, complex_phase_abscal, cross_pol_phase_cal, "
    "post_redcal_abscal, AbsCal", "hera_cal/abscal.py"), ("fft_dly, interp_peak", "hera_cal/utils.py")],
  "simulate with known gains, recover, compare calibrated data with the model", SAMPLED + "Delays are judged to the accuracy of the FFT peak interpolation.")

P("C12", "Every way of reading or writing a visibility file agrees",
  "Whatever subset of baselines, polarizations, times or channels is read, in one go, chunk by chunk, from several files or "
  "through the fast reader, each waterfall (data, flags, nsamples and the times, LSTs, frequencies and positions attached) is "
  "exactly the corresponding part of the file, in the orientation asked for. Chunked iteration and division of baselines over "
  "files cover everything exactly once. Updating any slice and writing, at once or by partial writes in any order, changes "
  "exactly that slice in the output, and no existing file is overwritten unless asked.",
  ["inputs", "histories", "configurations"], "all small files, storage orders, selections, update slices and write orders",
  "Tests read a few recorded files with a few selections, all of one ordering.",
  ["hera_cal/io.py"],
  [("HERAData.read/update/partial_write/iterate_over_*", "hera_cal/io.py"), ("read_hera_hdf5, HERADataFastReader", "hera_cal/io.py"),
   ("write_vis, update_vis, partial_time_io, load_flags", "hera_cal/io.py")],
  "differential against the arrays the file was written from", SAMPLED + "Up to 5 antennas, 5 times, 6 channels, 3 files; no baseline-dependent averaging.")

P("C13", "Calibration files give back what was put in them",
  "Gains, flags, qualities and total qualities written to calibration files come back unchanged through every reader, whole or "
  "for any selection of antennas, polarizations, channels and times, from one file or several in any order; only antenna-"
  "polarizations without a solution and zero gains change, into flagged unit gains. Updating any slice changes exactly that "
  "slice, filling in missing channels adds only flagged unit gains, redundant-calibration metadata round-trips, and existing "
  "files are not overwritten unless asked.",
  ["inputs", "histories", "configurations"], "all small calibration sets, selections, update slices and file splits",
  "Tests round-trip two recorded files.",
  ["hera_cal/io.py"],
  [("HERACal, read_hera_calfits, write_cal, update_cal", "hera_cal/io.py"), ("save_redcal_meta/read_redcal_meta", "hera_cal/io.py")],
  "round trip against the source dictionaries", SAMPLED + "Up to 6 antennas, 5 times, 6 channels, 3 files.")

P("C09", "Applying calibration to files follows the calibration equation",
  "The file written by apply_cal holds, for every baseline and polarization of the input, the data multiplied by (old_i old_j*)/"
  "(new_i new_j*) (inverted for the multiply convention) and the OR of the input, gain, band-edge, a-priori and external flags, on "
  "exactly the channels shared by data, spectral window and calibration, with the history and units of its inputs. With redundant "
  "averaging it holds the weighted mean of every redundant group, or of disjoint subgroups, and with a redundant solution the mean "
  "gain ratio of each group is applied. Loading any number of baselines at a time, and either storage orientation, gives the same "
  "result; the input is not changed and an existing output is replaced only if asked.",
  ["inputs", "configurations"], "all small files, bands, orientations, flag sources and load sizes",
  "Tests apply one or two recorded solutions and compare a few settings.",
  ["hera_cal/apply_cal.py", "hera_cal/io.py", "hera_cal/utils.py"],
  [("apply_cal, calibrate_redundant_solution", "hera_cal/apply_cal.py"), ("HERAData.partial_write/iterate_over_bls", "hera_cal/io.py"),
   ("red_average", "hera_cal/utils.py")],
  "differential: output files against the equation on the source arrays", SAMPLED + "Up to 8 antennas, 3 times, 6 channels; uvh5 only.")

P("C10", "Redundant recalibration and SNAP decoherence follow their equations",
  "Recalibrating a redundant solution multiplies each visibility by the mean old/new gain ratio over the unflagged members of its "
  "group, once, and flags only where no member is unflagged. Decoherence correction divides exactly the inter-SNAP visibilities by "
  "(1-p_i)(1-p_j), leaves intra-SNAP ones and flags alone, and refuses (changing nothing) unmeasured loss over unflagged data and "
  "mismatched channels or times. Calibrate-and-average gives the inverse-variance weighted mean of each group with its flags, "
  "effective or plain nsamples and chi-squared as documented. Decoherence files round-trip, and combining them in any order and "
  "any way gives the same result or refuses inconsistent parts.",
  ["inputs", "histories"], "all small arrays, groupings, gain sets, SNAP assignments and file splits",
  "Tests use one simulated array with fixed SNAPs.",
  ["hera_cal/apply_cal.py", "hera_cal/io.py"],
  [("calibrate_redundant_solution, correct_SNAP_decoherence_in_place, calibrate_and_red_avg", "hera_cal/apply_cal.py"), ("SNAPDecoherence", "hera_cal/io.py")],
  "reference model of the documented sums", SAMPLED + "Up to 6 antennas, 4 SNAPs, 3 times, 9 channels, 4 files.")

P("C14", "LST binning puts every integration in its bin, once, with its own data",
  "Whatever the nights, files, bin edges (any branch, crossing 0/2 pi or covering the full circle), band and polarization selections, "
  "baseline chunks, worker count or way of addressing output files and bins, each integration whose LST lies in the grid appears "
  "exactly once, in the one bin holding it, and nothing else appears. Its data are those in the file, calibrated, conjugated to the "
  "requested orientation and phased to the bin centre; flags, nsamples and where-inpainted follow; baselines absent from a file are "
  "flagged with no samples. Single-baseline stacks are rolled to the branch cut, trimmed only of bins without data, and averaged "
  "with nsamples as weights. Configurations written to disk bin identically; inputs of the caller are not changed.",
  ["inputs", "configurations"], "all small sets of nights and files, grids, selections and file options",
  "Tests use mocked nights away from the LST wrap with one grid.",
  ["hera_cal/lst_stack/binning.py", "hera_cal/lst_stack/config.py", "hera_cal/lst_stack/io.py", "hera_cal/utils.py"],
  [("lst_align, lst_bin_files_for_baselines, lst_bin_files_from_config, SingleBaselineStacker", "hera_cal/lst_stack/binning.py"),
   ("LSTBinConfigurator, LSTConfig", "hera_cal/lst_stack/config.py"), ("match_files_to_lst_bins", "hera_cal/utils.py")],
  "differential against the files' own arrays; accounting of every integration", SAMPLED + "Up to 3 nights of 3 files, 5 times, 5 channels, 6 antennas.")

P("C15", "LST-binned statistics and files are the documented reductions of their bins",
  "For every stack of nights the mean is the nsample-weighted mean of the contributing samples, the flag is set exactly where none "
  "contributes, nsamples and days binned count only real (not in-painted, unflagged, finite) samples, and std, median and MAD are "
  "those of their definitions, in flagged and in-painted modes; inputs are not changed. In-painting averages are the weighted mean "
  "of data and model, leave unflagged channels alone, restore a smooth common spectrum across short gaps, treat every band, "
  "baseline and polarization by itself, never count flagged data without a model, flag on each night the spectral windows that a gap "
  "longer than allowed reaches into, and depend neither on values under flags, nor on the order of nights, nor on what a cache was used for. The files lst_bin_files writes hold, for each "
  "bin, baseline and polarization, these reductions of exactly the integrations in that bin, with its LST, uvw, frequencies and kind, "
  "and never replace existing files unasked.",
  ["inputs", "configurations"], "all small stacks with flags, non-finite values and in-painted samples; all small sets of nights and options",
  "Tests use constant or noise-like data on complete nights and compare few statistics in one mode.",
  ["hera_cal/lst_stack/averaging.py", "hera_cal/lst_stack/wrappers.py", "hera_cal/lst_stack/io.py", "hera_cal/io.py"],
  [("reduce_lst_bins, lst_average, average_and_inpaint_simultaneously, average_and_inpaint_per_night", "hera_cal/lst_stack/averaging.py"),
   ("lst_bin_files", "hera_cal/lst_stack/wrappers.py"), ("create_lstbin_output_file", "hera_cal/lst_stack/io.py"), ("uvdata_from_fastuvh5", "hera_cal/io.py")],
  "reference reduction from the definitions; metamorphic relations; read-back of written files", SAMPLED + "Up to 6 nights, 3 baselines, 64 channels.")

P("C18", "Flagging utilities flag exactly the samples their definitions name",
  "For every input: solar flagging flags exactly the integrations with the Sun above the limit, for arrays, DataContainers and UVData in any "
  "blt order, and never un-flags; antenna flags synthesised from visibility flags are set exactly where the fraction of the antenna's "
  "good baselines that is flagged exceeds the threshold (dead antennas entirely); factorised flags contain the "
  "original ones and are the outer sum of the channels flagged in more than the threshold fraction of integrations and of the integrations "
  "with any other flag; minimal slices are the smallest "
  "slices outside of which all is flagged; distances to the nearest non-zero entry and sigma clipping follow their definitions; and unless asked "
  "to work in place nothing changes the caller's arrays.",
  ["inputs", "configurations"], "all small flag arrays, thresholds, spectral windows, sites and dates",
  "Tests use one night, one UVData file and a few hand-made arrays.",
  ["hera_cal/flag_utils.py", "hera_cal/lst_stack/flagging.py"],
  [("solar_flag, synthesize_ant_flags, factorize_flags, get_minimal_slices, distance_to_nearest_nonzero", "hera_cal/flag_utils.py"),
   ("threshold_flags, sigma_clip", "hera_cal/lst_stack/flagging.py")],
  "reference definitions, independent solar ephemeris, invariants", SAMPLED + "Up to 5 antennas, arrays up to about 12 x 12.")

P("C20", "Smoothing keeps smooth gains, ignores flagged ones, and writes what it made",
  "For every set of calibration files and options: gains that are smooth on the requested scales come out of every 2D and 1D filter "
  "unchanged (interpolated under flags and free of phase flips where these are rectified), values with zero weight never influence the result, "
  "and samples outside the fitted region keep their values; the rolling time average is the weighted Gaussian average over mirrored data; "
  "each antenna is smoothed as if alone, with black-listed times, LSTs, channels and samples given exactly the weight asked for, and detected phase flips flagged as asked; "
  "flags are broadcast over times, channels and antennas exactly according to the thresholds given; the reference antenna is unflagged, not "
  "black-listed, and has zero phase afterwards; and written files hold for each antenna and time of each input file the smoothed "
  "gain, flag and metadata, whatever the order, gaps or antennas of the files.",
  ["inputs", "configurations"], "all small calfits sets, flag patterns, options and smooth gain models",
  "Tests smooth a single real data set and check a few array shapes and tolerances.",
  ["hera_cal/smooth_cal.py"],
  [("CalibrationSmoother", "hera_cal/smooth_cal.py"), ("time_filter, time_freq_2D_filter, filter_1d, flag_threshold_and_broadcast, rephase_to_refant, pick_reference_antenna, solve_2D_DPSS", "hera_cal/smooth_cal.py")],
  "known smooth truth, reference definitions, metamorphic relations, read-back of files", SAMPLED + "Up to 3 files, 5 antennas, about 20 times and 64 channels.")

P("C22", "Times, sidereal times and phase centres convert consistently",
  "For every site, date and calling form (scalar, list, array): JD2LST is the local apparent sidereal time in [0, 2 pi), increases by a turn per sidereal "
  "day and by the difference in longitude; LST2JD is its inverse to a millisecond, on the requested day, or from the day's branch cut onwards when other days are "
  "allowed; JD2RA and get_sun_alt agree with it. lst_rephase multiplies each integration and baseline by the phase a source at zenith acquires as the sky "
  "turns by dlst, the same in place or copied, for containers, dictionaries and arrays of any of its layouts, and for reversed baselines; coherent averaging uses the "
  "same rotation. The best branch cut makes the LSTs not below it plus those below it a turn later span the least range. Inputs are not changed unless asked.",
  ["inputs", "configurations"], "all sites, dates, LSTs, branch cuts, baselines, frequencies and rotations",
  "Tests use one site and a handful of dates, and compare rephasing loosely with real data.",
  ["hera_cal/utils.py"],
  [("JD2LST, LST2JD, JD2RA, get_sun_alt, lst_rephase, eq2top_m, top2eq_m, compute_dtau, get_phase_factor, get_best_lst_branch_cut", "hera_cal/utils.py")],
  "closed formulae, round trips and metamorphic relations", SAMPLED)

P("C29", "Keys follow one algebra, and key selections keep exactly what they say",
  "For every baseline and polarization, in any letter case and basis: complying, splitting, joining and reversing keys are mutually inverse and consistent (the antennas "
  "of a reversed baseline are the antennas of the baseline reversed). filter_bls keeps, in order, exactly the baselines with both antennas kept, none excluded, a listed "
  "polarization and a length within the cuts. Chunks of redundant groups contain every baseline once, never split a group, exceed the size only "
  "for a single too large group, and leave the caller's groups alone. Modified z-scores and relative gain differences are those of their definitions "
  "per polarization, ignoring nans and flagged gains.",
  ["inputs"], "all baselines, polarizations and letter cases; all small lists of baselines, groups, metrics and gains",
  "Tests use a few hand-made keys and lists.",
  ["hera_cal/utils.py"],
  [("comply_pol, split_pol, join_pol, split_bl, join_bl, reverse_bl, make_bl, filter_bls, chunk_baselines_by_redundant_groups, per_antenna_modified_z_scores, gain_relative_difference", "hera_cal/utils.py")],
  "reference definitions and round trips", SAMPLED)

P("C27", "File tools write exactly the selected, joined or flagged content of their inputs",
  "For every uvh5 or calfits input, whatever its antenna numbers, baseline orientation, blt and polarization order: extracting (and calibrating) autocorrelations, "
  "noise files, chunking files in time, rebuilding time chunks from baseline chunks, throwing away flagged antennas or baselines, selecting channels, "
  "subselect by frequency, time, LST, polarization, antenna, baseline or length, extract_hh, flag_all, transfer_flags and the product of calfits files "
  "write, for each baseline, polarization, time and channel they should keep (and no other), the data, flags and nsamples of that very sample, changed "
  "only as documented, and never replace an existing file unasked.",
  ["inputs", "configurations"], "all small files, orders and options",
  "Tests run each tool on one or two real files with a single order and check shapes or a few arrays; most scripts are not run at all.",
  ["hera_cal/autos.py", "hera_cal/noise.py", "hera_cal/chunker.py", "hera_cal/io.py", "hera_cal/utils.py", "hera_cal/vis_clean.py", "scripts"],
  [("read_and_write_autocorrelations", "hera_cal/autos.py"), ("write_per_antenna_noise_std_from_autos", "hera_cal/noise.py"), ("chunk_files", "hera_cal/chunker.py"),
   ("throw_away_flagged_ants", "hera_cal/io.py"), ("combine_calfits, select_spw_ranges", "hera_cal/utils.py"), ("time_chunk_from_baseline_chunks", "hera_cal/vis_clean.py"),
   ("main program", "scripts/subselect.py"), ("main program", "scripts/transfer_flags.py"), ("main program", "scripts/flag_all.py"), ("main program", "scripts/extract_hh.py")],
  "read-back of written files with pyuvdata alone against the arrays the inputs were made from", SAMPLED + "Up to 5 antennas, 8 times, 9 channels.")

P("C26", "Predicted noise follows the radiometer equation; auto-based gains their model",
  "The noise variance predicted for a visibility is the product of the two antennas' autocorrelations (of the polarizations its feeds observe) over integration time, channel width and nsamples; integration times are "
  "inferred correctly for every baseline of baseline-dependent averaged data; differencing estimates equal the normalized squared convolution and vanish for constant data; Gaussian-process interpolation equals the closed "
  "formula on the unflagged samples and never depends on what lies under a flag; gains from autocorrelations are the square root of data over that smooth model (1 where no model exists), and averaging or normalizing gains "
  "changes exactly the antennas asked for, in place only on request.",
  ["inputs", "configurations"], "all small waterfalls, flags and options",
  "Tests compare with two real files and one smooth test series without values hidden under flags.",
  ["hera_cal/noise.py", "hera_cal/tempcal.py", "hera_cal/utils.py"],
  [("predict_noise_variance_from_autos, infer_dt, interleaved_noise_variance_estimate, per_antenna_noise_std", "hera_cal/noise.py"), ("gains_from_autos, avg_gain_ants, normalize_tempgains", "hera_cal/tempcal.py"), ("gp_interp1d", "hera_cal/utils.py")],
  "independent closed formulas on generated arrays", SAMPLED + "Up to 4 antennas, 16 times, 9 channels.")

P("C21", "Time averaging and fringe-rate filtering act on each baseline as defined",
  "A time average is, per window, the flag- and (as asked) nsample-weighted mean of the samples, rephased to the window's mean LST on request, with flags only where all samples are flagged, summed unflagged nsamples, and mean times and LSTs (also across 24 h), "
  "for arrays, for any sequence of timeavg_data calls on one object and for interleaved averages written to files; FIR filters are exact convolutions and invert; sky fringe-rate limits enclose exactly the fringe rates of the visible sky, reversing sign "
  "with the baseline; tophat filters split each baseline's data, in files as in memory and in any chunking or interleaving, into the weighted least-squares model inside its band and the residual, without altering the data; "
  "the noise operator, covariance and correction factor are those of that filter and average.",
  ["inputs", "histories", "configurations"], "all small waterfalls, flags, windows, LSTs, call sequences, chunkings and options",
  "Tests average one real file with one window away from the LST wrap and check shapes or single numbers for most functions.",
  ["hera_cal/frf.py", "hera_cal/vis_clean.py"],
  [("timeavg_waterfall, FRFilter.timeavg_data, time_avg_data_and_write", "hera_cal/frf.py"), ("apply_fir, frp_to_fir, fr_tavg", "hera_cal/frf.py"), ("sky_frates, select_tophat_frates", "hera_cal/frf.py"),
   ("FRFilter.tophat_frfilter, load_tophat_frfilter_and_write", "hera_cal/frf.py"), ("get_frop_for_noise, get_FRF_cov, get_correction_factor_from_cov, get_coherent_avg_design_matrix", "hera_cal/frf.py"), ("VisClean.fourier_filter", "hera_cal/vis_clean.py")],
  "independent averages, convolutions, brute-force sky and least squares on generated arrays, histories and files", SAMPLED + "Up to 4 baselines, 60 times, 7 channels.")
P("C19", "Delay and 2D filtering treat every row, sub-band and file as filtered alone",
  "For any flags, weights, sub-bands, zero padding, discontinuous axes, skipping options and order of calls, fourier_filter, vis_clean, run_delay_filter and load_delay_filter_and_write return for each baseline and row what filtering that row alone (in its own sub-band, with the "
  "widths its baseline length implies) gives: model, residual = (data - model) where unflagged, filled data equal to data where unflagged and the model elsewhere, flags exactly on rows or samples skipped by the documented rules; trimmed edges and padding are restored in place; "
  "Fourier transforms are the explicit sums with the window over unflagged data; trimmed models keep exactly the modes above the noise threshold; calibration and external flags enter as asked; written files hold these results for exactly the requested baselines and polarizations, partial I/O or not.",
  ["inputs", "histories", "configurations"], "all small waterfalls, flags, spectral windows, baselines, options and call sequences",
  "Tests filter one or two real files with a few fixed flag patterns and mostly check that something is finite or flagged.",
  ["hera_cal/vis_clean.py", "hera_cal/delay_filter.py"],
  [("VisClean.fourier_filter, vis_clean, fft_data, apply_flags, apply_calibration, write_filtered_data", "hera_cal/vis_clean.py"), ("truncate_flagged_edges, restore_flagged_edges, zeropad_array, flag_rows_with_*", "hera_cal/vis_clean.py"),
   ("fft_data, trim_model, noise_eq_bandwidth", "hera_cal/vis_clean.py"), ("DelayFilter.run_delay_filter, load_delay_filter_and_write", "hera_cal/delay_filter.py")],
  "row-by-row differential filtering, brute-force edge handling, explicit Fourier sums, read-back of files", SAMPLED + "Up to 4 baselines, 9 times, 20 channels.")
P("C30", "Models are matched to data, and calibrating files against them makes data agree",
  "match_baselines pairs every data baseline with exactly the model baseline of the same antennas or (redundant models) the same separation and polarization, naming it in the data's orientation, within the requested cuts; data times map to the nearest model LST across 24 h or to none beyond the limit; "
  "exactly the model files overlapping the data in LST are selected; interpolation, rephasing, mirroring, redundant averaging and weights follow their definitions and leave inputs alone; post_redcal_abscal_run, multiply_gains and run_model_based_calibration write gains, keyed by antenna and polarization, "
  "such that the calibrated data equal the matched and rephased model wherever unflagged, flagging exactly redcal flags, fully flagged model samples, unmatched times and the reference antenna's flags, whatever the file split, load size, antenna numbering or baseline orientation.",
  ["inputs", "configurations"], "all small arrays, baseline sets, orientations, LST grids, file splits and options",
  "Tests use one data/model pair with the same baseline order and orientation, and check few matched values.",
  ["hera_cal/abscal.py", "hera_cal/io.py"],
  [("match_baselines, get_d2m_time_map, match_times, get_all_times_and_lsts, build_data_wgts", "hera_cal/abscal.py"), ("interp2d_vis, rephase_vis, match_red_baselines, mirror_data_to_red_bls, avg_data_across_red_bls, cut_bls", "hera_cal/abscal.py"),
   ("post_redcal_abscal_run, multiply_gains, run_model_based_calibration", "hera_cal/abscal.py")],
  "brute-force matching, reference definitions, simulated files with known gains", SAMPLED + "Up to 12 antennas, 4 times, 40 channels, 7 model files.")
P("C17", "Calibrating an LST stack makes every night agree with the model",
  "For any stack of nights that are a model times an amplitude, a tip-tilt and a phase between feeds per night and channel, lstbin_absolute_calibration removes exactly the modes asked for, so that every unflagged sample (in-painted ones counted only if asked) equals the model, autocorrelations included, "
  "whatever lies under flags, whichever nights, channels, baselines, polarizations or samples are flagged, and whatever the other nights hold; parameters have the documented shapes and are neutral where everything is flagged, gains are given for every antenna and feed, smoothing keeps smooth gains band by band, "
  "and data change only if calibration in place is asked for. Solution files give back all parameters, flags, positions and axes unchanged, and the gains built from them are amplitude x tip-tilt x cross-polarization phase for exactly the times in the LST range, across 24 h.",
  ["inputs", "configurations"], "all small arrays, stacks, flag patterns and mode selections; all small solution files and LST windows",
  "Tests check that scatter between nights shrinks, for one 1D array, one kind of flag at a time, and never amplitude, tip-tilt and cross-polarization phase together.",
  ["hera_cal/lst_stack/calibration.py", "hera_cal/abscal.py"],
  [("lstbin_absolute_calibration, _expand_degeneracies_to_ant_gains", "hera_cal/lst_stack/calibration.py"), ("write_single_baseline_lstcal_solutions, load_single_baseline_lstcal_solutions, load_single_baseline_lstcal_gains", "hera_cal/lst_stack/calibration.py")],
  "simulated stacks with known degenerate gains, night-by-night differential, round trip and closed form", SAMPLED + "Up to 8 antennas, 3 nights, 40 channels.")
P("C16", "LST-binning configurations describe exactly the requested grid and files",
  "make_lst_grid gives contiguous bins whose width is the closest divisor of 2 pi at or above the one asked for, starting with the bin that holds begin_lst (also when it is an edge, on any branch) and as many as fit the width; an LSTBinConfigurator built directly, from a dict, a TOML string or a file holds the same files, nights and "
  "documented defaults and leaves its input alone; its output files partition the grid, every file with an integration in an output file is matched to it, and the LSTConfig made of them lists each observed baseline once (by redundant group if averaged), the polarizations, and the calibration and in-paint files named by the rules, "
  "survives write and from_file, and addressed by index or by an LST on any branch yields exactly the files and integrations inside that output file or bin (an error if there is none); single-baseline configurations map each baseline, in either orientation, to one file per night and each file to its own night's calibration.",
  ["inputs", "configurations"], "all grids, small sets of nights and files, file trees, options and ways of building or addressing a configuration",
  "Tests use one grid start, files that never cross LST 0, complete nights and few addresses.",
  ["hera_cal/lst_stack/config.py", "hera_cal/lst_stack/io.py", "hera_cal/utils.py"],
  [("make_lst_grid, _fix_dlst, get_all_antpairs", "hera_cal/lst_stack/config.py"), ("LSTBinConfigurator, LSTConfig, LSTConfigSingle, LSTBinConfiguratorSingleBaseline", "hera_cal/lst_stack/config.py"),
   ("apply_filename_rules, filter_required_files_by_times", "hera_cal/lst_stack/io.py"), ("match_files_to_lst_bins", "hera_cal/utils.py")],
  "closed-form grids, brute force over the files' LSTs, baselines and names, round trips", SAMPLED + "Up to 4 nights of 4 files, 6 antennas, 40000 bins.")
P("C23", "Reflection fits recover the reflection in the data and files hold those fits",
  "For any autocorrelations that are a smooth signal times |1 + A exp(2 pi i tau nu + i phi)|^2 with the reflection inside the delay range, model_auto_reflections recovers A, tau and phi per antenna, feed and time (of the conjugate for negative ranges), whatever the data's scale, the other times and what lies under flags, with gains exactly 1 + eps of the "
  "stored parameters; times without data, insignificant peaks and amplitudes above 1 give a unit gain and a flag, antennas not fitted a unit gain; input data never change. Refinement never raises the residual in the delay range, keeps fixed parameters and skips times flagged beyond skip_frac. SVD weights, modes, projections, models and residuals are the truncated "
  "decomposition of the data handed over, under any order of overwriting and incrementing. write_auto_reflections and auto_reflection_run write exactly those gains, flags and parameters (per delay range, or their product), merged with an input calibration, for the selected antennas and polarizations.",
  ["inputs", "histories", "configurations"], "all simulated reflections, flag patterns, delay ranges, options and orders of the modelling calls",
  "Tests fit one reflection in one data set with no flagged times, one delay range and no input calibration of another length.",
  ["hera_cal/reflections.py"],
  [("ReflectionFitter.model_auto_reflections, fit_reflection_params, fit_reflection_delay, fit_reflection_phase", "hera_cal/reflections.py"), ("refine_auto_reflections, reflection_param_minimization", "hera_cal/reflections.py"),
   ("svd_weights, sv_decomp, project_svd_modes, build_pc_model, subtract_model", "hera_cal/reflections.py"), ("write_auto_reflections, auto_reflection_run", "hera_cal/reflections.py")],
  "simulated reflections with known parameters, explicit Fourier metric, numpy SVD model over histories, read-back of files", SAMPLED + "Up to 3 antennas, 4 times, 140 channels.")
P("C24", "Sky-model calibration recovers gains and SNAP losses, whatever is flagged",
  "For any data, model (per baseline or per redundant group, either orientation), flags and weights, data/model ratios and weights are V M*/|M|^2 and |M|^2/sigma^2, NaN and 0 exactly where flagged or without a model; firstcal finds each antenna's delay and offset up to their mean, per time, with 0 for antennas without data, "
  "blind to amplitudes; refinement finds the chi^2 minimum per channel and time and polarization from the weighted baselines between SNAPs only, NaN exactly where a channel is unusable, or raises a documented error; sky_calibrate of noiseless data (also full-Stokes) makes calibrated cross-correlations equal the model with gains g0 * refined, |g0| taken from the autos alone, "
  "so that losses on cross-correlations land in the refined gains; spectators get the closed-form solution over the baselines usable in each cell, with their own chi^2, and change nothing else; estimate_SNAP_decoherence recovers the loss per SNAP, time and block relative to the cleanest of its band, 0 where there is none and NaN without data, independently of other SNAPs. Input is never changed.",
  ["inputs", "configurations"], "all simulated gains, delays, losses, flag patterns, orientations, SNAP maps and options",
  "Tests use one simulated array with a few hand-set flags and losses, no full-Stokes data, autos in the same container and wide bands.",
  ["hera_cal/skycal.py", "hera_cal/noise.py"],
  [("build_data_model_ratio, model_based_firstcal, firstcal_gains, calibrate_abs_amp_from_autos", "hera_cal/skycal.py"), ("refine_gains, log_gain_inverse_variance, sky_calibrate, expand_sky_gains", "hera_cal/skycal.py"),
   ("estimate_SNAP_decoherence", "hera_cal/skycal.py"), ("predict_noise_variance_from_autos", "hera_cal/noise.py")],
  "simulation with known gains and losses, direct chi^2 gradient, closed forms", SAMPLED + "Up to 8 antennas, 3 times, 128 channels (192 for losses).")
P("C25", "Spectrally redundant calibration groups, fits and calibrates consistently",
  "For any antenna layout and redundant groups in any order and direction, radial groups are exactly the sets of unique baselines of one heading (within the tolerance, as a distance of unit vectors) and polarization, all pointing the same way, and after any history of filtering, adding, appending, replacing and sorting, RadialRedundancy holds, finds (by any redundant baseline in either direction) and measures exactly the groups left, "
  "refusing clashing or mixed ones unchanged. Spatial filters depend on u alone within a group and vanish outside the u bounds; foreground fits are the weighted least-squares solution per time (or shared) for every solver, ignore data without weight, and the model of every redundant baseline is their evaluation; nucal weights are nsamples over the noise variance with 0 exactly in the flags and u, frequency and band cuts. "
  "The gains and model post_redcal_nucal returns reproduce the loss it minimised (g_i g_j* times the model against the data), for all options, with unchanged data, and a reused calibrator gives what a new one gives.",
  ["inputs", "histories", "configurations"], "all layouts, redundant groups, call histories, weights, filters, options and optimizers",
  "Tests use east-west lines and one hexagon, groups in the order of get_reds, amplitude errors only, one calibration per object.",
  ["hera_cal/nucal.py", "hera_cal/abscal.py"],
  [("is_same_orientation, is_frequency_redundant, get_u_bounds, get_unique_orientations", "hera_cal/nucal.py"), ("RadialRedundancy", "hera_cal/nucal.py"),
   ("compute_spectral_filters, compute_spatial_filters, fit_nucal_foreground_model, evaluate_foreground_model, build_nucal_wgts", "hera_cal/nucal.py"), ("SpectrallyRedundantCalibrator.post_redcal_nucal", "hera_cal/nucal.py")],
  "integer lattice headings, set model of histories, direct least squares, loss recomputed from the returned gains and model", SAMPLED + "Up to 7 antennas, 40 channels, 7 operations, 4 iterations.")
P("C28", "Nightly variances, Z-scores and their distributions follow their definitions",
  "For any LST stack with any flags, inpainted samples, nsamples, non-finite data and polarizations, the predicted nightly variance is the product of the two antennas' parallel-hand autos over dt df n, infinite exactly where flagged (or, if asked, inpainted), the same per baseline and for the whole stack; squared Z-scores are 2 M/(M-n) |V - centre|^2 over that variance (or over the nightly spread per sample), "
  "NaN in the vectorised form exactly where undefined, and both forms agree; selections by pair, polarization (one or several, in the asked order), band, night, callables and flags return exactly the selected values, masked exactly where flagged, non-finite or not selected; reductions act over exactly the named axes; minimum-day selections keep exactly the baselines they name, however often they are repeated. "
  "Predicted distributions of Z^2, its means and the excess variance are the stated scaled chi-squared laws, mixtures weight them by how often each count occurs, and samples follow the law and the seed. Inputs are never changed.",
  ["inputs", "histories", "configurations"], "all stacks, flag and inpainting patterns, selections, axes, counts",
  "Tests compare averages over one noise realisation with nsamples 1 and two parallel polarizations, and check the shapes of selections only.",
  ["hera_cal/lst_stack/metrics.py", "hera_cal/lst_stack/stats.py"],
  [("get_nightly_predicted_variance, get_nightly_predicted_variance_stack", "hera_cal/lst_stack/metrics.py"), ("get_squared_zscores, get_squared_zscores_flagged", "hera_cal/lst_stack/metrics.py"),
   ("downselect_zscores, get_compressed_zscores, get_selected_bls, reduce_stack_over_axis", "hera_cal/lst_stack/metrics.py"), ("zsquare, mean_zsquare_*, excess_variance*, MixtureModel", "hera_cal/lst_stack/stats.py")],
  "elementwise reference formulas, selection model over index sets, chi-squared laws and Kolmogorov-Smirnov distance of samples", SAMPLED + "Up to 6 nights, 6 baselines, 7 channels.")
