"""Hand-written parts of DESIGN.md: per property, where the check had to be corrected and what it does not judge."""
NOTES = {
 "C04": ["firstcal may settle on a flipped solution by a heuristic, which is not judged; antennas whose baselines all have zero weight are unconstrained; chains of solvers are compared only when the number of degeneracies is the same."],
 "C07": ["phs_logcal fixes the phases of both reference antennas, so 4-pol truths respect that; ndim_fft is judged only for regular coordinate grids; interp_peak has a wider tolerance for short transforms; partial zero weights are not generated in chained solves."],
 "C09": ["The cross-polarized autocorrelation is one entry for en and ne, so flags and nsamples are shared; the external flag file covers the loaded band; the 'yaml' exclusion mode with antennas lacking gains is not generated."],
 "C12": ["HERAData keeps the given file order (only the fast reader sorts); the reversed key of a cross-polarized auto is the other polarization."],
 "C14": ["lst_rephase is exact for a source at zenith at the observation's LST; files named by first integration plus half an integration; antpairs_from_last_file_each_night reads first and last file only, as documented; ambiguous redundancies, LSTs within 2e-6 rad of a bin edge, unequal file lengths inside a night are not generated."],
 "C15": ["Flags of the inpainted average follow data.mask; the std in inpainted mode uses originally unflagged data; scaling and permutation relations are not judged with a night-to-night covariance."],
 "C18": ["Times with the Sun within 0.05 degrees of the horizon and sigma clipping at zero scale are not judged."],
 "C19": ["hera_filters cannot filter single samples or with no DPSS mode, and ill-posed DPSS fits (condition number above 1e6) have no defined answer: such rows are not judged. Partial I/O of several files is documented as not implemented. Calibrated cross-polarized autos are not judged."],
 "C20": ["Phase flips affect only a minority of the times, because the initial delay comes from the time average; DPSS recovery is judged to 0.6 %, CLEAN to a few per cent."],
 "C21": ["Ill-conditioned fits, samples at zero weight (hera_filters returns a zero residual there) and the model of pre-filtered lobes are not judged."],
 "C22": ["Days around leap seconds are not judged; the coherent-average phase factor is for the opposite baseline orientation."],
 "C26": ["times_by_bl holds both orientations; gains from autos are not judged where the smooth model is not clearly positive."],
 "C27": ["chunk_files sorts by path, so inputs share one scratch directory."],
 "C29": ["Uninitialised memory is not reproducible at small sizes, so the check requires zeros where the gain is zero."],
}
NOTFIXED = [
 "DataContainer floor division of ordered dicts, `dc[pol]` on uneven containers, deinterleave's times_by_bl",
 "RedDataContainer.__setitem__ shares the groups of its source; filter_reds treats an empty antenna list as None; max_dims=0",
 "firstcal's flip heuristic; bl_taper_fwhm is used as a sigma; chi^2 is computed after lincal in post_redcal_abscal_run",
 "ndim_fft grids irregular coordinates; factorize_flags extends flagged integrations over the whole band",
 "calibrate_redundant_solution adds missing antennas to the caller's gain dictionaries; write_vis ignores kwargs",
 "frf skip_autos leaves resid=data, model=0; construct_filter counts one mode too few; timeavg flags are an AND although the docstring says OR (tests require AND)",
]
NOTES["C30"] = ["Cross-polarized keys are generated in one orientation per antenna pair (otherwise en and ne name the same measurement); get_reds-based helpers are not judged when only one cross polarization is present; chi-squared of post_redcal_abscal_run is not judged (left stale by design after lincal)."]
NOTES["C17"] = ["Baselines left by flags must generate the antenna lattice (otherwise the tip-tilt is ambiguous, by sign flips or not at all), and model amplitudes stay within a factor of 1.6 because the phase solver starts from a coarse grid; where one feed is flagged, the phase between feeds is not judged after smoothing."]
NOTFIXED.append("lstbin_absolute_calibration calls the feed phase 'delta' and its tip-tilts have the opposite sign of what load_single_baseline_lstcal_gains expects of 'cross_pol' and 'T' (both conventions are pinned by tests)")
NOTES["C16"] = ["Matched files are documented as conservative, so additional files are allowed and the order within a night is not judged; create_config with no matching file at all is not judged."]
NOTFIXED.append("apply_filename_rules swaps the documented meaning of 'ignore' (gives None) and 'replace' (keeps the name); pinned by tests")
NOTES["C23"] = ["interp_u (Gaussian-process interpolation of time modes) is not judged; frequency thinning is only generated where the delays stay below 0.8 of its Nyquist limit (a coarser one aliases by construction)."]
NOTES["C24"] = ["Offsets of firstcal are judged only where the phases left after the delays span less than pi (they wrap otherwise, which the refinement repairs); losses are judged against the truth in bands of 5 and more blocks with fewer than a third of them suppressed and none adjacent (other staircases are nearly degenerate with the smooth component)."]
NOTES["C25"] = ["Convergence of the gradient descent is not judged, only that what is returned is what was optimised. Cross-polarized radial groups are only judged as groups (gains are per feed). Groups entirely outside given u bounds are not generated (the PSWF library refuses them). estimate_degeneracies zeroes the weights of cells with a zero model in place, as all abscal solvers do; such cells are not generated."]
NOTES["C28"] = ["Z-scores of inpainted or flagged samples are only judged in the vectorised form (NaN); mixtures with counts of 1 are not generated (their mean Z^2 is identically 0 and the law degenerate)."]
