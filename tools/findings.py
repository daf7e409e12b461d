FIXED = {  # substring of the fix commit's subject -> properties
 "deletes reversed keys": "C01",
 "floor division": "C01,C02",
 "time/freq selection": "C02", "unsorted axes": "C02",
 "deinterleave": "C02",
 "lookup maps": "C03", "RedundantGroups keeps": "C03", "RedDataContainer finds": "C03", "keyed_on_bls": "C03",
 "calibrate_in_place": "C05",
 "fast reader": "C07", "write_vis writes": "C07", "write_vis leaves": "C09", "HERACal.update": "C08", "HERACal.write": "C08", "combine_calfits checks": "C09", "combine_calfits treats": "C08",
 "apply_cal averages": "C06", "apply_cal selects": "C06", "apply_cal writes": "C06", "apply_cal loads": "C06", "iterating over several": "C06", "delay filtering in chunks": "C06", "delta gains file": "C09", "filter cache files": "C10",
 "jobs agree on the baseline division": "C11", "chunk_baselines_by_redundant_groups": "C11",
 "red_average": "C13", "chisq split": "C16",
 "get_lst_bins keeps": "C17", "lst_bin_files_for_baselines": "C17", "lst_average counts": "C18",
 "LSTBinConfigurator accepts": "C19", "LSTConfig keeps": "C19", "filter_required_files": "C19", "LSTConfig finds": "C19", "LSTConfig can be": "C19", "output files with empty": "C19",
 "files without autos": "C19", "match_files_to_lst_bins": "C19", "uvdata_from_fastuvh5": "C19",
 "pick_reference_antenna compares": "C20", "CalibrationSmoother blacklists": "C20", "write_smoothed_cal writes": "C20", "DPSS smoothing": "C20",
 "truncate_flagged_edges keeps": "C22", "flag_rows_with_contiguous_flags counts": "C22", "zeropad_array unpads": "C22", "zeropad_array pads": "C22", "fully flagged baselines can be filtered": "C22", "flags the trimmed edges": "C22", "mark the integrations": "C22", "flag skipped channels": "C22",
 "time_avg_data_and_write equalizes": "C21", "timeavg_data keeps": "C21",
 "LST2JD accepts": "C23",
 "redcal_iteration calibrates": "C14", "redcal_run does not judge": "C14", "redcal_run only records": "C14", "redcal_iteration reads": "C14",
 "omnical can check": "C15", "omnical leaves the starting": "C15", "omnical returns the solution": "C15", "calibrate_bl leaves": "C15", "extend_gains gives": "C15", "expand_omni_vis and": "C15", "remove_degen updates": "C15", "extend_gains uses": "C15", "filter_reds finds baselines given": "C04", "filter_reds finds cross-polarized": "C04",
 "keeps times and LSTs of unordered": "C24", "does not unwrap the LSTs": "C24", "match_baselines keeps data": "C24", "get_d2m_time_map takes": "C24",
 "phase solvers give no weight": "C26", "delay_lincal ignores": "C26", "fft_dly edge_cut": "C26", "AbsCal four_pol": "C26", "solar_flag only flags": "C12",
 "expand_sky_gains ignores": "C27", "cross-polarized visibilities replace": "C27", "bands shorter than its lag": "C27",
 "returns tip-tilts of shape": "C28", "completely flagged polarization": "C28", "tip-tilt calibration of LST stacks": "C28", "smooth gains over inpainted": "C28", "amplitudes and cross-polarization phases after": "C28", "starts from the objective": "C26",
 "get_nightly_predicted_variance uses": "C29", "get_squared_zscores counts": "C29", "get_selected_bls does not": "C29", "downselect_zscores selects": "C29",
 "flag_threshold_and_broadcast applies": "C12", "CalibrationSmoother uses its ant_threshold": "C20",
}
KNOWN = [  # dict(property=, key=, what=)
]
