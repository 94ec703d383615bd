#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is generated by this script)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe, "hook_needed": None}})
C = "cloudnetpy/"

prop("C01", "Radar averaging uses exactly the raw samples of each bin and invents nothing",
 "Every averaged radar value in a categorize file is the documented statistic of exactly the valid raw samples that fall in that 30 s bin and range gate: linear-unit mean for reflectivity and LDR, plain mean for spectral width and rainfall rate, population standard deviation for velocity variability, and a folding-aware circular mean (a plain mean if the input says it is dealiased) scaled by the largest folding velocity of the bin for Doppler velocity. A pixel with no valid raw sample stays missing, and a pixel that lacks reflectivity, velocity or (when measured) width is missing in all averaged radar fields. No sample contributes to a neighbouring bin or gate, is used twice or is lost. Besides incomplete pixels only documented artefacts are removed: for RPG and BASTA radars values without a value at the same gate in the profile before or after and upward first-gate velocities above 4 m/s; in records of at least 300 profiles, of a profile or gate that holds far more values than its neighbours (a stripe), the velocity and LDR values that are missing in the nearest ordinary profile or gate on both sides.",
 ["inputs", "configurations"], "all radar files: any sampling interval, gaps, per-pixel masks, chirp tables, folding velocities, presence or absence of LDR/SLDR/width/rain rate, with or without dealiasing flags",
 "Unit tests check rebin_2d on a few tiny arrays and one fixed radar fixture; nothing compares a whole file against an independent per-bin recomputation over varied samplings, gaps, chirps and masks.",
 [C+"categorize/radar.py", C+"utils.py", C+"cloudnetarray.py"],
 [("Radar.rebin_to_grid / _rebin_velocity", C+"categorize/radar.py"), ("rebin_2d, rebin_1d, binvec", C+"utils.py")],
 ["variables Z (minus the attenuation columns), v, v_sigma, width, ldr, sldr, nyquist_velocity, rainfall_rate of the categorize file"])

prop("C02", "Lidar, LWP, disdrometer and model values are matched to the grid within limits",
 "In a categorize file each attenuated backscatter value is the value of the lidar sample nearest in time and in height, ignoring completely empty lidar profiles, and is missing when that sample is missing, when the nearest lidar profile or gate is more than one minute or 100 m away, or outside the time and height span of the non-empty lidar data. LWP and disdrometer rain rate are the linear interpolation between the two valid samples that bracket the time (held constant beyond the first and last sample), with LWP samples carrying a nonzero quality flag left out, and are missing when no valid sample lies within 2 min (LWP) or 1 min (disdrometer). Temperature, pressure and humidity used on the grid are the model values interpolated linearly in time and height above the model surface altitude, and never come from a missing model profile. The particle count and present-weather code used for rain detection are matched like the rain rate and by nearest sample. A model file with fewer than two usable profiles is refused, and a temperature offset asked for is added to the wet-bulb temperature and stated in its attributes.",
 ["inputs", "configurations"], "all lidar, microwave radiometer, disdrometer and model files, with any sampling, gaps, masks, quality flags, units (m/km, s/h) and height grids",
 "Tests feed one fixed fixture per instrument and assert shapes or single values; gap handling and nearest-neighbour ties are never compared with an independent implementation over varied grids.",
 [C+"categorize/lidar.py", C+"categorize/mwr.py", C+"categorize/disdrometer.py", C+"categorize/model.py", C+"utils.py", C+"datasource.py"],
 [("Lidar.interpolate_to_grid", C+"categorize/lidar.py"), ("Mwr.interpolate_to_grid", C+"categorize/mwr.py"), ("Disdrometer.interpolate_to_grid", C+"categorize/disdrometer.py"), ("Model.interpolate_to_common_height / interpolate_to_grid", C+"categorize/model.py"), ("interpolate_1d, interpolate_2d_nearest, interpolate_2d_mask, get_gap_ind", C+"utils.py")],
 ["variables beta, lwp, lwp_error, rainfall_rate, Tw, temperature, pressure, q of the categorize file"])

prop("C03", "Categorize time axis contains exactly the bins where all sources have data",
 "The time axis of a categorize file consists of exactly the 30 s bin centres for which the radar has at least one profile in the bin, the lidar has a non-empty profile within one minute and the model has data; every time-dependent variable has one row per such bin and refers to that bin, and the position of the site is that of the nearest radar timestamp. If fewer than two such bins exist the run fails with the dedicated no-valid-timestamps error and no output file appears. The height axis is exactly the radar height grid and the axes are strictly increasing.",
 ["inputs"], "all combinations of gaps in the three sources, including disjoint and single-bin overlaps and moving platforms",
 "The fixtures used by the tests have one fixed overlap pattern; alignment between sources after dropping bins is never recomputed independently.",
 [C+"categorize/categorize.py", C+"categorize/radar.py", C+"utils.py"],
 [("_interpolate_to_cloudnet_grid, _screen_bad_time_indices", C+"categorize/categorize.py"), ("Radar.add_location", C+"categorize/radar.py"), ("time_grid", C+"utils.py")],
 ["dimensions and coordinate variables of the categorize file", "exception type raised"])

prop("C04", "Attenuation corrections match their physics and Z carries exactly their sum",
 "The reflectivity in a categorize file equals the averaged measured reflectivity plus the stored gas, liquid, rain and melting-layer attenuation, a missing correction counting as zero. Each two-way correction is non-negative and non-decreasing with height, starts at the ground, and follows its stated inputs: gas from model state (saturated where droplets are present), liquid from the column LWP distributed adiabatically over the droplet layers, rain from the disdrometer rain rate over the warm part of rainy profiles, melting layer from the published power laws of rain rate in the freezing part of rainy profiles above a melting layer. Liquid correction is withheld in rainy profiles, and where an attenuation is present but cannot be corrected (for example because rain rate is missing) the quality flags say so and no reflectivity error is given; elsewhere the error combines radar precision with the stated fractions of the rain and melting corrections and the LWP-error part of the liquid correction. The stated sensitivity is the detection limit of the file over range plus the mean gas attenuation, or the median clutter where there is clutter.",
 ["inputs", "configurations"], "all atmospheric states, cloud configurations, radar bands, with and without microwave radiometer or disdrometer",
 "Tests exercise each attenuation class with small hand-made arrays; the end-to-end identity between stored Z, stored corrections, bits and rain detection is not tested, nor are heights that do not start at zero or mixed layers.",
 [C+"categorize/attenuation.py", C+"categorize/attenuations/__init__.py", C+"categorize/attenuations/gas_attenuation.py", C+"categorize/attenuations/liquid_attenuation.py", C+"categorize/attenuations/rain_attenuation.py", C+"categorize/attenuations/melting_attenuation.py", C+"categorize/atmos_utils.py", C+"categorize/radar.py"],
 [("get_attenuations", C+"categorize/attenuation.py"), ("calc_two_way_attenuation", C+"categorize/attenuations/__init__.py"), ("Radar.correct_atten, calc_errors", C+"categorize/radar.py"), ("fill_clouds_with_lwc_dz, calc_adiabatic_lwc, normalize_lwc_by_lwp", C+"categorize/atmos_utils.py")],
 ["variables Z, Z_error, radar_gas_atten, radar_liquid_atten, radar_rain_atten, radar_melting_atten, quality_bits, category_bits"])

prop("C05", "Category bits are mutually consistent and supported by a measurement",
 "In every pixel of a categorize file the category bits follow the documented decision rules from the gridded observations and describe a possible scene: aerosol appears only with lidar signal and never together with droplets or falling particles; insects never coincide with falling particles or droplets and never lie in the freezing part above a melting layer of the profile; droplets never occur colder than -38 C; falling and insect bits need a radar or lidar signal (except for lidar droplets reclassified as falling because colder than -38 C), droplet bits need lidar signal in the same layer of that profile. With level 0 files of an RPG radar, liquid that the neural network gives a probability above 0.55 is added where the profile is freezing and not below the highest lidar-detected layer base, the probabilities and network version are kept in the file, the file type says so, and any other radar is refused. The freezing bit is monotone in height: within a profile every level above the lowest freezing level is freezing. The times a profile was classified as rainy agree with the stated disdrometer or radar thresholds and with the absence of snowfall.",
 ["inputs", "configurations"], "all scenes and all instrument combinations the categorization accepts",
 "Fixture tests check single classifiers on tiny arrays; no test looks at joint consistency of all bits over whole scenes.",
 [C+"categorize/classify.py", C+"categorize/droplet.py", C+"categorize/falling.py", C+"categorize/freezing.py", C+"categorize/insects.py", C+"categorize/melting.py", C+"categorize/containers.py"],
 [("classify_measurements", C+"categorize/classify.py"), ("find_liquid, correct_liquid_top", C+"categorize/droplet.py"), ("find_freezing_region", C+"categorize/freezing.py")],
 ["variables category_bits, quality_bits, beta, Z, Tw, rain_detected, insect_prob"])

prop("C06", "Quality bits state exactly what was measured, attenuated and corrected",
 "In a categorize file the radar and lidar quality bits are set exactly where the file holds a radar and a lidar value; a corrected-for-attenuation bit is set only where the matching is-attenuated bit is set and exactly where an attenuated pixel was corrected; liquid attenuation is flagged exactly at and above the lowest droplet pixel of non-rainy profiles, rain attenuation exactly in rainy profiles, and clutter only in the lowest ten gates of non-rainy profiles at near-zero velocity and never touching droplets or falling particles. The molecular bit is never set and no undefined bits are set.",
 ["inputs", "configurations"], "all scenes and instrument combinations",
 "No existing test derives the quality bits independently from the stored variables of a whole file.",
 [C+"categorize/classify.py", C+"categorize/categorize.py", C+"categorize/containers.py", C+"categorize/attenuation.py"],
 [("fetch_quality", C+"categorize/classify.py"), ("_classes_to_bits", C+"categorize/categorize.py"), ("_find_clutter", C+"categorize/containers.py")],
 ["variables quality_bits, category_bits, Z, beta, v, rain_detected, radar_*_atten"])

prop("C07", "What happens later in the day does not change the past of the classification",
 "The category bits, averaged fields and attenuation corrections of a categorize file at a given time do not depend on measurements taken more than about seven hours away: replacing, removing or corrupting instrument data farther away than that before or after a time leaves the results at that time unchanged, apart from the file-wide detection limits and error statistics (Z_error, Z_sensitivity, rain-detection gate) and the noise-stripe filters that only activate for records of at least 300 profiles. Running the same inputs again gives identical values.",
 ["inputs", "histories"], "all pairs of input days that agree inside a time window and differ arbitrarily far outside it",
 "It is a relation between two runs; existing tests run each scene once.",
 [C+"categorize/classify.py", C+"categorize/categorize.py", C+"categorize/freezing.py", C+"categorize/melting.py", C+"categorize/insects.py"],
 [("classify_measurements", C+"categorize/classify.py"), ("_filter_insects", C+"categorize/classify.py")],
 ["category_bits, quality_bits, Z, v, beta, radar_*_atten in two related runs"])

prop("C08", "Target classification and status fields follow from the bits, always",
 "The target classification of every pixel is the documented function of its category and quality bits, for all possible bit combinations: clear, droplets, drizzle/rain with or without droplets, ice, ice with supercooled droplets, melting ice with or without droplets, aerosol, insects, both. The detection status and the signal source status follow likewise from the bits: no signal, clear signal, clutter, corrected or uncorrected attenuation, combinations of instruments. The radar attenuation status follows from the stored two-way attenuation (moderate above 10 dB, severe above 15 dB, uncorrected and undetected above severe attenuation or a rain rate above 3 mm/h at W band or LWP above 1 kg m-2). Copied coordinates and rain detection keep their values and no pixel is left unclassified.",
 ["inputs"], "all combinations of the category and quality bits at every pixel and both orders in which they occur in a profile",
 "Tests cover a handful of bit combinations, not the full product of category and quality bits.",
 [C+"products/classification.py", C+"products/product_tools.py"],
 [("_get_target_classification, _get_detection_status", C+"products/classification.py"), ("read_category_bits / CategoryBits", C+"products/product_tools.py")],
 ["variables target_classification, detection_status, radar/lidar status of the classification file"])

prop("C09", "Cloud base and top heights enclose exactly the cloud pixels",
 "In a classification file the lowest cloud base and highest cloud top of each profile are the heights of the lowest and highest pixel classified as cloud (droplets, also together with drizzle or rain, and ice, also with supercooled droplets; not melting, rain, insects or aerosol), after removal of 4-connected cloud objects of at most 20 pixels, both are missing when and only when the profile has no such pixel, and base never exceeds top. The above-ground versions differ from the above-sea-level versions by exactly the site altitude (mean altitude for moving platforms). The cloud top status follows the radar attenuation status at the cloud top, is 4 for a top at the last gate and 0 without cloud.",
 ["inputs"], "all profiles of classifications, all height grids and site altitudes, including moving platforms",
 "Tests check one or two hand-made profiles.",
 [C+"products/classification.py", C+"categorize/atmos_utils.py"],
 [("cloud base/top computation", C+"products/classification.py"), ("find_lowest_cloud_bases, find_highest_cloud_tops", C+"categorize/atmos_utils.py")],
 ["variables cloud_base_height_amsl/agl, cloud_top_height_amsl/agl"])

prop("C10", "Ice water content and ice radius: value, error and status agree everywhere",
 "In the ice water content and ice effective radius files every pixel's status follows from the categorize bits, a value is present exactly where there is ice (falling, freezing, not melting, not insect) with reflectivity whose attenuation was not left uncorrected, and the value equals the published Hogan relation of reflectivity and temperature for the radar band; the sensitivity, bias and random-error terms follow their published formulas from the same inputs. Values are positive, missing values never masquerade as zeros, and pixels without ice carry neither value nor error.",
 ["inputs", "configurations"], "all categorize files: both radar bands, all bit combinations, masked reflectivity and every temperature",
 "Tests check coefficient tables and a few pixels; the joint relation between status, bits and values over all combinations is untested.",
 [C+"products/iwc.py", C+"products/ier.py", C+"products/product_tools.py"],
 [("generate_iwc", C+"products/iwc.py"), ("generate_ier", C+"products/ier.py"), ("IceSource, IceClassification", C+"products/product_tools.py")],
 ["variables iwc, iwc_error, iwc_sensitivity, iwc_bias, iwc_retrieval_status, ier, ier_error, ier_retrieval_status"])

prop("C11", "Liquid water content integrates to the measured liquid water path",
 "In every profile of a liquid water content file where a retrieval is reported, the vertical integral of liquid water content over the droplet pixels equals the liquid water path of the categorize file, values are non-negative, are zero outside droplet pixels of retrieved profiles, and rise linearly from cloud base (moist-adiabatically) within an unadjusted layer. If the adiabatic amount is less than the measured LWP and the topmost layer has a lidar-only top, the cloud is extended upward until the adiabatic amount reaches the LWP. The status field separates reliable (1), adjusted (2), new (3) and rain or missing-LWP pixels (4) accordingly, profiles with missing or unusable LWP or rain carry no value, and pixels with status 1 to 3 carry a value; random errors follow the stated formula.",
 ["inputs"], "all droplet layer configurations, liquid water paths, height grids and temperature profiles",
 "Tests use tiny arrays for the helper functions; the column closure is not asserted.",
 [C+"products/lwc.py", C+"categorize/atmos_utils.py", C+"products/product_tools.py"],
 [("Lwc, CloudAdjustor, LwcError", C+"products/lwc.py"), ("fill_clouds_with_lwc_dz, calc_adiabatic_lwc, normalize_lwc_by_lwp", C+"categorize/atmos_utils.py")],
 ["variables lwc, lwc_error, lwc_retrieval_status"])

prop("C12", "Droplet radius and drizzle retrievals exist only where valid and follow formulas",
 "Droplet effective radius is present exactly in droplet pixels with reflectivity and follows Frisch et al.: both the number-concentration formula and the LWP-scaled formula (with the column integral over the whole layer, only where LWP is positive), their errors, and the status for clean, mixed, rainy and ice pixels. Drizzle properties are present exactly in non-rainy warm falling pixels without droplets, melting or insects, seen by radar and lidar, without clutter or liquid or rain attenuation, and follow the O'Connor et al. retrieval: diameter, shape and lidar ratio from the look-up table by iteration, attenuated backscatter corrected layer by layer upwards, number, water content, flux, fall and air velocity and errors and biases by their formulas. Pixels where no retrieval was made carry no value, and no status claims otherwise.",
 ["inputs"], "all categorize files accepted by the two products",
 "Tests cover helpers on small arrays and check that the products run; value/status consistency over scenes is untested.",
 [C+"products/der.py", C+"products/drizzle.py", C+"products/drizzle_tools.py"],
 [("DropletClassification, DerSource", C+"products/der.py"), ("DrizzleClassification, DrizzleSolver", C+"products/drizzle_tools.py"), ("DrizzleProducts, RetrievalStatus", C+"products/drizzle.py")],
 ["variables of the der and drizzle files"])

prop("C13", "Converted instrument files have sorted, unique timestamps inside the asked day",
 "Every instrument conversion that succeeds writes a time axis that is strictly increasing and, when a date was requested or the input covers a single day, lies within 0-24 h of the file's date; when a date was requested it contains exactly the distinct input timestamps of that date; each measured value stays attached to its own timestamp. Profiles the converter is documented to reject (scanning or tilted radar profiles, low transmit power, damaged or completely masked profiles) are left out as a whole. When the input has no timestamp on the requested date the conversion fails with the dedicated error (ValidTimeStampError, or DisdrometerDataError for disdrometers) and leaves no output file.",
 ["inputs", "histories"], "all raw input files: unordered, duplicated, multi-day, split over several files, starting or ending at midnight, for every supported instrument",
 "Each instrument's tests use one or two recorded sample files that are already in order and contain one day.",
 [C+"instruments/cloudnet_instrument.py", C+"instruments/mira.py", C+"instruments/vaisala.py", C+"instruments/weather_station.py", C+"instruments/rain_e_h3.py", C+"instruments/fd12p.py", C+"instruments/disdrometer", C+"instruments/mrr.py", C+"instruments/bowtie.py", C+"instruments/radiometrics.py", C+"instruments/weather_radar.py", C+"utils.py"],
 [("sort_timestamps, remove_duplicate_timestamps, screen_time_indices", C+"instruments/cloudnet_instrument.py"), ("screen_by_time, find_valid_time_indices", C+"utils.py")],
 ["time variable and all time-dependent variables of level 1b files", "exception types"])

prop("C14", "Splitting, reordering or repeating raw input does not change the converted file",
 "Converting the same raw records gives the same data variables regardless of the order in which the records or input files are given, of how the records are split over files where several files are accepted, and of exact repetitions of records or files. (RPG cloud radar files hold one day and one configuration each; HATPRO files in which everything is flagged low quality are documented to be ignored.)",
 ["inputs", "histories"], "all permutations, partitions and duplications of the raw records of a day, for the instruments that accept several files or unordered records",
 "It relates several runs to each other; tests run each sample once in recorded order.",
 [C+"instruments/weather_station.py", C+"instruments/rain_e_h3.py", C+"instruments/mira.py", C+"instruments/mrr.py", C+"instruments/cl61d.py", C+"instruments/disdrometer", C+"instruments/hatpro.py", C+"concat_lib.py"],
 [("sort_timestamps, remove_duplicate_timestamps", C+"instruments/cloudnet_instrument.py"), ("bundle_netcdf_files / concatenate_files", C+"concat_lib.py")],
 ["data variables of level 1b files"])

prop("C15", "Converted values equal the raw values in documented units",
 "Every value in a converted instrument file equals the raw instrument value of the same timestamp and gate converted to the unit stated in the file (for example percent to fraction, Celsius to kelvin, mm/h to m/s, hPa to Pa, dB to linear and back), documented raw missing-value markers become missing values, and accumulated quantities equal the running sum of the per-sample amounts.",
 ["inputs"], "all values, missing markers and record layouts the raw formats can carry",
 "Tests check that units attributes exist and compare a few values of one sample file.",
 [C+"instruments/weather_station.py", C+"instruments/rain_e_h3.py", C+"instruments/fd12p.py", C+"instruments/disdrometer", C+"instruments/weather_radar.py", C+"instruments/mrr.py", C+"instruments/radiometrics.py", C+"instruments/copernicus.py", C+"instruments/galileo.py", C+"instruments/basta.py", C+"instruments/rpg.py", C+"instruments/rpg_reader.py", C+"instruments/hatpro.py", C+"instruments/vaisala.py", C+"instruments/mira.py", C+"disdronator"],
 [("convert_* methods of CSVFile", C+"instruments/weather_station.py"), ("ATTRIBUTES and units per instrument", C+"instruments")],
 ["data variables of level 1b files"])

prop("C16", "Lidar noise screening only removes values and never alters them",
 "In a converted ceilometer or lidar file (CHM15k, CL31, CL51, CL61, DA10, CS135, CT25k, PollyXT) every screened backscatter or depolarisation value equals the unscreened (calibrated) value of the same time and range and is present only where the signal is positive (not negative for PollyXT and CT25k); calibration multiplies the raw backscatter by the given factor and changes nothing else. A value is kept only where the signal (for most models smoothed over one minute and 10 m) reaches five times the noise of its profile, the noise being the standard deviation of the range-uncorrected highest tenth of gates but at least the instrument's minimum (PollyXT: where the file's SNR reaches the limit); in saturated (fog) profiles and above runs of negative values, weak values are removed instead. Depolarisation is present only where backscatter is present and between 0 and 1. Profiles with signal at nearly all heights above 10 km (sunbeam) are dropped, and if none remains an error is raised. A signal far stronger than the noise is retained, pure noise of any level leaves practically nothing, and missing raw values never disturb the screening of other pixels.",
 ["inputs", "configurations"], "all backscatter fields, noise levels, sun-beam contamination and calibration factors",
 "Tests use a recorded file per instrument and check attribute presence.",
 [C+"instruments/ceilometer.py", C+"instruments/ceilo.py", C+"instruments/cl61d.py", C+"instruments/lufft.py", C+"instruments/vaisala.py", C+"instruments/nc_lidar.py", C+"instruments/da10.py"],
 [("NoisyData.screen_data, Ceilometer.calc_screened_product", C+"instruments/ceilometer.py")],
 ["variables beta_raw, beta, beta_smooth, depolarisation of lidar files"])

prop("C17", "Heights and site coordinates follow the viewing geometry and metadata rules",
 "In a converted file height above sea level equals site altitude plus range times the cosine of the zenith angle, zenith angle is the complement of the elevation (or the direction given by the user or the inclination sensor), and range is non-negative and increasing. Site latitude, longitude and altitude come from the documented source in the documented order (GPS for the horizontal position, user-given coordinates, raw file), with the sign of the raw file preserved and longitudes from GPS or raw files within -180 to 180 (a user-given longitude may keep its convention); unknown positions (zero or missing GPS samples) do not appear as coordinates; a stationary platform has one position (possibly repeated for each profile) and a moving platform one position per profile.",
 ["inputs", "configurations"], "all combinations of GPS, user metadata and raw-file coordinates, longitudes in either convention, stationary and moving platforms and pointing angles",
 "Tests use sites in Europe with positive small longitudes and fixed pointing.",
 [C+"utils.py", C+"instruments/cloudnet_instrument.py", C+"instruments/nc_radar.py", C+"instruments/ceilo.py", C+"instruments/pollyxt.py"],
 [("add_site_geolocation", C+"utils.py"), ("add_height, add_zenith_angle", C+"instruments/cloudnet_instrument.py"), ("range_to_height", C+"utils.py")],
 ["variables latitude, longitude, altitude, range, height, zenith_angle"])

prop("C18", "A damaged record in a text log never disturbs the other records",
 "When a raw text log (disdrometer telegrams, weather station, rain gauge and visibility sensor files) contains truncated, garbled or overlong lines, every intact record is converted exactly as it would be without the damaged lines, and every value stays with its own timestamp. The damaged record is dropped or its unreadable fields are marked missing; it is never merged into a neighbour. (The lines that identify the file format and its columns are assumed intact.)",
 ["inputs", "fault_sequences"], "all positions and kinds of line damage in raw logs",
 "Tests contain a few specific bad lines.",
 [C+"disdronator/lpm.py", C+"disdronator/parsivel.py", C+"disdronator/rd80.py", C+"disdronator/utils.py", C+"instruments/disdrometer", C+"instruments/weather_station.py", C+"instruments/rain_e_h3.py", C+"instruments/fd12p.py", C+"instruments/toa5.py", C+"instruments/vaisala.py"],
 [("read_parsivel / read_thies telegram readers", C+"disdronator"), ("parse_input_file", C+"instruments/fd12p.py")],
 ["data variables of level 1b files, arrays returned by the readers"])

prop("C19", "Files written hold exactly the in-memory data with complete metadata",
 "Whatever data a converter or product passes to the file writer is read back from the file with the same values (to the declared type), the same missing pixels and the declared dimensions and attributes; arrays that do not fit into their dimensions are refused. Variables copied from an input keep type, values, missing pixels and attributes. Every variable has the documented units, names, type and dimensions, and global attributes state the file type, title, date, location, source, references, conventions and a unique identifier equal to the returned one. Missing pixels are stored as fill values, never as ordinary numbers.",
 ["inputs", "configurations"], "all shapes, dtypes, masks and metadata combinations",
 "Tests write a few fixed arrays and check selected attributes.",
 [C+"output.py", C+"cloudnetarray.py", C+"metadata.py"],
 [("init_file, save_level1b, save_product_file, _write_vars2nc", C+"output.py"), ("CloudnetArray", C+"cloudnetarray.py")],
 ["netCDF files written"])

prop("C20", "Provenance of every product names exactly its inputs",
 "Each product or categorize file lists exactly the unique identifiers of the files it was made from (without duplicates or omissions). Its history starts with its own creation entry followed by the history entries of its inputs, each once: newest first where entries carry time stamps (model files contribute only their latest entry and malformed lines come last), and for the lidar epsilon product the entries of the stare file and then the wind file in their own order. Source instruments, location and date are those of the inputs (the primary input for location: radar, categorize or observation file), and its identifier is the one requested or a fresh valid one, different between runs.",
 ["inputs", "histories"], "all chains of processing from instrument to product and all input sets",
 "Tests check attribute presence or single strings.",
 [C+"output.py", C+"categorize/categorize.py"],
 [("get_source_uuids, merge_history, add_source_instruments, copy_global", C+"output.py")],
 ["global attributes file_uuid, source_file_uuids, history, source, location, year/month/day"])

prop("C21", "Concatenating, bundling, truncating and updating files conserves every record",
 "Concatenating raw netCDF files that share coordinate variables and units yields every record of every usable input exactly once in time order of the files with all other variables and attributes intact and the physical values of packed variables preserved; damaged or incompatible files that are skipped leave no partial records; bundling chooses only compatible files and reports exactly the ones used; truncating keeps exactly the first records up to the requested count; updating an existing file appends exactly the new records once, in all dimensions, and is idempotent; text concatenation is byte exact. Inputs are never modified.",
 ["inputs", "histories"], "all sets, orders and splits of input files and repeated updates",
 "Tests concatenate fixed pairs of files.",
 [C+"concat_lib.py"],
 [("concatenate_files, _Concat", C+"concat_lib.py"), ("bundle_netcdf_files", C+"concat_lib.py"), ("truncate_netcdf_file, update_nc", C+"concat_lib.py")],
 ["files written and values returned"])

prop("C22", "Results do not depend on what was processed before in the same process",
 "Processing a file gives the same variables, attributes and metadata whether it is the first run in a fresh process or follows any sequence of other conversions, products and failed runs in the same process, and it does not depend on the time zone, the working directory or the hash seed. Repeating a run changes nothing but time of creation and generated identifiers. The arguments given by the caller and process-wide settings (numpy error state, environment, working directory) are left as they were.",
 ["histories"], "all sequences of earlier calls, including failing ones, in one process",
 "Tests never compare a run in a fresh process with a run after other runs.",
 [C+"output.py", C+"categorize/categorize.py", C+"instruments", C+"products"],
 [("add_time_attribute, add_source_attribute, update_attributes", C+"output.py"), ("module-level ATTRIBUTES tables", C+"metadata.py")],
 ["complete contents of the files written in two processes"])

prop("C23", "Failures are explicit: inputs untouched, no partial output, nothing left open",
 "No processing step ever modifies its input files. A run that fails because an input is missing, empty, truncated, corrupt, lacks a needed variable or has no usable data raises an error instead of writing a file with made-up content, and leaves no partial file at the output path: there is then either no file or the complete earlier one, and the earlier one is kept when the failure is in reading the inputs. No temporary files are left behind, and after success or failure no input or output file is left open.",
 ["inputs", "fault_sequences"], "all kinds of damage to any of the inputs of any processing step",
 "Tests cover a few specific error cases per instrument.",
 [C+"categorize/categorize.py", C+"datasource.py", C+"products", C+"instruments", C+"output.py"],
 [("try/finally closing and context managers", C+"categorize/categorize.py"), ("DataSource.__exit__", C+"datasource.py")],
 ["input file digests, output directory listing, open file descriptors, exceptions"])

prop("C24", "Numeric kernels agree with their definitions on all inputs",
 "The shared helpers obey their definitions for every valid input: unit conversions invert each other, bit setting and testing are consistent, bins cover their centres, interpolation reproduces its nodes, stays within the range of its neighbours, never crosses limits on gaps and propagates masks, isolated-pixel filters remove exactly isolated pixels, time conversions are exact. None of them modifies its arguments unless documented.",
 ["inputs"], "all arrays, masks, grids and parameters within the documented domains",
 "Unit tests give a few examples per function.",
 [C+"utils.py", C+"categorize/atmos_utils.py", C+"cloudnetarray.py"],
 [("utils functions", C+"utils.py"), ("atmos_utils functions", C+"categorize/atmos_utils.py")],
 ["return values and arguments of the helpers"])

prop("C25", "Model evaluation downsampling averages exactly the right observations",
 "In a level 3 file every downsampled observation on the model grid is the average (or the cloud fraction by volume and by area) of exactly the observed pixels whose time and height above sea level fall in the model grid box, and is missing when the box holds no valid observation (for ice water content: no pixel that is ice retrieved by radar or with corrected attenuation). Box edges are the mid-points between neighbouring model grid points with the outermost boxes extended; in the advection variant the time window around the model time is the horizontal resolution divided by wind speed, capped at one hour. Cloud fraction lies between 0 and 1 and counts cloud, not aerosol, insects, clutter or rain; the cirrus-filtered cloud fraction never exceeds the model's; model variables are copied unchanged per model cycle except for the documented small-value thresholds and the height ceiling, and an existing file is never overwritten unless asked. Model times are assumed evenly spaced.",
 ["inputs", "configurations"], "all observation and model grids, gaps and cycles",
 "Tests use a fixed synthetic fixture and check shapes or a few values.",
 [C+"model_evaluation/products/observation_products.py", C+"model_evaluation/products/product_resampling.py", C+"model_evaluation/products/grid_methods.py", C+"model_evaluation/products/model_products.py", C+"model_evaluation/products/tools.py"],
 [("ProductGrid", C+"model_evaluation/products/grid_methods.py"), ("ObservationManager", C+"model_evaluation/products/observation_products.py")],
 ["variables of the level 3 file"])

prop("C26", "Model-observation statistics are correct, bounded and symmetric where stated",
 "Day statistics comparing model and observation equal their definitions over points where both are present (an observation that is NaN and a model value below the smallest observed one count as missing): relative error is the difference in per cent of the observation, the signed absolute error changes only its sign when the fields are exchanged, errors are zero for identical fields, the common area is the percentage of points present in both among those present in either, between 0 and 100 and 100 for identical fields, histograms use every valid point exactly once with the model clipped to the observed range, vertical profiles are means over valid times. Statistic figures show these values. Computing one statistic does not alter the data that another one sees.",
 ["inputs", "histories"], "all pairs of masked fields and all orders of computing statistics",
 "Tests give one fixed pair of arrays to each function.",
 [C+"model_evaluation/statistics/statistical_methods.py"],
 [("relative_error, absolute_error, calc_common_area_sum, histogram, vertical_profile", C+"model_evaluation/statistics/statistical_methods.py")],
 ["return values and arguments of the statistics"])

prop("C27", "Turbulence dissipation retrievals are positive, finite and window-local",
 "Dissipation rates of the radar and Doppler lidar products are finite and non-negative or missing, and agree with a direct evaluation of the published relations over the samples of the averaging window: the radar product as the mean (and spread) over the wavenumber bands whose spectral slope is acceptable, the lidar product from the velocity variance and the length scales given by the interpolated wind. They appear only where the input velocities of the window are sufficient (lidar: where the velocity itself is valid), scale with the cube of a common factor of the velocities, do not depend on samples outside the averaging window or on other heights, and do not depend on whether the input has missing values elsewhere.",
 ["inputs"], "all velocity fields, windows and sampling intervals",
 "Tests run one sample file and check that output exists.",
 [C+"products/epsilon_radar.py", C+"products/epsilon_lidar.py"],
 [("epsilon radar retrieval", C+"products/epsilon_radar.py"), ("epsilon lidar retrieval", C+"products/epsilon_lidar.py")],
 ["variable epsilon of the product files"])

prop("C28", "Figures show exactly what the file holds",
 "A figure generated from a Cloudnet file shows every valid value of the requested variables at its own time and height, in the documented units and colour scale (logarithmic where the metadata say so, labels included), and leaves missing values blank: values outside the vertical range of the figure are left out, each status code has its documented label and colour. Gaps longer than the limit of the file type are hatched over their whole length and hold no data, shorter ones are not, heights above the data are hatched, and nothing is hatched if gaps are not to be marked. Running means of time series cover the valid samples, never pass a gap or a missing sample and equal the mean over the window (wind direction: the vector mean); flagged samples, and only those, are marked in the panel of their own variable. Titles, labels, sources and footer follow the options, the returned dimensions are those of the written image, and the file, the options and the settings of the plotting library are left as they were, with no figure left open.",
 ["inputs", "histories"], "all file contents, gaps, masks and plot options",
 "Tests check that figures are written and compare a few dimensions, not what the figure shows.",
 [C+"plotting/plotting.py", C+"plotting/plot_meta.py"],
 [("generate_figure, Plot2D, Plot1D, FigureData, SubPlot", C+"plotting/plotting.py"), ("ATTRIBUTES", C+"plotting/plot_meta.py")],
 ["artists of the figure and the image written by generate_figure"])

prop("C29", "The command line runs what was asked on exactly the files that belong to it",
 "For every site, date, list of products, preference of instruments, model, set of options and content of the data portal (and of folders left by earlier runs), the command cloudnetpy runs the converter of each requested instrument product once, on all and only the raw files of the chosen instrument of that site and date (uploaded or processed; the first preference that is present wins; the one instrument present or the one chosen when there are several), with the metadata of the site, the calibration of the instrument and the date; the categorize product on the files of this run where they were made in it and otherwise on those of the portal in the documented order of preference, with the options given; each derived and level 3 product on its source file of this run or else of the portal; and nothing else. No file of another day, site, instrument, product or model is used and no product overwrites another one or a source; existing downloads are reused unless forced; output names depend only on the file names, not on the folders; with --dl nothing is processed. A requested figure is drawn from the file of its product next to it. Invalid preferences and models are refused before anything is run, a failed download of radiometer data leaves the rest, and the order in which parallel downloads complete changes nothing.",
 ["inputs", "schedules", "histories", "fault_sequences"], "all command lines, portal contents, earlier runs, download orders and failures",
 "No test covers the command line.",
 [C+"cli.py"],
 [("main, run, _process_instrument_product, _process_categorize, _fetch_product, _download_product_file, _select_instrument", C+"cli.py")],
 ["calls made to converters and products with the contents of the files given to them", "tree of output and input folders", "requests made to the portal"])

prop("C30", "Microwave radiometer products hold what the retrieval library computes",
 "The Level 1c file of a HATPRO radiometer and the single-pointing, multiple-pointing and LHUMPRO products hold, for every variable, exactly the values and missing values that the retrieval library (mwrpy) computes from the same files with the retrieval coefficients named by the user or by the Level 1c file and with the given offset of the liquid water path, every coefficient file being fetched once. Zenith angles complement the elevation angles, times are hours of the day, the variables get the standard units and names, and the origin (identifiers, instrument, date, site, history, coefficients and library version) is that of the source files, also when a Level 1c file has no instrument identifier. A product whose liquid water path (temperature for multiple-pointing) is flagged everywhere is refused without leaving a file.",
 ["inputs", "configurations"], "all raw radiometer files, coefficients, offsets, quality flags and scans",
 "No test calls the products, whose retrievals need coefficient files from the network.",
 [C+"products/mwr_tools.py", C+"instruments/hatpro.py"],
 [("hatpro2l1c, HatproL1c", C+"instruments/hatpro.py"), ("generate_mwr_single, generate_mwr_multi, generate_mwr_lhumpro, Mwr, _read_mwrpy_coeffs", C+"products/mwr_tools.py")],
 ["variables and attributes of the Level 1c and product files", "requests for coefficient files"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
