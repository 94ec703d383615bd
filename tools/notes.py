"""technique and level_note per claimed property -> tools/notes.json"""
import json, os
T = "runtime monitoring: "
N = {
"C01": (T+"independent per-bin reference model as oracle over generated radar files", "Every averaged value of every generated run is compared with a slow per-bin recomputation from the raw file; assurance is limited to the generated files and trusts netCDF4/numpy."),
"C02": (T+"independent gridding model as oracle over generated lidar, radiometer, disdrometer and model files", "Every gridded value is recomputed from raw files; wet-bulb values within the tolerance of the iterative solver."),
"C03": (T+"reference overlap model and exception/file-system monitor over generated gap patterns", "Every run's axes compared with the set computed from the raw timestamps."),
"C04": (T+"conservation and physics oracle on stored fields of real categorize runs", "Z identity, monotonicity and every correction recomputed from stored inputs on generated scenes."),
"C05": (T+"invariant monitor plus full reference classifier on recorded gridded inputs", "Gridded observations are recorded at the classification entry and reclassified by an independent implementation of the documented rules; all six bits compared for every pixel."),
"C06": (T+"reference oracle for quality bits on recorded inputs and stored variables", "Every quality bit of every pixel recomputed on generated scenes."),
"C07": (T+"metamorphic relation monitor over pairs of runs differing far away in time", "Two real runs are compared inside the unaffected window."),
"C08": (T+"exhaustive bit sweep with reference classifier as oracle", "All 2^16 category x quality combinations plus random, layered and real files; every pixel of every written status field is compared."),
"C09": (T+"reference object-removal and base/top oracle over written classification files", "Own flood fill and scan; random layered files, objects around the size limit, all height grids."),
"C10": (T+"reference retrieval oracle over exhaustive bit sweeps", "Every pixel recomputed from the categorize file; error fields within float tolerance."),
"C11": (T+"conservation oracle (integral equals LWP) and reference retrieval", "Column closure plus a full reference of values, statuses and errors; one listed known finding (status 3 without values)."),
"C12": (T+"reference retrieval oracle with independent table look-up", "The solver runs with a synthetic Mie table because the real one is not in the repository."),
"C13": (T+"time-axis conservation monitor over generated raw files with known ground truth", "Every written row is matched to the raw record it came from; generated raw files of 46 formats (text, netCDF/HDF5, binary)."),
"C14": (T+"metamorphic relation monitor over reordered, split and repeated raw input", "Real conversions of the same records are compared variable by variable."),
"C15": (T+"independent ground-truth oracle for every converted value, unit and running sum", "Raw files are generated together with the physical value each field stands for."),
"C18": (T+"fault injection into raw text logs with ground-truth oracle", "Eleven kinds of damage at random places; all values of all intact records are compared; damage by other valid digits is undetectable and not injected."),
"C21": (T+"record conservation monitor over generated file sets with damage and input digests", "Every output record is traced to the input it came from; generated netCDF files, including corrupted compressed blocks."),
"C24": (T+"reference definitions as oracle over random and edge-case arguments, argument-mutation monitor", "Every helper call is compared with an independent definition; arguments hashed before and after."),
"C16": (T+'independent model of the screening as oracle over generated scenes plus calibrated twins', 'beta, beta_smooth and depolarisation of every pixel compared with a separate implementation of the documented screening; pixels within 1e-3 of a threshold (about 12 %) are not judged; CT25k screening is done by a library outside the repository and only checked for containment.'),
"C27": (T+'direct evaluation of the published relations as oracle, metamorphic runs (scaled, locally perturbed, gapped)', 'Every pixel of the epsilon products compared with a separate evaluation of the relations; pixels within rounding of an acceptance limit, and lidar pixels next to wind gaps are compared with the range that the measured winds allow.'),
"C17": (T+'independent coordinate resolver and geometry model as oracle over all coordinate-source combinations', 'Coordinates, heights, zenith angles of every converted file of 18 binary/netCDF and 27 text formats compared with an independent resolver; the altitude of a moving platform is averaged.'),
"C25": (T+'level 3 files from random model grids and synthetic products compared pixel by pixel with an independent box-membership reference', 'Random model grids, altitudes, winds, gaps and cycles; every downsampled variable, cycle and the overwrite switch are recomputed independently from the raw inputs.'),
"C20": (T+'provenance monitor: attributes of real outputs along whole processing chains compared with the set of inputs really given (identifiers, ordered histories, sources, locations, dates)', 'inputs are written with amended identifiers, histories and sources so that omissions, duplicates and reordering are visible; histories with blank lines are not generated'),
"C22": (T+'differential runtime monitoring: the same job in a fresh forked process versus after random histories of other successful and failed jobs, in other time zones, working directories and hash seeds; settings and arguments snapshotted', 'all 45 converters and product steps take part as targets and as history; file identifier and creation time are excluded'),
"C23": (T+'fault injection with digests, descriptor and directory snapshots: missing, empty, truncated, garbage inputs, removed or masked variables, unwritable and full output devices around real runs', "the RPG reader library's own descriptor leak on truncated files, the classic netCDF padding and HDF5 behaviour on full disks are library matters and not judged"),
"C26": (T+'pointwise reference monitor of the real statistics on random fields in random order over shared arrays with argument snapshots, and read-back of texts, segments, bars and profiles of real statistic figures of level 3 files', 'geometry of figures is not judged; a histogram of a field without any observation is not judged'),
"C19": (T+'recording monitor at the file writer (arrays handed over versus raw file contents) around synthetic arrays of all types and around every real converter and product, plus a reviewed table of units, names, types and dimensions of all variables per file kind', 'integers are assumed to fit into the declared type and real data not to equal the default fill value; variables absent from the table only need units and a name'),
"C28": (T+'artists of the drawn figures read back and compared with the file, frame position looked up in the written image, state before and after the call compared', 'Figures of generated files of all kinds with every plot option; each drawn cell, point, curve, hatched area and label compared with the file by separate code; colours of status codes and units from own tables'),
"C29": (T+'runtime monitoring: recording stand-ins for converters/products, in-memory data portal with injected delays and failures, reference model of the workflow', 'Runs cloudnetpy.cli.main on generated command lines and portals; compares calls (arguments, file contents), downloads and output tree with a reference of the workflow; explores completion orders of the parallel downloads by delays; 6 cases run the real chain and compare files with direct calls.'),
"C30": (T+'direct calls of the retrieval library on the same files as oracle, recording stand-in for the coefficient server', 'Level 1c files and products made from generated raw files with the coefficient files installed with mwrpy; mwrpy itself is trusted; LHATPRO/LHUMPRO raw files are not generated (other channels); temporary array-length confusion of mwrpy is kept out of the way.'),
}
json.dump(N, open(os.path.join(os.path.dirname(__file__), "notes.json"), "w"), indent=1)
