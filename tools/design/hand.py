import json
H={
"C01":dict(oracle="`catmodel.py`: for each 30 s bin the raw samples are collected from the input file and averaged by a loop (linear averages of log quantities, circular average of folded velocities, population spread, all-masked bins stay masked); Z and v are compared after undoing the stored corrections; filters (stripes, speckle, first gate) are re-decided by separate code.",why="Tests average tiny arrays with one helper; folding, uneven sampling, gaps, masks and filters only interact in whole runs.",false="Long records in which the spread is rounding noise were dropped from the stripe comparison."),
"C02":dict(oracle="Nearest lidar sample by brute force with limits of 1 min and 100 m; LWP and disdrometer by gap-limited interpolation; model fields by bilinear interpolation on the model's own levels; wet bulb through the third-party function on the interpolated values; quality flags and all-masked profiles removed first.",why="Tests use complete, aligned inputs; limits only matter for gaps, offsets and empty profiles.",false="Either diagonal of a model cell is accepted."),
"C03":dict(oracle="The set of expected bins from raw timestamps (radar sample in bin, non-empty lidar profile within a minute, model data), positions by nearest profile, axes strictly increasing; on failure the exception type and the absence of an output file.",why="The tests never leave out part of a day for two sources at once.",false="Bins decided by rounding may go either way."),
"C04":dict(oracle="Gas, liquid, rain and melting attenuation recomputed from inputs and stored bits; Z minus the raw average equals the stored sum exactly; monotonic in height; error, bias and sensitivity of Z from their relations; each correction present exactly where flagged.",why="Tests check single functions with hand-made masks; the interplay of corrections, flags and missing LWP or rain is only visible in files.",false=""),
"C05":dict(oracle="`refclass.py`: an independent implementation of droplet, freezing level, melting layer, insect, aerosol, clutter and falling detection fed with gridded observations recorded at the entry of the classification; invariants (droplet and insect exclusive, melting next to 0 C, no bit without a measurement) checked on the file.",why="Tests exercise each detector with constructed objects; consistency between six detectors, two radars and all seasons is not sampled.",false="Pixels removed later as speckle are recognised from the file."),
"C06":dict(oracle="Every quality bit recomputed from stored fields, category bits and inputs.",why="Flags are written by one module from states of five others; tests only check a few.",false=""),
"C07":dict(oracle="Two runs that differ only beyond a cut; every time-dependent value further than 6.6 h away must be identical; exact repetitions of a run.",why="A leak over time needs two long runs; no test compares runs.",false="File-wide quantities are exempt, see below."),
"C08":dict(oracle="All 65536 combinations of bits: class, detection status, and status fields compared with a table-driven reference.",why="Tests check a dozen combinations.",false="Sums of attenuation within 1e-4 dB of a class limit are not judged."),
"C09":dict(oracle="Own flood fill (objects below the minimum size) and column scan for base, top, above-ground heights and top status.",why="Edges of the grid, sites at or below sea level, moving platforms.",false=""),
"C10":dict(oracle="Published relations for IWC and effective radius evaluated per pixel in double precision, status by the bits, errors by propagation.",why="Exhaustive bits times warm and cold temperatures, both bands.",false=""),
"C11":dict(oracle="Column integral of the LWC equals LWP; linear increase within a layer; status and error by rules; adjustment of tops recomputed.",why="Closure must hold for every combination of layers, gates and missing values.",false="Layers starting at the lowest gate are only checked for closure."),
"C12":dict(oracle="Frisch radius with and without scaling and errors; drizzle: table look-up, iteration, derived rates and errors by separate code; a value is accepted if it is the reference for inputs perturbed by 3e-6.",why="Tests assert shapes and single values; layers of all thicknesses, missing pixels and mixed conditions decide.",false="Ties in the table look-up."),
"C13":dict(oracle="Generated raw records of 46 formats (with fractions of seconds where the format has them) carry a ground truth; the time axis must be the sorted set of times of the requested day and each row must belong to its record; failing runs must raise the documented error.",why="Sample files in tests are sorted and complete.",false="Conflicting records of one time: any one may be kept."),
"C14":dict(oracle="Conversions of the same records in other orders, files and repetitions compared variable by variable.",why="No test reorders or splits input.",false=""),
"C15":dict(oracle="Each generator writes the raw field together with the physical value it stands for; every value, unit and missing marker in the converted file compared; running sums recomputed. Also the netCDF readers of disdrometers (disdronator): gaps, units, transposed spectra, conversion to netCDF.",why="Tests check presence of variables and units on a few files.",false=""),
"C16":dict(oracle="Separate implementation of the documented noise screening (noise from top gates, SNR limits, fog, negative values, smoothing, sunbeam) per pixel; twins with other calibration must scale exactly.",why="Tests use small random arrays.",false="About 12 % of the pixels are too near to a limit to be judged; smoothed values next to strong screened pixels are not judged."),
"C17":dict(oracle="Order of coordinate sources (user, GPS, raw file) resolved separately; height equals altitude plus range times cosine of the zenith angle; conventions of longitude, hemisphere and zenith.",why="All combinations of sources and conventions for 18 formats.",false=""),
"C18":dict(oracle="Eleven kinds of damage at random places of 27 text formats; every intact record must be converted exactly as without the damage.",why="Tests contain undamaged logs.",false="Digits replaced by digits are undetectable and not generated."),
"C19":dict(oracle="Arrays recorded at the writer are compared with raw contents of the file (types, fill values, masks, chunk order); names, units, standard names, types and dimensions compared with a reviewed table of every file kind (`golden.json`).",why="Values are lost at the boundary to the file (fill values, types) only for unusual input.",false="BASTA pitch angle: known finding."),
"C20":dict(oracle="Identifiers, sources, histories (ordered by time in any UTC offset), dates and locations of each output compared with the inputs really given, along whole chains.",why="Needs chains of steps and unusual histories.",false=""),
"C21":dict(oracle="Every record of the result is traced to the one input record it came from; none lost, doubled or altered; inputs unchanged.",why="File sets with damage, other grids, packing and types.",false=""),
"C22":dict(oracle="Complete files of the same job in a fresh process and after random histories, in another time zone, directory, hash seed; settings and arguments compared.",why="State that leaks between runs needs sequences of different runs.",false="Identifiers and times of creation are exempt."),
"C23":dict(oracle="Digests of all inputs, listings of output and temporary directories and open descriptors before and after runs with damaged input, missing variables, unwritable or full outputs.",why="Faults at each point of each step.",false="Library behaviour (rpgpy descriptors, padding of classic netCDF) is exempt."),
"C24":dict(oracle="Slow definitions of each helper; arguments compared with copies.",why="Random edge cases instead of chosen examples.",false=""),
"C25":dict(oracle="Each cell of the level 3 file from the pixels inside its box in time and height, with advection times computed from the winds; filters of unreliable pixels; copies of model fields.",why="Tests use one model file.",false="Pixels on a box edge make the cell not comparable."),
"C26":dict(oracle="Point-wise definitions of the day statistics, on shared arrays in random order; texts, segments, bars and profiles of the drawn figures.",why="Missing values, disjoint fields, single points, order of calls.",false=""),
"C27":dict(oracle="Published relations evaluated directly for every pixel; cubic scaling; locality of window and height; independence of gaps elsewhere.",why="Tests run one file of each kind.",false="Pixels within rounding of an acceptance limit are not judged; radar intervals are whole seconds."),
"C28":dict(oracle="Cells, points, curves, hatched areas, labels, ticks and titles read back from the figure; the frame located in the pixels of the image; file and options unchanged.",why="Tests only check that drawing does not fail.",false="Fields smoothed in time are judged by bounds."),
"C29":dict(oracle="Reference model of the workflow (selection, preferences, download, names of outputs, order of steps) compared with calls recorded at stand-ins, file contents handed over, downloads, output tree; six cases run the real chain.",why="No test runs the command line against a portal; delays and failures explore orders of the parallel downloads.",false="Products without a converter are not judged."),
"C30":dict(oracle="Level 1c files and products compared variable by variable with direct calls of mwrpy on the same files; attributes against the source file; requests for coefficient files recorded; flagged input must be refused without a file.",why="Tests cannot call the products: their coefficient files come from the network.",false="mwrpy is trusted; its own local-time dependence and its confusion of arrays as long as the number of timestamps are kept out of the way."),
}
json.dump(H,open('/tmp/hand.json','w'))
