p("P07", "The production function is a cumulative number, additive and invertible",
  "For every production model the number of craters larger than a diameter produced over an interval is positive, strictly decreases with diameter, grows with the length of the interval, adds up over consecutive intervals and is zero for an empty one; its shape does not depend on time and its value at 1 km is the chronology function. Age from number and diameter from number undo it, lists give what each element gives alone, and reversed intervals, negative sizes and ages beyond the model's validity are rejected. The model follows the target when none is named.",
  ["inputs", "configurations"], "all diameters from 1 mm to 10000 km, all intervals within the validity of the model, all models, power-law parameters",
  "tests evaluate a few ages and diameters; monotonicity across the polynomial and its extrapolations needs every diameter",
  [C + "production/"], [("csfd / chronology / function / age_from_D_N / D_from_N_age", C + "production/")], ["Production.function", "Production.age_from_D_N"])
p("P08", "Sampled craters follow the production function over area, range and interval",
  "Sampling a production function draws a Poisson number whose mean is exactly the production function at the smallest diameter over the requested interval times the area, diameters within the requested range (the production's own when none is given), and ages within the interval, distributed like the craters produced and sorted from the oldest. A number of craters N(D), in any of the supported units, given instead of an age means the age at which that number is reached, for start and end alike. Contradictory, missing, reversed or out-of-range requests are rejected before anything is drawn.",
  ["inputs", "configurations"], "all intervals, areas, draws of the generator, ways to give the interval, units; all models",
  "tests sample with a fixed seed and compare loosely; unit, normalisation and boundary errors hide in the noise",
  [C + "production/__init__.py", U + "montecarlo_utils.py"], [("sample / compute_time / _validate_sample_args", C + "production/__init__.py")], ["Production.sample", "Production.compute_time"])
p("P10", "Given (quasi-Monte Carlo) craters enter the record once, in sequence, in time",
  "A crater given with an exact production time or N(D) gets exactly that time (N(D) first), never one in the future, whatever the units and draws; in a sequence a lower number is never younger; craters without production data are left out and the random population is limited to sizes below the given ones. Merging into a random population over an interval (time_end, time_start] includes each given crater of that interval exactly once and no other, keeps every smaller random crater of the interval, replaces at most one random crater per given one, changes no crater and sorts from the oldest.",
  ["inputs", "histories", "configurations"], "all times, intervals, draws; sequences of up to 3 craters; merges of up to 2 random and 2 given craters",
  "tests use one catalogue and seed; ordering and exactly-once must hold for every relation of times and sizes",
  [C + "production/__init__.py"], [("quasimc_merge / _process_quasimc_craters", C + "production/__init__.py")], ["Production.quasimc_merge", "Production.quasimc_craters"])
p("P11", "A run covers its time span exactly once and keeps its clocks",
  "Simulation.run populates consecutive intervals that start at the requested beginning (or, when continued, at the current time), each where the previous one ended, and end exactly at the requested end, never in the future: as many as requested and with equal crater numbers when a number of intervals is given, of the requested length except the last when a time interval is given. After every interval the state is saved once, with consecutive interval numbers; time, elapsed time and elapsed N(1) equal what was simulated. A span given as age, times or N(D) means the same. A finished run is not repeated, a start later than the current time and contradictory or incomplete requests are refused before anything is simulated.",
  ["inputs", "histories", "configurations"], "all spans within the validity of the model, all current times, up to 4 intervals, units, power law and Moon production",
  "tests run one or two intervals with dividing lengths; coverage and clocks depend on every relation of span, interval and current time",
  [K + "simulation.py"], [("run / _validate_run_args", K + "simulation.py")], ["Simulation.run"])
p("P12", "Populating draws for every part of the surface its own share of craters, once",
  "The faces of a mesh are divided into size bins without gap or overlap: every face is in exactly one bin, faces of one bin differ in area by at most a factor of two, and the areas, smallest and largest sizes recorded per bin are those of its faces. Populating a surface samples the production once per bin, over that bin's own area, over the interval requested (its numbers scaled to the bin's share of the surface), down to the smallest crater that bin resolves; places every crater drawn on a face of its bin, in proportion to face areas; and emplaces every crater drawn exactly once, oldest first, together with the given craters of the interval.",
  ["inputs", "configurations"], "all face areas, up to 4 faces in 3 bins, all ages and numbers, all draws; up to 3 craters",
  "tests populate one uniform mesh; shares, bins and order matter on variable meshes and at ties of area",
  [K + "simulation.py", "cratermaker/components/surface/__init__.py"], [("populate", K + "simulation.py"), ("_compute_face_bins", "cratermaker/components/surface/__init__.py")], ["Simulation.populate", "Surface.face_bin_indices"])
p("P13", "Size limits mean what they say, for craters and projectiles alike",
  "A limit on crater or projectile size that is set is read back, can be removed, and limits the population produced: no random crater or projectile outside the limits, or smaller than the surface resolves, is emplaced. A limit given for one of crater and projectile acts on the other as its equivalent under the scaling, independent of random draws; limits that are not positive or reversed are refused. Craters given as a quasi-Monte Carlo sequence are used unless switched off.",
  ["inputs", "configurations"], "all limits, all angles and velocities, both generator types, all orders of setting",
  "tests set one limit at a time and never with the other generator type or an unusual draw",
  [K + "simulation.py"], [("smallest_crater / largest_crater / smallest_projectile / largest_projectile", K + "simulation.py")], ["Simulation.smallest_crater", "Simulation.populate"])
p("P14", "What is saved of a simulation restores it",
  "Every setting given to a target, scaling model, projectile population, production function or morphology model, by argument or by assignment, is found in the configuration it writes, and a component or simulation made from that configuration has the same settings: sizes, masses, densities, materials, units, models, size limits, clocks, random state, save and counting switches. Resuming restores the last saved state, any number of times; arguments given on resuming win over the saved ones and are not mixed with another component's settings; a reset starts anew.",
  ["inputs", "histories", "configurations", "crash_points"], "all values of each setting, every subset given, any model, any number of resumes; interruption after any save",
  "tests save and reload defaults; a setting that is silently dropped shows only when it was set, saved and reloaded",
  [K + "base.py", K + "simulation.py", C], [("to_config / __init__", K + "simulation.py"), ("CratermakerBase.to_config", K + "base.py"), ("_set_properties", U + "general_utils.py")], ["Simulation.to_config", "Simulation(resume_old=True)"])
p("P15", "Saved files are deleted or overwritten only with consent",
  "Saved output that would be deleted or overwritten is so only after the user agreed (asked once for each operation, with every file concerned), or when asking was switched off; a new simulation directory and unrelated files never need consent. When the user declines, every file, every surface field, every crater and the configuration are as they were before the request. A reset that is agreed to removes the saved output and starts anew; exports that overwrite say so first.",
  ["inputs", "configurations", "histories"], "all sets of existing files, all answers to all prompts, prompting on and off, every operation that deletes or overwrites",
  "tests switch prompts off; a declined prompt in the middle of a reset or export is never exercised, and the loss is irreversible",
  [K + "base.py", K + "simulation.py", C], [("_overwrite_check / reset / saved_output_files", K + "base.py"), ("reset", K + "simulation.py")], ["Simulation.reset", "Surface.reset", "Counting.reset", "export"])
p("P16", "The seed, generator or state given is the only source of randomness",
  "Two calls that ask for the same thing with the same seed give the same result, whatever the draws: no part of a crater, projectile, scaling model, production sample or sampling utility comes from a generator of its own. A generator given is used as it is, else a state given is restored, else the generator is made from exactly the seed given, else it is seeded freshly; what is not a generator, seed or state is refused. All components of a simulation draw from the one generator of the simulation, also after resuming.",
  ["inputs", "configurations", "histories"], "all draws, all seeds below 2**63, every combination of generator, seed and state, valid or not, each component",
  "tests fix one seed and never compare two runs of each component; an unseeded draw in one branch shows only when that branch is reached twice",
  [K + "base.py", U + "montecarlo_utils.py", K + "simulation.py"], [("_rng_init / rng / rng_state / common_args", K + "base.py")], ["Simulation(rng_seed=)", "Crater.maker(rng_seed=)"])
p("P17", "The crater record survives saving, resuming, export and import",
  "Every observed and emplaced crater of a saved interval is read back with the same identifier and attributes, whichever attributes the others have, and the craters restored on resuming are those of the last saved interval, also when it has none or its writing was interrupted. Exports write every crater of every interval asked for exactly once, from whatever form they are given in, and importing a CSV export gives the same craters; SCC files give measured sizes in km, places and area.",
  ["inputs", "histories", "configurations", "crash_points"], "2 saves of any of 2 craters (round or not, all or no optional attributes, any values) at ordinary and unusual interval numbers; interruption between the two files",
  "tests save one list of alike craters and read it back by number; mixed attributes, recurring craters and empty intervals are not sampled",
  [C + "counting/__init__.py", C + "crater/__init__.py", K + "base.py"], [("save / export / to_csv_file / to_scc_file / _validate_export_args / __init__", C + "counting/__init__.py"), ("from_xarray / from_csv_file / from_scc_file", C + "crater/__init__.py"), ("read_saved_output / get_time_variables", K + "base.py")], ["Counting.save", "Counting.export", "Crater.from_file"])
p("P18", "Every crater given is emplaced once, overlapping ones in the order given",
  "Each crater handed to emplace that is large enough for the mesh is formed exactly once and no other, in one call or several, whether given alone, in a list or a tuple, as a plain crater or by its parameters; none stays in the queue. Of two craters whose faces or nodes overlap the one given first is formed first. The time between timed craters is degraded at most once, forward and never outside the craters' own times, what is left is applied at the end, and the craters are counted after the last one.",
  ["histories", "configurations", "schedules"], "up to 3 craters (4 thorough; 9 to 12 with one overlap), each pair apart or sharing a face or a node, one or none too small, all times or none",
  "tests emplace one crater or a random list and look at the surface only; order and exactly-once depend on which craters overlap",
  [C + "morphology/__init__.py", C + "morphology/basicmoon.py"], [("emplace / _process_queue / CraterQueueManager", C + "morphology/__init__.py"), ("overlap_function / emplace", C + "morphology/basicmoon.py")], ["Morphology.emplace", "Simulation.emplace"])
p("P19", "What a crater excavates is what its ejecta add to the surface",
  "Forming a crater changes the elevation of every face and node of its surroundings by exactly the crater's own shape plus its share of the ejecta, which together hold the volume excavated, so that the volume of the surface is conserved; nothing beyond the ejecta's reach changes. The ejecta thickness recorded grows by that share and starts anew within the crater; a crater that excavates nothing has no ejecta, and one too small for the mesh changes nothing and is not recorded. Each crater formed is recorded once, and counted if counting is on.",
  ["inputs", "histories", "configurations"], "a 12-face mesh with distinct areas, 3 places, 3 extents of the ejecta; any elevations, crater and ejecta profiles (7 values free)",
  "tests form one crater and look for a hole; volume, shares and what stays unchanged depend on mesh, profile and extent together",
  [C + "morphology/__init__.py"], [("form_crater / form_ejecta", C + "morphology/__init__.py"), ("add_data / update_elevation / compute_volume", C + "surface/__init__.py")], ["Morphology.form_crater", "Morphology.form_ejecta"])
p("P20", "A region of the surface reads and changes exactly its own faces and nodes",
  "A region extracted around a place or within another region contains each face within its radius once, their nodes and edges, no others, and their total area; a subregion lies within its region. Adding or replacing data or elevations, diffusion, noise and slope collapse through a region change exactly its own faces and nodes, each by its own value, whatever the order and number of its faces; data of another size are refused. Reading from a region, averages and reference surfaces change nothing.",
  ["inputs", "configurations"], "a 12-face mesh; regions of any 1 or 2 faces or all within a radius, in any order, as many faces as nodes, the whole; any data",
  "tests write constants on uniform meshes; an index or size confusion shows only for particular shapes and orders of regions",
  [C + "surface/__init__.py"], [("LocalSurface: add_data / update_elevation / apply_diffusion / extract_subregion / get_reference_surface", C + "surface/__init__.py")], ["Surface.extract_region", "LocalSurface.add_data", "LocalSurface.update_elevation"])
p("P21", "The craters counted and the marks they leave on the surface agree",
  "A crater counted marks every face of its region once, takes away within its rim the marks of smaller craters, never of larger ones, and a crater is in the record of observed craters exactly as long as one of its marks is left. Tallying removes exactly the craters, with all their marks, whose degradation reaches their visibility, and marks without a crater, in the whole surface or only the region asked for. Degradation grows as a crater gets shallower and is zero for one as deep as it was made; adding, removing, sorting and clearing tags keep every other tag of every face.",
  ["inputs", "histories", "configurations"], "a 12-face mesh; 3 craters of any sizes and degradation on overlapping regions; up to 3 tag operations with up to 7 tags per face",
  "tests count one crater; what is kept when craters overlap depends on their order, sizes and the layers their marks are in",
  [C + "counting/__init__.py", C + "counting/depthcount.py", C + "surface/__init__.py"], [("add / remove / tally", C + "counting/__init__.py"), ("add_tag / remove_tag / sort_tags", C + "surface/__init__.py"), ("measure_degradation_state", C + "counting/depthcount.py")], ["Counting.add", "Counting.tally", "LocalSurface.add_tag"])
p("P22", "The data of the surface survive saving and resuming",
  "Every variable on the faces and nodes of the surface (elevations, ejecta, tags, any added later) and the clock saved with it is read back unchanged for every interval saved, whatever is changed or saved afterwards, and a resumed surface has exactly the variables and values of the last interval saved, once and again. Saving an interval a second time replaces it. A reset leaves a surface with zero elevations, no other variables and no data of earlier intervals, and the grid.",
  ["inputs", "histories", "configurations"], "any values of any subset of elevations, ejecta, node data and tags; 1 to 3 saves at any of 6 sets of interval numbers; resumed up to twice",
  "tests save one interval; what is lost when variables appear later, intervals are saved again or numbers grow shows only after a longer history",
  [C + "surface/__init__.py", K + "base.py"], [("save / _save_data / read_saved_output / reset / _load_from_files", C + "surface/__init__.py"), ("read_saved_output / get_saved_interval_numbers", K + "base.py")], ["Surface.save", "Surface.read_saved_output", "Surface.reset"])
