prop("C07", "Adding stars and data preserves everything already there",
     "Stars, binaries, stellar evolution, N-body header, action, energy and orbit data added in any order and any number of batches always end up describing the same stars: every star keeps its own "
     "row in every array, identifiers stay unique and attached to the right star, counts and totals match the arrays, populations and primordial masses default as documented, binary components and "
     "centres of mass agree, and nothing that was added earlier is lost, duplicated or moved to another star.",
     ["histories", "inputs"], "all sequences up to a depth of add_stars / add_binary_stars / add_sse / add_bse / add_energies / add_actions / add_nbody6 / add_orbit calls in 22 argument forms (arrays, scalars, mixed, defaults)",
     "Tests add one batch of stars and one of each kind of data.",
     [CL], ["add_stars, add_binary_stars, add_sse, add_bse, add_energies, add_actions, add_nbody6"], "all arrays of StarCluster against a reference table",
     "bounded explicit-state model checking of the real object: every sequence of additions up to a depth, against a reference table of stars", "depth-bounded")
prop("C08", "Sub-clusters contain exactly the selected stars, complete and unlinked",
     "A sub-cluster (or subset mask) selects exactly the stars meeting all given criteria, bounds included, and carries all their data, binaries and stellar evolution included, "
     "and the parent's units, origin, centre, orbit and header. When asked for, the centre or the N-body scaling is instead that of the selected stars alone, and the stars stay where they were. Working on the parent or the sub-cluster afterwards never "
     "changes the other, and the selection itself changes neither the parent nor a mask passed in. The stars of one cluster which overlap another are exactly those within the given distance of any of its stars.",
     ["inputs", "configurations", "histories"], "all combinations of selection criteria x all (units, origin) x follow-up operations on either side; every combination of the options that find a new centre or scaling",
     "Tests apply each criterion alone, once, in one unit system.",
     [CL], ["subset, sub_cluster, _get_subset"], "mask and sub-cluster attributes, parent attributes",
     "exhaustive enumeration of criteria combinations and operation interleavings on the real object against a reference filter", "finite product enumerated completely")
prop("C09", "Snapshots are read completely, in order, whatever happens in between",
     "Loading a simulation and advancing through it shows every snapshot exactly as written and exactly once, in order: all stars with their own masses, positions, velocities, identifiers, stellar "
     "evolution, binaries, header and energies, the right time, and the orbit row of that snapshot. This holds in every supported file format and directory layout, across a restart directory, for any "
     "number of stars, and whatever was done to the cluster between snapshots. After the last snapshot the cluster is empty.",
     ["histories", "configurations"], "all interleavings of advances with work on the cluster x file formats (snapshot, gyrfalcon, new_gyrfalcon, nbody6, nbody6pp) x file layouts x star/binary counts x orbit files x restart directories",
     "Tests load one snapshot of one layout per format, most advance at most once and none checks restarts, single stars or several binaries.",
     [LO, "clustertools/io/snapshot.py", "clustertools/io/gyrfalcon.py", "clustertools/io/nbody6.py", "clustertools/io/nbody6pp.py", "clustertools/io/orbit.py"],
     ["load_cluster/advance_cluster, format readers, sequential file positions, nsnap counting"], "star arrays, labels, time and orbit after each advance",
     "exhaustive enumeration of advance/work interleavings over file-layout configurations, replayed on the real loaders, against an independent writer", "bounded: 3 snapshots, at most 1 (quick) or 2 (thorough) pieces of work per history")
prop("C10", "A damaged simulation file never shows a corrupted snapshot",
     "When a run was interrupted, so that any of its output files ends at an arbitrary byte, misses its last records, or carries a damaged record length, loading and advancing shows each snapshot "
     "either exactly as it was written (all stars with their own identifiers, masses, positions, velocities, types and time) or not at all; complete snapshots before the damage are still read, and a "
     "snapshot is never assembled from two different outputs nor filled with stars from elsewhere.",
     ["crash_points", "inputs"], "every truncation point of every file of a run x every damaged record marker x file formats (gyrfalcon text, nbody6 OUT3/OUT33/fort.82/fort.83, nbody6++ conf.3) ",
     "Tests only read complete files of finished runs.",
     [LO, "clustertools/io/nbody6.py", "clustertools/io/gyrfalcon.py", "clustertools/io/nbody6pp.py"],
     ["_get_nbody6, _get_nbody6pp, _get_gyrfalcon, Fortran record framing"], "loaded cluster: number of stars, arrays, time",
     "exhaustive enumeration of crash points: every truncation offset and every damaged record marker of a run's files, replayed through the real loaders, against an independent writer",
     "text files are cut at token boundaries only: a cut inside a number is indistinguishable from another number")
prop("C11", "Output files hold the physical cluster and load back unchanged",
     "Every writer (snapout, sseout, gyrout, fortout) puts the physical stars of the cluster in the documented columns and units, whatever units, origin or history the cluster "
     "has, one row per star in the same order, with energies, types and sky positions where asked for; loading the file gives the same physical cluster, and writing does not alter the cluster.",
     ["histories", "configurations"], "all histories up to a depth of conversions, origin moves and additions x all writers x their options, each written file read back",
     "Tests write from a fresh cluster in one unit system and mostly check that a file exists or its first column.",
     [OU, LO, "clustertools/io/snapshot.py", "clustertools/io/gyrfalcon.py"], ["snapout, sseout, gyrout, fortout"], "columns of the written file; cluster loaded from it",
     "bounded explicit-state model checking of the real object over operation histories; at every state all writers are run and the files parsed independently and read back", "depth-bounded")
prop("C12", "A cluster has one physical orbit, however given, stored or followed",
     "The galactocentric position, velocity and time of a cluster are the same physical orbit in whatever units they are supplied, whatever units the cluster is in at that moment, and whatever "
     "conversions follow. Orbit objects initialised from it, and positions interpolated or integrated forward or backward along it (orbital path, and each star's nearest time and distance along it), start "
     "from that phase-space point and follow the named potential, in the cluster's units.",
     ["configurations", "histories"], "all orbit-unit x cluster-unit combinations, all sequences up to a depth of add_orbit/conversion/initialize/interpolate/path calls",
     "Tests give orbits in one or two unit systems and integrate once from a fresh cluster.",
     [OR, CL], ["add_orbit, initialize_orbit(s), interpolate_orbit(s), orbital_path, orbital_path_match"], "orbit attributes, galpy Orbit objects, returned arrays",
     "exhaustive enumeration of unit combinations and operation sequences on the real object against an independent orbit integration", "depth-bounded; MWPotential2014 and a Plummer cluster potential")
prop("C13", "A quantity means the same in every unit system, by every route",
     "Expressing a length, velocity, squared velocity, time, mass, density or surface density given in any of the package's unit systems in any other yields the same physical quantity, directly or through any chain "
     "of intermediate systems, as scalar, array or zero-dimensional array, for any solar radius/velocity and N-body scale. The values passed in are never modified.",
     ["inputs", "histories"], "all kinds of quantity x from-units x to-units x argument forms x scalings, and all chains of conversions up to length 4",
     "Tests convert from one system to a few others, and not all kinds.",
     [UN, OU], ["_convert_length/velocity/square_velocity/time/mass/density/surface_density, _get_grav, gyrout unit factors"], "returned values; arguments afterwards",
     "exhaustive enumeration of conversion chains over the full unit-system product on the real converters against a reference table of units", "chains up to length 4 (thorough), finite product complete")
prop("C14", "Rescaling changes the requested scale and nothing else",
     "Resetting the N-body scale keeps every physical quantity while giving unit mass and unit virial radius in N-body units; virialising multiplies all velocities by one factor so that the requested virial ratio "
     "holds for the current stars, whatever energies were computed before; adding rotation reverses exactly the drawn fraction of retrograde stars' tangential motion. Masses, positions, "
     "centre, orbit, units and origin remain as they were, in every unit system and origin, in any sequence with conversions.",
     ["histories", "configurations"], "all sequences up to a depth of rescaling operations and conversions x all (units, origin) x every outcome of the random draws",
     "Tests rescale a fresh cluster once in one unit system and compare a single factor.",
     [OP, CL], ["reset_nbody_scale, virialize, add_rotation"], "attributes of StarCluster after each operation",
     "bounded explicit-state model checking of the real object, with every outcome of the random draws enumerated, against a reference model in physical units", "depth-bounded; random draws enumerated")
prop("C15", "Binning and sampling recipes count every value exactly once, where it belongs",
     "Every binning of values (equal-number, equal-width, logarithmic and roaming bins) puts each value, including the smallest, the largest and repeated ones, in exactly the bin or bins whose limits contain it, with "
     "the middle and mean values and counts of those members; binned means, medians, dispersions, counts per width and their power-law slope are those of the bins' own members; nearest-neighbour distances are the smallest to any other point; interpolated points lie on the line through the two given. Power-law draws lie within the limits and "
     "follow the stated power law for every slope and every random number. The arguments are not modified.",
     ["inputs"], "all multisets of values from a grid (with ties, extremes, zero and negative values) x bin counts x options; all quantiles of the random draw x slopes x limits",
     "Tests bin one uniform or random sample and look at array lengths or a slope with a loose tolerance.",
     ["clustertools/util/recipes.py"], ["nbinmaker, binmaker, roaming_nbinmaker, roaming_binmaker, mean_prof, x_hist, smooth, dx_function, bin_index, distance, minimum_distance, interpolate, power_law_distribution_function"],
     "arrays returned by the recipes", "exhaustive enumeration of all small inputs (multisets on a grid, all bin counts and options, all draw quantiles) on the real functions against exact definitions",
     "small scope: up to 6 (quick) / 7 values per input plus structured long ones; values equal everywhere and values outside preset bins not claimed")
prop("C16", "Stream stars are matched to the right place on the orbit and the tail path",
     "For every star the time, the distance along and the distance from the orbital path (and the tail path) are those of the point of the cluster's physical orbit (of the path of mean stream positions) nearest the star, in the cluster's units, "
     "in space or on the sky, whatever unit system or origin the cluster is in and restored afterwards. The tail path averages exactly the stars in each time window. Rotating to the tail frame is one and the same rotation "
     "about the cluster for positions and velocities.",
     ["configurations", "inputs"], "all unit systems x origins x stream shapes and orbits x options (time range, number of points, smoothing, sky path, supplied path, solar parameters)",
     "Tests use one stream on one orbit in kpckms and check a handful of lengths or signs.",
     ["clustertools/tidaltail/tails.py", OR, CL, "clustertools/util/coordinates.py"], ["tail_path, tail_path_match, orbital_path_match, to_tail, cart_to_sky"],
     "returned paths and per-star times and distances", "exhaustive enumeration of the configuration product on the real functions against an independent path integration and brute-force matching",
     "dmax on the sky and AMUSE paths not claimed; direction of the tail rotation is a known finding pinned by an existing test")
prop("C17", "Coordinate transformations are exact, invertible and lose no star",
     "Cartesian, cylindrical, spherical and sky coordinates of any position and velocity describe the same physical point and motion: cylindrical and spherical transformations are inverted by their counterparts, preserve "
     "the distance and the speed, and give finite numbers everywhere including on the axes, at the poles and at the origin; sky positions and motions are those seen from the given sun; the spherical and cylindrical components of a cluster's stars are those of its current frame and units.",
     ["inputs", "configurations"], "all positions and velocities on a grid including every degenerate direction x all transformations and their compositions x units and origins",
     "Tests transform one generic point or random stars, which never meet an axis.",
     ["clustertools/util/coordinates.py", OP], ["cart_to_sphere, sphere_to_cart, cart_to_cyl, cyl_to_cart, cart_to_sky, cluster sphere_coords/cyl_coords"],
     "values returned by the transformations", "exhaustive enumeration of a grid of phase-space points, including all degenerate directions, through all chains of transformations of the real code", "grid-bounded")
prop("C18", "Finding the centre finds the physical centre, whatever the frame",
     "Each documented way to find the centre (centre of mass; shrinking-sphere density centre with any starting point, limits and subset; nearest-neighbour density centre; core by sigma clipping) returns the point that definition gives for "
     "the physical stars, in the cluster's present units and origin, the same physical point from every unit system and origin. Setting it makes later moves to the centre put exactly that point at zero, and changes no star's physical position, mass or motion.",
     ["histories", "configurations"], "all sequences up to a depth of centre searches (methods, subsets, starting points), moves and conversions x all unit systems and origins",
     "Tests search once in a symmetric cluster whose centre is at zero.",
     [CL, FN, OP], ["find_centre, find_centre_of_density, find_centre_of_mass, StarCluster._set_centre, reset_centre"],
     "returned centre; cluster attributes; positions after to_centre", "bounded explicit-state model checking (BFS over search/move/convert sequences) of the real object against a physical reference model and independent search definitions",
     "depth-bounded; searches in sky coordinates not claimed")
prop("C19", "A cluster made from particles or an orbit is those particles on that orbit",
     "A cluster made from an astropy table (by standard column names or a column map), AMUSE particles (in memory or saved), galpy orbits, a limepy model, or a user's load function holds exactly the stars of its source: "
     "position, velocity, mass and identifier of each, in the units and origin asked for, whatever options are given; the source is left unchanged. Stars added later, plain or with AMUSE units, between any conversions, are added to "
     "those already there with theirs. A galpy orbit given when creating, loading or advancing a cluster puts it where that orbit is at the cluster's time, in the cluster's units, and its centre is found there.",
     ["inputs", "configurations", "histories"], "all sources x units x origins x column names and orders x options; all sequences up to a depth of adding plain or AMUSE stars and converting; all units x origins x times of a given orbit, loading and advancing",
     "Tests load one table, one AMUSE set and one orbit list in one or two unit systems and check labels and counts, never a given orbit.",
     ["clustertools/io/astropy_table.py", "clustertools/io/amuse.py", "clustertools/io/galpydf.py", "clustertools/io/limepydf.py", LO, CL, UN],
     ["load_cluster, advance_cluster (astropy_table, amuse, galpy, limepy, custom), StarCluster(orbit=), add_stars, _convert_amuse, c_to_w0, w0_to_c"],
     "attributes of the loaded cluster compared star by star with the source", "exhaustive enumeration of sources, configurations and batch histories on the real loaders against the source and a physical reference model",
     "batches up to length 3 (quick) / 4; units attached to table columns are ignored by the package and not claimed; limepy's sampler and galpy's orbit evaluation are trusted")
prop("C20", "A method gives what the function gives, and the cluster remembers it",
     "Calling an analysis as a method of the cluster returns the value the function of that name returns for the same cluster and arguments, with the same defaults, projected defaulting to StarCluster.projected. "
     "The method leaves that value in its documented attribute (trelax, trh, trc, kin, pot, etot, dclosest, argclosest, rn, rv, alpha, eta, meq, ck, rc, rt, rl, orbit, orbits, paths and tails) and changes nothing else about the cluster; "
     "the function sets nothing. Later calls of other analyses neither change a remembered value nor are changed by it. Every conversion and change of origin does the same to the cluster called either way.",
     ["configurations", "histories"], "all methods x their options x StarCluster.projected x projected given or not x units x origins; all ordered pairs of methods; all conversions as method and as function",
     "Tests call methods with default arguments on a cluster that is not projected, and never compare with the function.",
     [CL, FN, OP, OR, TA], ["the StarCluster methods that wrap functions, operations, orbits and tails"], "returned values and every attribute of the cluster",
     "exhaustive enumeration of (method, options, projected, units, origin) and of ordered pairs of methods on the real object, method against function, whole object compared", "call sequences of length 2")
prop("C21", "A figure shows what it says",
     "Every call that draws (plot=True, starplot, skyplot) puts on the axes exactly what it stands for: profiles and functions the radii, masses and values the call returns (their logarithms where labelled so), fitted lines the fit that is returned, "
     "radii and thresholds in the same units as the profile they are drawn over, orbits and tails the path that is returned with the stars in the same frame, star and sky figures the position of every star in the units of the cluster and the centre "
     "in the same frame. Drawing changes neither the values returned nor the cluster; a figure of its own is made unless overplot is asked for, limits and file names are honoured, a unit written on an axis is the unit of the values, and the method draws what the function draws.",
     ["configurations", "inputs"], "all drawing calls x options (projected, normalised, path and sky options, panels, centre, limits, overplot) x units x origins",
     "Tests call a few plotting options and never look at what was drawn.",
     ["clustertools/util/plots.py", FN, PR, OR, TA, CL], ["starplot, skyplot, _plot, _lplot, _scatter and the plot=True branches"], "curves, marks, points and limits on the axes, values returned, state of the cluster",
     "exhaustive enumeration of (drawing call, options, units, origin) on the real code, axes compared with the values returned and an independent placement of stars and centre", "overplot together with a file name, and AMUSE units for other calls than profiles and star figures, are not claimed")
prop("C22", "A named Galactic cluster is the cluster of that name",
     "load_cluster('limepy', gcname=...) for every name in the shipped catalogues, primary or alternate and whatever its case, gives the model its catalogue row describes: by default that of de Boer et al. (2019), "
     "for clusters not listed there that of Harris (2010 edition), or the one named as source. Its mass is the catalogue mass and its truncation radius the catalogue radius, it has the number of stars asked for (N, or mass / mbar), "
     "a King model has the catalogue concentration, the cluster has the orbit galpy holds for that name (or the one given), and the stars are the same in all units and origins. A name in neither catalogue gives an empty cluster.",
     ["configurations", "inputs"], "all catalogue names x spellings x sources; units x origins x ways of giving the number of stars x own orbit for a name of every kind",
     "No test loads a named cluster.",
     ["clustertools/io/limepydf.py", LO, UN], ["load_cluster (limepy, gcname), _get_cluster, c_to_w0"], "attributes of the loaded cluster compared star by star with limepy's sample of the catalogue row and galpy's orbit",
     "exhaustive enumeration of the catalogues and loader configurations on the real loader against the catalogue files", "seven clusters which galpy resolves only over the network are not covered; limepy, galpy's table and the catalogue files are trusted")
prop("C23", "Energies in parallel are the serial energies under every schedule",
     "energies(parallel=True) returns what energies(parallel=False) returns, whatever order and overlap the threads run in: for all stars or some of them (ids, masks), specific or total, projected or not, softened or not, "
     "stars of equal mass or in the same place included, in all units and origins, as function and as method. More generally every loop of the package that is handed to threads (numba prange) gives the same result for every interleaving of its iterations.",
     ["schedules", "configurations"], "all interleavings of the iterations of each parallel loop at every access to shared memory, up to the stated numbers of iterations; all options x units x origins for the calls",
     "No test sets parallel=True, and a race shows only in some schedules of a large cluster.",
     [FN, CL], ["energies, _potential_energy_parallel, _potential_energy_subset_parallel and any function compiled with parallel=True"], "result of the loop body under a controlled scheduler; values returned by the compiled calls",
     "stateless exploration of all interleavings (sleep-set reduction beyond two iterations) of the parallel loops, rewritten from their source into cooperating iterations and validated against the compiled functions; finite product of calls parallel on and off",
     "2 (quick) or 3 iterations in full, 4 or 6 up to equivalence; accesses to one element are atomic; scalar sums are added up by numba; loops that cannot be rewritten are counted as not driven")

prop("C24", "Work on one cluster changes nothing else",
     "Whatever is done to one cluster (conversions, analyses, edits, drawing, loading, advancing) changes no other cluster, also when both were made from the same arrays, table, particles or orbit, and no result of a later call on another: "
     "two simulations read in turn, in any order of steps, and one run read by two clusters, each give every snapshot as it would be alone. The arguments of a call (arrays, masks, numbers given as arrays, lists, tables, orbits, potentials and their settings) are as they were after it "
     "and after anything done to the cluster later, values already returned stay what they were, and editing the star data passed to a cluster afterwards does not change the cluster.",
     ["histories", "configurations"], "every ordered pair of calls on two clusters (each first call in a fresh process), all interleavings of load and three advances of two simulations, every analysis call followed by every other operation, in every unit system and origin of the tier",
     "A unit test uses one cluster at a time and throws its arguments away, so state shared through arrays, module-level caches, open files or potentials is never seen.",
     [CL, FN, "clustertools/cluster/operations.py", "clustertools/io/load.py"], ["add_stars, add_sse, add_bse, add_energies, load_cluster, advance_cluster, sub_cluster, every analysis call"], "bitwise snapshots of everything else before and after; results of calls compared with those in a process without history",
     "explicit enumeration of all ordered pairs of calls and all interleavings of two readers on the real code, with everything outside the transition compared bit by bit before and after",
     "three snapshots, eight simulations, two to four pairs of worlds; header values and actions given as zero-dimensional arrays, and editing returned values, are not covered")
