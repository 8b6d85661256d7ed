prop(
    "C06",
    "A hop's direction follows each endpoint's own mobile and vacancy encoding",
    "For every active site the mobile state and the vacancy state are the positions of the mobile species and of the vacancy (any accepted spelling) in that site's own list of allowed species, or invalid when absent. "
    "An event is forward exactly when its first endpoint holds the mobile state and its second its vacancy state, backward in the mirrored case, and otherwise not executable. "
    "A simulation built with such a table applies it to every event of its library.",
    ["inputs", "configurations"],
    "all site encodings and all endpoint occupations within the bound",
    "Tests use one or two encodings; per-site differences in encoding or reversed events are rarely combined.",
    ["kmcpy/event/hop.py", "kmcpy/event/base.py", "kmcpy/simulator/kmc.py"],
    [("lookup construction", "HopStateLookup.from_active_site_order"), ("direction", "event_direction"), ("annotation", "HopStateLookup.annotate_event_lib")],
    ["event_direction", "HopStateLookup.from_active_site_order", "KMC"],
    "3 sites, codes up to 3 (thorough 4), 8 species labels.",
)
prop(
    "C07",
    "The cluster expansion evaluates to its defining sum over the local environment",
    "A local cluster expansion evaluated for an event equals the constant plus, over all orbits, coefficient times the sum over the orbit's clusters of the product of the site functions of the clusters' sites, read from the event's environment in its stated order. "
    "Sites outside the environment never influence it, evaluation changes no state, and evaluation without parameters, event or state is refused.",
    ["inputs", "configurations"],
    "all occupations and all real coefficients and site-function values, over several cluster sets",
    "Tests compare a few occupations with stored numbers.",
    ["kmcpy/models/local_cluster_expansion.py", "kmcpy/structure/basis.py"],
    [("correlations", "_calc_corr / _calc_state_corr"), ("evaluation", "LocalClusterExpansion.compute"), ("site functions", "ChebyshevBasis.site_basis_values")],
    ["LocalClusterExpansion.compute", "ChebyshevBasis.site_basis_values"],
    "Up to 4 environment sites, clusters up to 4 sites; site functions checked for up to 5 states.",
)
prop(
    "C08",
    "The first matching local barrier rule decides the barrier and the rate",
    "A local barrier model returns the requested property of the first rule, in the order given, whose condition holds for the event in the current state (constant, exact, pattern, state-count and species-count rules over the selected sites), else the default, else it refuses with KeyError. "
    "Its rate is attempt frequency times exp(-barrier/kT) when the hop is possible in either direction and zero otherwise. "
    "A rule that cannot be evaluated (pattern length, unmapped species or state, site out of range) is an error, never a silent non-match.",
    ["inputs", "configurations"],
    "all occupations, barriers, thresholds and counted states, over every rule type, rule order and site selector",
    "Tests exercise single rules on a handful of states; precedence and boundary counts need combinations.",
    ["kmcpy/models/local_barrier_model.py"],
    [("rule matching", "LocalBarrierModel._rule_matches and helpers"), ("evaluation", "LocalBarrierModel.compute / compute_probability")],
    ["LocalBarrierModel.compute", "LocalBarrierModel.compute_probability"],
    "3 rules, 5 sites with 3 states, 8 site selectors; real arithmetic, exp with its product axioms.",
)
prop(
    "C09",
    "Local barrier definitions are validated and survive serialisation",
    "A rule is accepted exactly when it is well formed: non-negative states or documented aliases, at least one non-negative count bound not mixing exact and range, one occupation per distinct site, no duplicate exact entry, numeric properties. "
    "A refused rule leaves the model as it was. "
    "A model rebuilt from its dictionary gives the same value or the same refusal for every state, and an entry recorded from an event and a state matches exactly that event in that local state.",
    ["inputs", "configurations"],
    "all states, thresholds and barriers over the listed rule forms",
    "Tests try one malformed example per kind and one round trip without evaluating the rebuilt model on other states.",
    ["kmcpy/models/local_barrier_model.py"],
    [("validation", "LocalBarrierModel.add_*_rule / add_rule"), ("serialisation", "as_dict / from_dict"), ("recording", "entry_from_event_state")],
    ["LocalBarrierModel.add_rule", "LocalBarrierModel.as_dict", "LocalBarrierModel.from_dict"],
    "3 rules, state codes -2..3, counts -2..3.",
)
prop(
    "C10",
    "A site-energy evaluator always sees the occupations of the simulation",
    "After initialisation and any executed events, the external occupation holds at each mapped external site exactly the mapped value of the simulation's state there, and its initial or fill value elsewhere. "
    "Every evaluation and every applied event passes exactly the endpoints whose external value changes, with true old and new states and values, evaluation alone changes nothing, and energies are returned in meV whatever the declared unit. "
    "Mappings without a valid external site or state value are refused, and a stored model is rebuilt with the same behaviour or refused if its mapping was altered.",
    ["histories", "inputs", "configurations"],
    "all executable histories within the bound, all integer and real state values, several site mappings",
    "Tests use identity mappings and integer values for a single hop.",
    ["kmcpy/models/site_energy.py"],
    [("external mirror", "SiteEnergyModel.initialize_state / apply_event"), ("change list", "SiteEnergyModel.compute")],
    ["SiteEnergyModel.external_occupation", "compute_fn / apply_fn arguments"],
    "4 sites, 3 events, histories of 2 (thorough 3) hops.",
    [("external occupation", "evaluator's copy of the occupations", "SiteEnergyModel.external_occupation")],
)
prop(
    "C11",
    "Each ion's displacement is the sum of its own minimum-image hops",
    "Whatever the hop history, the tracked displacement of every ion is the vector sum of the minimum-image Cartesian vectors of exactly the hops that ion made, and its hop count is their number. "
    "Ions are the sites holding the mobile species at the start, and an event that is not executable changes no record.",
    ["histories", "inputs"],
    "all fractional coordinates, all ion placements and all hop sequences within the bound",
    "Tests follow single hops in one structure; identity mix-ups show only when several ions pass over the same sites.",
    ["kmcpy/simulator/tracker.py"],
    [("trajectory update", "Tracker.update")],
    ["Tracker.displacement", "Tracker.hop_counter"],
    "4 sites, orthogonal and skew cells, up to 2 (thorough 3) hops; coordinates within 0.001 of an exact half-cell separation are excluded (image ambiguous).",
    [("displacement, hop_counter, ion locations", "per-ion records", "Tracker")],
)
prop(
    "C12",
    "Reported transport quantities are the defining formulas of the tracked hops",
    "Mean-squared displacement, jump and tracer diffusivity, conductivity, Haven ratio and correlation factor equal their defining formulas of the tracked displacements, hop counts, ion number, cell volume, charge, temperature, dimension and the time elapsed since tracking began. "
    "A disabled quantity, and a rate without elapsed time, is NaN and affects no other quantity. "
    "The time column and the latest-values summary refer to the simulation clock and the newest row.",
    ["inputs", "histories"],
    "all displacements, hop counts, times and parameters within the bound",
    "Tests compare one stored trajectory; unit, normalisation and offset errors cancel in particular configurations.",
    ["kmcpy/simulator/property.py", "kmcpy/simulator/tracker.py"],
    [("formulas", "compute_transport_properties"), ("rows", "Tracker.sample_properties")],
    ["compute_transport_properties", "Tracker.results", "Tracker.return_current_info"],
    "1-4 ions; parameters symbolic in turn (nonlinear real arithmetic).",
)
prop(
    "C13",
    "Properties are sampled exactly when due and records keep the newest samples",
    "A callback runs, and a row of built-in results is added, exactly at the steps divisible by its step interval and whenever its time interval has elapsed since its last sample, where each missing setting of a callback is taken from the global one. "
    "Each call adds one record with its step, time and value, a record cap keeps the newest in order, and invalid intervals or caps are refused.",
    ["inputs", "histories", "configurations"],
    "all increasing time sequences and positive intervals within the bound, over all combinations of schedules",
    "Tests sample one schedule each with fixed times.",
    ["kmcpy/simulator/tracker.py", "kmcpy/simulator/property.py"],
    [("schedule", "Tracker.sample_properties"), ("records", "Tracker.get_property_records"), ("settings", "Tracker.attach, PropertyPlan.attach, set_global_property_frequency")],
    ["Tracker.sample_properties", "Tracker.results", "Tracker.get_property_records"],
    "4 (thorough 7) consecutive samples.",
)
prop(
    "C14",
    "A failing callback follows its error handler and attachments follow their names",
    "A callback that raises stops sampling with CallbackExecutionError, keeping its cause, unless its error handler returns true; the handler is told of each failure once, only successful samples are stored, a failed sample still counts for the schedule, and other callbacks are undisturbed. "
    "Any sequence of attach, detach, enable, disable and clear leaves exactly the attachments it implies, refusing duplicate, unknown and reserved names; callbacks may make such changes themselves while sampling.",
    ["histories", "faults"],
    "all sequences of failures and management operations within the bound",
    "Tests try single operations and one failing callback.",
    ["kmcpy/simulator/tracker.py", "kmcpy/simulator/property.py"],
    [("dispatch", "Tracker.sample_properties"), ("management", "attach / detach / set_property_enabled / clear_attachments")],
    ["Tracker", "PropertyPlan"],
    "2 callbacks, sequences of 3 (thorough 4) operations.",
)
prop(
    "C15",
    "A run makes the configured passes, excludes equilibration and is reproducible",
    "A run executes equilibration and production passes of as many steps as the structure has mobile-ion sites, and time, hops, displacement, samples and results count production only. "
    "With a seed the whole history is a function of the settings (same seed, same history); without one every run has a random stream of its own. "
    "Results are written once under the given label or the configured name, configured sampling is obeyed, and a second run continues from the reached state, time and step with its own transport statistics.",
    ["inputs", "histories", "configurations"],
    "all rates and all values of the random draws within the bound",
    "Tests run one seed and compare stored totals.",
    ["kmcpy/simulator/kmc.py", "kmcpy/simulator/tracker.py"],
    [("run loop", "KMC.run"), ("seeding", "KMC.run")],
    ["KMC.run", "KMC.simulation_state", "Tracker"],
    "3-site chain with one ion, up to 2 equilibration and 2 production passes.",
)
prop(
    "C16",
    "A saved state is restored exactly, and state files give each site its own value",
    "A checkpoint (JSON or HDF5) restores occupations, time and step exactly, saving changes nothing, and a run resumed from it continues exactly like the uninterrupted run. "
    "Initial-state files, checkpoints and in-memory lists, given for the full supercell or for the active sites only, assign every active site its own value in the simulation's site order. "
    "Any count, shape, suffix or payload that does not fit is refused, never padded or cut.",
    ["inputs", "histories", "crash points"],
    "all occupations, times and steps within the bound, a restart between any two hops, all numbers of values around the valid ones",
    "Tests restore one state; a permuted or truncated restore is visible only for particular occupations.",
    ["kmcpy/simulator/state.py", "kmcpy/structure/active_site_order.py"],
    [("checkpoint", "State.save_checkpoint / load_checkpoint / from_file"), ("site selection", "State.from_file, ActiveSiteOrder.select_occupations")],
    ["State.from_file", "State.load_checkpoint", "State.copy"],
    "1-4 (thorough 8) sites for checkpoints; 4 primitive sites and supercells up to 1x2x3 (thorough 2x2x2) for selections. h5py is not installed here: HDF5 runs on an in-memory stand-in.",
)
prop(
    "C17",
    "The active-site order names exactly the mutable sites, in one order everywhere",
    "The active sites are exactly the images of sites with more than one allowed species, in the order of the supercell; compact and full indices, positions, allowed species and primitive origins all agree and survive storage. "
    "Two settings share a fingerprint exactly when they agree in species, allowed lists and supercell. "
    "A structure is reduced to its active sites in that order whatever the order of its atoms, and indices or values that do not fit, stray atoms or doubled atoms are refused.",
    ["inputs", "configurations"],
    "all placements of 3 species on 4 sites over several mappings and supercells; all subsets of sites; all index and length values around the valid ones",
    "Tests use one structure whose mutable sites happen to be contiguous.",
    ["kmcpy/structure/active_site_order.py", "kmcpy/structure/sites.py"],
    [("order", "ActiveSiteOrder.from_structure_and_mapping"), ("reduction", "ActiveSiteOrder.filter_structure"), ("fingerprint", "_fingerprint")],
    ["ActiveSiteOrder"],
    "4 primitive sites, supercells up to 2x1x2 (thorough 3x1x2).",
)
prop(
    "C19",
    "Occupations count, validate, flip and convert by the meaning of their values",
    "In every representation an occupation counts and lists exactly the sites holding the match or the mismatch value, and accepts exactly the values of its representation; a refused assignment leaves it unchanged. "
    "Flipping exchanges match and mismatch at exactly the named sites, copies and slices are independent, and converting to another representation keeps the match value as match and turns every other state into the mismatch value.",
    ["inputs"],
    "all occupations, values and site choices within the bound, in representations with 2 to 4 states",
    "Tests use two-state examples; third states and refused updates are not sampled.",
    ["kmcpy/structure/basis.py"],
    [("occupation", "Occupation"), ("conversion", "BasisFunction.convert_to")],
    ["Occupation", "BasisFunction"],
    "2-4 (thorough 6) sites.",
)
prop(
    "C20",
    "Structures and occupations describe the same configuration in both directions",
    "Every occupation of a lattice (or supercell of it) becomes the structure with exactly the named species at exactly those positions and no atom on vacancies, and reading such a structure, in any atom order, gives the occupation back. "
    "An atom counts for the template site nearest to it, across cell boundaries, when within the tolerance. "
    "Atoms too far away, doubled atoms, species not allowed on their site, incompatible cells and ill-fitting mappings or occupations are refused.",
    ["inputs", "configurations"],
    "all occupations within the bound over several mappings, representations and supercells; all displacements of an atom along an axis; all explicit mappings",
    "Tests convert a few structures; sublattice mix-ups appear only with several sublattices and supercells.",
    ["kmcpy/structure/lattice_structure.py", "kmcpy/structure/species.py"],
    [("reading", "LatticeStructure.get_occ_from_structure"), ("writing", "LatticeStructure.get_structure_from_occ"), ("supercell", "LatticeStructure.make_supercell")],
    ["LatticeStructure.get_occ_from_structure", "LatticeStructure.get_structure_from_occ"],
    "4 template sites, up to 3 states, supercells up to 24 sites (4 free); equidistant positions and exact tolerance boundaries excluded.",
)
prop(
    "C18",
    "Event generation finds every hop within the cutoff, with its own ordered environment",
    "Generated events are exactly the ordered pairs from a selected start site to a selected end site within the cutoff, across supercell boundaries, each with exactly the active sites within the cutoff as its environment. "
    "All copies of a site list their environment in the same geometric order, and sites with alike surroundings in a matching order; indices are the simulation's active-site indices and the stored library carries dependencies and validates only for its own structure. "
    "Requests without events, with incomparable surroundings or ill-formed selections are refused and nothing is written.",
    ["inputs", "configurations"],
    "all cutoffs 2.2-4.3 Angstrom (one or one per neighbour species) in several cells, supercells and endpoint selections; all images and cells for wrapping",
    "Tests generate one library; boundary-crossing or reordered environments appear only for particular cutoffs and supercells.",
    ["kmcpy/event/generators.py", "kmcpy/structure/neighbors.py", "kmcpy/structure/sites.py", "kmcpy/structure/local_site_order.py"],
    [("generation", "EventGenerator.generate_events"), ("neighbours", "get_cutoff_neighbor_info"), ("wrapping", "normalize_supercell_tuple")],
    ["EventGenerator", "EventLib"],
    "2 cells of 6 sites, supercells up to 3x2x2 (thorough 2x3x3); cutoffs within 1e-4 of a neighbour distance excluded; pymatgen's neighbour search runs concretely, its radius comparison symbolically.",
)
prop(
    "C22",
    "Every setting is kept under its own name, validated, and survives storage",
    "Each of the 23 settings given to a configuration reads back under its own name with its own value, the others keep their previous or default value, and deriving a configuration leaves its source unchanged. "
    "Values outside the documented limits, ill-formed callback and property options, and unknown names are refused however they are given; values inside are accepted. "
    "Writing an input file (JSON, YAML or a section of a YAML workflow file) and reading it restores every setting, keeps other sections, and record files carry no file paths.",
    ["inputs", "configurations"],
    "all values of the numeric settings, all values around each limit, several subsets of overridden settings, all storage forms",
    "Tests set a few options; a swapped, dropped or unvalidated one is not sampled.",
    ["kmcpy/simulator/config.py"],
    [("routing", "Configuration.__init__ / with_*_changes"), ("validation", "SystemConfig / RuntimeConfig"), ("storage", "Configuration.to / from_file")],
    ["Configuration", "SystemConfig", "RuntimeConfig"],
    "7 subsets of overridden settings; one invalid setting at a time.",
)
prop(
    "C21",
    "Cluster expansions hold every cluster once, grouped and matched by congruence",
    "An expansion contains each cluster of one to four environment sites smaller than its cutoff exactly once, and two clusters share an orbit exactly when labels and distances can be superposed. "
    "A matching between clusters is found exactly when one exists, keeps labels, is reported unique exactly when it is, and is the nearest one when the nearest is asked for. "
    "The features read from a structure, whatever its atom order, give with any coefficients the value computed from the corresponding occupation.",
    ["inputs", "configurations"],
    "all cluster cutoffs in three arrangements; all candidate distances (outside a band around the tolerance) for 3 and 4 labelled sites; all occupations of 4 environment sites with any coefficients",
    "Tests build one expansion; wrong grouping needs a symmetric or nearly symmetric arrangement or a particular cutoff.",
    ["kmcpy/structure/cluster.py", "kmcpy/models/local_cluster_expansion.py"],
    [("clusters", "LocalClusterExpansion.build"), ("matching", "ClusterMatcher.match / match_clusters"), ("features", "LocalClusterExpansion.get_occ_corr_from_structure")],
    ["LocalClusterExpansion", "match_clusters"],
    "3-5 sites; distances within 0.008 (matching) of the tolerance boundary excluded; three-state orbits are compared feature by feature, not for symmetry of the decoration.",
)
prop(
    "C23",
    "Fitted parameters bind to their own expansion and survive storage",
    "Coefficients are accepted only with the number, feature identities and environment identity of the expansion they are given to; a refusal leaves the parameters in force unchanged, and the value computed always uses those in force. "
    "Writing a parameter record or a history of fits to JSON, YAML or HDF5 and reading it back restores every field, in the order of the fits. "
    "A stored expansion is read back as the same expansion, and one whose orbits were exchanged or replaced is refused.",
    ["inputs", "configurations", "histories"],
    "all coefficient values and record fields, several alterations of identities, all file forms, histories up to 12 (thorough 101) fits",
    "Tests store one record with matching identities; ordering and type losses appear in other formats and longer histories.",
    ["kmcpy/models/parameters.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/models/base.py"],
    [("binding", "LocalClusterExpansion.set_parameters"), ("record", "LCEModelParameters.to / from_file"), ("history", "LCEModelParamHistory.to / from_file"), ("expansion", "LocalClusterExpansion.as_dict / from_dict")],
    ["LCEModelParameters", "LCEModelParamHistory", "LocalClusterExpansion"],
    "One expansion with 10 orbits over 4 sites; h5py is not installed here and is replaced by a stand-in.",
)
prop(
    "C26",
    "Event libraries survive storage and stay within their structure's index space",
    "A stored event library is read back with every event, its endpoints and its environment in the same order, the same dependencies and the same events per site. "
    "An event naming a site outside the active sites is refused when order information is attached and when a file is read, and a library without order information, in the old form, or for another order of the sites is refused. "
    "After events are added and dependencies generated again, dependencies, statistics and events per site cover every event.",
    ["inputs", "configurations"],
    "all endpoints of one event and an environment site of another over 6 active sites; every index -3..9 at every position",
    "Tests store one library; off-by-one limits and lost or permuted indices need particular events.",
    ["kmcpy/event/base.py", "kmcpy/structure/active_site_order.py"],
    [("storage", "EventLib.as_dict / from_dict / to / from_file"), ("limits", "EventLib.set_index_metadata / validate_index_metadata"), ("growth", "EventLib.add_event / generate_event_dependencies")],
    ["EventLib"],
    "3 events over 6 active sites; JSON files.",
)
prop(
    "C27",
    "Written result files carry exactly what was tracked and sampled",
    "The files written for a run hold each ion's displacement and hop count, the final occupations, every sampled row of every built-in quantity with its unit, and every stored property sample with its step, time and value, nested values included. "
    "They are named by the label (and pass), values not stored appear nowhere, and without samples no sample file is written.",
    ["inputs", "histories"],
    "all displacements, durations, times and values of histories of 2 (thorough 3) hops with 1-3 ions; all rates and draws of a 3-step run",
    "Tests check that files exist; exchanged or rounded columns and lost samples are not compared.",
    ["kmcpy/simulator/results.py", "kmcpy/simulator/tracker.py"],
    [("writing", "Tracker.write_results / write_tracker_results"), ("samples", "property records JSON")],
    ["Tracker.write_results", "KMC.run"],
    "pandas' and numpy's text writers are replaced by stand-ins in the symbolic run (real in the replay).",
)
prop(
    "C28",
    "A stored model is the same model, and damaged or foreign model files are refused",
    "A composite model written to a dictionary or file and read back, directly or through a configuration, gives the same barrier, site energy and rate for every occupation and hop direction, each part with its own coefficients. "
    "A file of another type, without one of its parts, or with coefficients that do not belong to its expansion is refused. "
    "The kind of model stored in the file decides what is built, whatever type is configured, and unknown types are refused.",
    ["inputs", "configurations"],
    "all values of 10 coefficients and constants, all occupations of 4 sites, both directions; 17 kinds of damage; 3 kinds of file under 7 configured types",
    "Tests round-trip one file; exchanged parts or skipped validation need asymmetric parameters.",
    ["kmcpy/models/composite_lce_model.py", "kmcpy/models/base.py"],
    [("storage", "CompositeLCEModel.as_dict / from_dict / to / from_file"), ("validation", "require_model_type"), ("dispatch", "BaseModel.from_config")],
    ["CompositeLCEModel", "BaseModel.from_config"],
    "Expansions over 4 sites; 4 free coefficients per expansion.",
)
prop(
    "C29",
    "A local environment is exactly the mutable sites in the cutoff, in a fixed order",
    "The environment of a site or point holds every periodic image of every mutable site within the cutoff once, at its position relative to the centre, under its compact site number, sorted by the chosen order, with the centre left out exactly when asked. "
    "Two environments have the same identity exactly when their sites agree in order, species and position, and matching one to an equivalent reference pairs sites of equal species and distances and carries their numbers along. "
    "Fixed or malformed centres, unknown orders and sort keys are refused.",
    ["inputs", "configurations"],
    "all cutoffs around several sites and points of a cubic and a skew cell, four orders, centre kept or excluded",
    "Tests use one cutoff in one cell; lost images or unstable order appear at other cutoffs and across boundaries.",
    ["kmcpy/structure/local_lattice_structure.py", "kmcpy/structure/local_site_order.py", "kmcpy/structure/cluster.py"],
    [("selection", "LocalLatticeStructure.__init__"), ("order", "LocalSiteOrder.sort_local_env_sites"), ("identity", "ordered_site_hash"), ("matching", "LocalLatticeStructure.match_with_reference")],
    ["LocalLatticeStructure"],
    "6-site cells; cutoffs within 1e-4 of a site distance excluded; images of an excluded centre site left open; pymatgen's sphere search runs concretely, its radius comparison symbolically.",
)
prop(
    "C24",
    "A fit solves the weighted Lasso problem of the data given, and is stored with it",
    "Coefficients and constant of a fit minimise the weighted squared error plus the L1 penalty (on features of unit norm when normalising) of exactly the energies, weights and features given, and predictions, error and the leave-one-out error follow from that solution. "
    "Fitting data written from structures hold each structure's features, energy and weight in one row, and coefficient, parameter and history files hold the fits in order with the identity of their expansion, which accepts them. "
    "Fits whose fingerprints do not match the features are refused and write nothing.",
    ["inputs", "configurations"],
    "all energies (1-2 of 4 samples) and penalties, weighted or not, with constant features; all energies and weights of 3 structures in 4 configurations",
    "Tests fit one data set; wrong weights, scaling or left-out rows show only for unequal weights, constant features or other penalties.",
    ["kmcpy/models/fitting/fitter.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/models/parameters.py", "kmcpy/io/neb/data.py"],
    [("fit", "LCEFitter.fit"), ("data", "NEBDataLoader.write_fitting_inputs / to"), ("storage", "LCEModelParameters.to / LCEModelParamHistory.to")],
    ["LCEFitter.fit", "LocalClusterExpansion.fit", "NEBDataLoader"],
    "4 samples, 2-3 features. scikit-learn's Lasso iteration is replaced by an exact solution of the same problem (its convergence is not checked); features concrete.",
)
prop(
    "C25",
    "Enumerated environments and NEB endpoints are exactly the allowed ones",
    "Enumeration returns each assignment of allowed species to the varied sites within the cutoff exactly once (up to the limit), of the demanded composition, with matching occupation and structure, the other sites as in the base configuration, and the sites in the order an expansion uses. "
    "NEB endpoints differ in one ion moved from the first site to the vacant second one, every other atom unchanged and in the same order; hops without a common mobile species or a vacancy are refused.",
    ["inputs", "configurations"],
    "all cutoffs, compositions and limits around three centres of a 6-site cell; all occupations and site pairs of 4 mappings",
    "Tests enumerate two sites of two species; periodic images, third species, zero counts and sites without vacancy do not occur in them.",
    ["kmcpy/structure/local_environment_enumerator.py", "kmcpy/structure/lattice_structure.py"],
    [("enumeration", "enumerate_local_environments"), ("endpoints", "generate_neb_endpoint_pair")],
    ["enumerate_local_environments", "generate_neb_endpoint_pair"],
    "5 active sites of 2-3 states; cutoffs within 1e-4 of a site distance excluded; user-supplied pymatgen transformations not covered.",
)
prop(
    "C30",
    "A simulation built from a configuration is the one its files describe",
    "A simulation built from structure, event, model and state files has exactly the described supercell's active sites and occupations (given for active or all sites, in a file or in memory), and gives every event the rate of its own endpoints and environment under the file's model and the configured temperature and attempt frequency. "
    "Event files of another supercell or mapping, states of wrong length, and configurations without mapping, state or usable callbacks are refused. "
    "Configured sampling intervals and property callbacks reach the run.",
    ["inputs", "configurations"],
    "all occupations, 8 coefficients, attempt frequency, two temperatures and four ways to give the state; several mismatched files; all sampling intervals",
    "Tests run one shipped example; exchanged files, shifted occupations or dropped settings still run and give plausible numbers.",
    ["kmcpy/simulator/kmc.py", "kmcpy/models/base.py", "kmcpy/event/base.py", "kmcpy/structure/active_site_order.py"],
    [("construction", "KMC.from_config"), ("validation", "EventLib.validate_index_metadata")],
    ["KMC.from_config"],
    "2x1x1 supercell of a 4-site cell, 6 active sites, 3 events, composite model; CIF parsing itself runs concretely.",
)
prop(
    "C31",
    "A CIF row becomes its distinct symmetry images, each with the row's metadata",
    "Reading a CIF turns every labelled row of positive occupancy into exactly its distinct images under the file's symmetry operations, each inside the unit cell, with the row's species, occupancy and label, numbered from zero per row and consecutively over the file. "
    "Rows that share a position, directly, through a symmetry operation or within the site tolerance, become one site carrying both species and both labels, and rows of zero occupancy leave nothing.",
    ["inputs", "configurations"],
    "all positions on a 1/64 grid over three cells, for up to three rows and four sets of symmetry operations",
    "Tests read one or two files and count sites; special positions, wrapped or negative coordinates and rows meeting through symmetry are not combined.",
    ["kmcpy/io/cif.py"],
    [("rows", "_LabeledCifParser._get_labeled_structure"), ("images", "_LabeledCifParser._unique_coords"), ("numbers", "_LabeledCifParser.str2float")],
    ["load_labeled_structure_from_string", "load_labeled_structure_from_cif"],
    "Coordinates on a 1/64 grid (a row optionally displaced by 2**-15), orthogonal cell; pymatgen's own CIF tokeniser and symmetry-operation parser run as they are, its periodic coordinate search and Structure are stand-ins in the symbolic run and real in replays.",
)
