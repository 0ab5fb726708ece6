"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})
PY = "uxsim/uxsim.py"; CPP = "uxsim/trafficpp/traffi.cpp"; WR = "uxsim/uxsim_cpp_wrapper.py"
AN = "uxsim/analyzer.py"; BI = "uxsim/trafficpp/bindings.cpp"
STEST = ("The reliably runnable tests build a few fixed C++ networks and compare loose aggregate numbers (averages within a "
         "few percent); none looks at every step, link and vehicle, and none ranges over networks, demand and options. ")

prop("C01", "Vehicles are conserved and every count agrees with where vehicles are",
 "At every time step of every simulation, in either engine, each vehicle (platoon) of the scenario is in exactly one place: not yet departed, queued at its origin, on exactly one link, finished, or aborted; none is lost, duplicated or resurrected. "
 "For every link, cumulative arrivals and departures never decrease, move only in whole platoons, and their difference equals the platoon size times the number of vehicles on the link, and over the whole network entries, exits, transfers and vehicles still present balance. "
 "Reported totals (trips generated, trips completed, vehicles on a link or in its queue) equal what counting the vehicles themselves gives.",
 ["inputs", "histories"], "every network, demand pattern, signal plan, option set and every time step of the run, for both engines",
 STEST + "A vehicle lost or double counted in a rare merge, abort or multi-lane situation moves such averages by less than their tolerance.",
 [PY, CPP, WR],
 [("insertion of departing vehicles", "Node.generate in uxsim.py / Node::generate in traffi.cpp"), ("link-to-link transfer", "Node.transfer / Node::transfer"),
  ("trip end", "Vehicle.end_trip / Vehicle::end_trip"), ("cumulative curves", "Link.update / Link::update")])
prop("C02", "Vehicles on a link keep order, spacing, speed limit and direction",
 "At every time step, in either engine, a vehicle's position on its link lies within the link, never moves backwards, and never advances within a link faster than its free-flow speed allows (when it passes to the next link it keeps at most one step's travel). "
 "Vehicles in the same lane keep the order in which they entered and stay at least one jam-spacing of a platoon apart, and vehicles leave a link in the order in which they entered it. "
 "A vehicle with nothing ahead of it within reach travels exactly at free-flow speed, and otherwise moves exactly as far as its leader's spacing permits.",
 ["inputs", "histories"], "every network, lane count, demand pattern and time step, including links whose parameters are changed while vehicles are on them",
 STEST + "They cannot see two vehicles overlapping or overtaking for a few steps behind a merge or a lane drop.",
 [PY, CPP],
 [("simplified car following (Newell)", "Vehicle.carfollow in uxsim.py / Vehicle::car_follow_newell in traffi.cpp"), ("position carried over the node", "move_remain handling in Node.transfer / Node::transfer"),
  ("entry spacing check", "Node.generate and Node.transfer")])
prop("C03", "Flow capacities of links and nodes are never exceeded",
 "In either engine, over every time interval of a run, the number of vehicles entering a link never exceeds its inflow capacity times the interval, the number passing from it to another link never exceeds its outflow capacity times the interval (vehicles ending their trip on the link are not limited by it), and the number crossing a node with a flow capacity never exceeds that capacity times the interval, each up to a fixed allowance of one step's discretisation and platoon size. "
 "This also holds after a capacity is changed during the simulation, and a link or node whose capacity is set to zero lets nobody pass. "
 "When such a limit is the only bottleneck and vehicles are queued, traffic passes at exactly that rate in the long run.",
 ["inputs", "histories"], "every capacity value relative to platoon size and step length, lane counts, merge/diverge layout, demand and run-time change",
 STEST + "Only a few round capacities are tried; leaks through token-bucket rounding, multi-lane crossings, or a path which forgets to spend capacity need arbitrary intervals and values to be seen.",
 [PY, CPP, WR],
 [("link capacity allowance", "Link.in_out_flow_constraint / Link::update"), ("node capacity allowance", "Node.flow_capacity_update / Node::flow_capacity_update"), ("spending of allowances", "Node.generate, Node.transfer / Node::generate, Node::transfer")])
prop("C04", "Traffic signals follow their plan and a red light stops traffic",
 "In either engine, the phase shown by every signalised node at every time step is the one prescribed by its phase durations and offset (a phase is left at the first step at which more than its duration has elapsed), also for offsets beyond or below a cycle and after the plan is replaced during the run. "
 "While a phase is shown, no vehicle crosses the node from a link whose signal groups do not include it, and a node without signal never blocks anyone. "
 "The recorded signal log states, for each step, the phase that actually governed that step.",
 ["inputs", "histories"], "every phase list (1 to many phases, durations not multiples of the step), offset, signal-group assignment, network and step, for both engines",
 STEST + "They use one or two fixed plans and check only mean delays.",
 [PY, CPP, WR],
 [("phase advance", "Node.signal_control / Node::signal_update"), ("initial phase from offset", "Node.__init__ / Node constructor and CppNode"), ("group test at transfer", "Node.transfer / Node::transfer"), ("replacement of a plan", "Node.override_signal / CppNode.override_signal")])
prop("C05", "Each trip has a legal life, and its records describe what happened",
 "In either engine every vehicle passes only forward through waiting at home, queued at origin, running, and then ended or aborted; it enters the network at its origin, moves along a connected chain of links, ends only at its destination (or, when it is aborted, at a node from which its trip cannot continue), and is never started before its departure time. "
 "Its log (time, state, link, position, speed, spacing, lane), its link-by-link travelled route with times, its arrival time, travel time and distance all tell one consistent story that matches what an observer sees by watching it step by step. "
 "A vehicle that can reach its destination is never recorded as aborted, and one that ended is never recorded otherwise.",
 ["inputs", "histories"], "every vehicle of every scenario, including unreachable destinations, dead ends, identical origin and destination, multi-destination trips and unfinished trips",
 STEST + "Individual records are looked at for at most one or two hand-made vehicles.",
 [PY, CPP, WR],
 [("state machine of a vehicle", "Vehicle.update / Vehicle::update"), ("trip end and abort", "Vehicle.end_trip / Vehicle::end_trip"), ("log writing", "Vehicle.record_log / Vehicle::record_travel... and CppVehicle log views"), ("travelled route", "Vehicle.traveled_route / CppVehicle.traveled_route")])
prop("C06", "Demand definitions generate exactly the trips they describe",
 "For every demand definition (single origin-destination, by coordinates, by area, by node lists, their volume-conserving variants, and explicit vehicles) each generated trip goes from an allowed origin to an allowed destination, departs within the stated period, carries the stated attribute, and the number of generated vehicles equals flow times duration (or the stated volume) up to one platoon per origin-destination pair; a time-varying pattern given by several definitions is the sum of its parts. "
 "Departures are evenly spread at the stated rate: at any moment within the period the number departed so far differs from rate times elapsed time by less than one platoon. "
 "Vehicles that find room and capacity enter the network at their departure time in departure order, in either engine.",
 ["inputs", "configurations"], "every flow, volume, period (not multiples of the step), platoon size, reaction time, set of origins/destinations and mixture of definitions",
 "The tests use round flows and periods with one platoon size and compare a total within tolerance; rounding at period ends, tiny flows, overlapping areas and platoon remainders need generated values.",
 [PY, WR, CPP],
 [("accumulating generator", "World.adddemand / add_demand in traffi.cpp"), ("area and node-list variants", "World.adddemand_area2area(2), adddemand_nodes2nodes(2), adddemand_point2point and the CppWorld counterparts"), ("departure", "Node.generate")])
prop("C07", "Route search finds least-cost routes and drivers tend to take them",
 "At each route-update time, for every pair of nodes, the travel cost and next hop kept by the simulator are those of a true least-cost path for the current instantaneous link travel times, tolls (or penalties) and closed links, in either engine (between two nodes joined by several parallel links the average cost of these links counts, and the pair is closed when one of them is). "
 "Without randomness, a lone driver in an uncongested network follows a least-cost route from origin to destination, avoids closed links whenever an open route exists, and pays the toll exactly when the toll route is still the cheaper one. "
 "Learned link preferences always remain a convex mixture of the previous preferences and the current best choice, with the configured weight.",
 ["inputs", "histories"], "every strongly or weakly connected network with parallel links, zero or huge tolls, time-dependent tolls, closed links, and every update time",
 STEST + "A wrong next hop for a rare pair, parallel link or unreachable node is invisible in aggregate results.",
 [PY, CPP, WR],
 [("all-pairs search", "RouteChoice.route_search_all / World::route_search_all"), ("preference update", "RouteChoice.homogeneous_DUO_update, Vehicle.route_pref_update / World::homogeneous_DUO_update"), ("choice at a node", "Vehicle.route_next_link_choice / Vehicle::route_next_link_choice")])
prop("C08", "Route constraints given for a vehicle are obeyed",
 "In either engine, a vehicle with an enforced route travels exactly that sequence of links whenever the route is a valid connected route from its origin to its destination. "
 "A vehicle told to avoid links never enters one while another usable outgoing link exists, and one told to prefer links takes a preferred link whenever one is available at a node. "
 "With acyclic routing switched on, no vehicle visits the same node twice unless every way forward has been visited.",
 ["inputs", "configurations"], "every network, enforced route, preferred/avoided link set (overlapping, empty, covering all exits), option set and traffic condition",
 "At most two fixed vehicles on one fixed network have constraints in the tests; interaction with congestion, route updates, origin insertion and parallel links is not reached.",
 [PY, CPP, WR],
 [("enforcement", "Vehicle.enforce_route, Node.generate, Vehicle.route_next_link_choice / Vehicle::enforce_route"), ("prefer/avoid filters", "Node.generate, Vehicle.route_next_link_choice"), ("acyclic mode", "World(no_cyclic_routing=True)")])
prop("C09", "Same scenario and same seed give exactly the same simulation",
 "Building the same scenario twice with the same random seed and running it gives identical trajectories, counts, routes and statistics in either engine, in the same process or another one, whatever other simulations ran, are built or run interleaved, and whatever was drawn from Python's or NumPy's global random generators in between. "
 "With deterministic mode on, the result does not depend on the seed at all when no random route noise is used. "
 "Two worlds never share state.",
 ["inputs", "histories", "schedules"], "every scenario, seed, and every interleaving of several worlds in one process",
 "The tests never run two worlds interleaved, and compare seeds only through averages.",
 [PY, CPP, WR],
 [("per-world generator", "World.rng / World::rng"), ("deterministic mode", "hard_deterministic_mode in Node.generate, Node.transfer and route choice"), ("mutable defaults and class attributes", "World, Node, Link, Vehicle constructors")])
prop("C10", "Running in pieces equals running in one go",
 "Executing a simulation through any sequence of partial executions (until a time, for a duration, step by step, with any mixture of the argument styles) gives exactly the same trajectories, counts and statistics as one uninterrupted execution, in either engine. "
 "A partial execution stops at the step it was asked for, the clock never goes back, an already terminated simulation stays unchanged when executed again, and the simulation always ends exactly at its configured end. "
 "The return value and the ongoing flag tell truthfully whether the simulation has finished.",
 ["histories", "inputs"], "every sequence of partial executions with arbitrary (non-multiple) times over every scenario",
 "Tests split a run at most at one or two round times.",
 [PY, WR, CPP],
 [("main loop with resumption", "World.exec_simulation / CppWorld.exec_simulation, World::main_loop"), ("termination", "World.simulation_terminated, check_simulation_ongoing")])
prop("C11", "Traffic follows kinematic-wave theory",
 "On every corridor (and on merges and diverges of it) the simulated cumulative arrival and departure counts agree, within the discretisation of platoon and step, with the exact kinematic-wave (Newell) solution: free-flow traversal time, discharge at the bottleneck capacity, queue length and delay, backward-wave speed and jam density on every link. "
 "In particular the capacity, backward wave speed and jam density derived for a link from free-flow speed, jam density per lane, lane count and reaction time obey the triangular fundamental diagram and bound what is observed. "
 "Halving the step and platoon size does not worsen agreement, in either engine.",
 ["inputs"], "every link parameter set, lane count, bottleneck strength and position, demand profile, platoon size and reaction time",
 "The tests check a handful of numeric corridors at one resolution.",
 [PY, CPP],
 [("fundamental diagram derivation", "Link.__init__ / Link::Link"), ("car following", "Vehicle.carfollow / Vehicle::car_follow_newell"), ("node model", "Node.transfer / Node::transfer")])
prop("C12", "The C++ engine reproduces the Python engine",
 "For every scenario both engines support, in deterministic mode and without random route noise, the C++ engine produces the same vehicle trajectories and states at every step, the same link counts and travel times, the same routes and arrival times, and the same public statistics as the Python engine. "
 "Constructors, demand functions, getters, lookups, error behaviour for unknown names, and derived parameters of the two engines agree in value for the same arguments. "
 "Results read through the C++ engine's Python interface do not depend on when or in which order they are read.",
 ["inputs", "configurations"], "every scenario in the common feature set, at every step, and every public accessor",
 "The tests compare at most averages of some fixed scenarios within wide tolerances.",
 [PY, WR, CPP, BI],
 [("C++ engine", "traffi.cpp"), ("compatibility layer", "uxsim_cpp_wrapper.py"), ("bindings", "bindings.cpp")])
prop("C13", "Results of the C++ engine do not depend on the number of threads",
 "For every scenario, seed and option set the C++ engine gives bit-identical trajectories, counts, travel times, route tables and statistics for every number of threads. "
 "This includes batch operations offered by the engine (route enumeration, route assignment, swap decisions, log export).",
 ["schedules", "inputs"], "every scenario, thread count and thread interleaving",
 "Thread races show only on particular schedules and networks large enough to pass the parallel thresholds; tests use one default thread count.",
 [CPP, WR, "uxsim/trafficpp/dta_solver.cpp"],
 [("parallel loops", "World::main_loop, route_search_all and other OpenMP regions in traffi.cpp")])
prop("C14", "No input makes the C++ engine corrupt memory or misbehave undefinedly",
 "Any sequence of calls to the C++ engine (building a network and demand, running by pieces, changing parameters and enforcing routes during the run, querying logs, curves, routes and externalities at arbitrary times, tearing down) either works or raises an ordinary error. "
 "It never reads or writes outside its data, uses freed memory, overflows, or crashes the process.",
 ["programs", "inputs"], "every sequence of API calls with in-range and out-of-range arguments, empty networks, zero demand and extreme values",
 "Memory errors only show under a sanitizer and on unusual sequences; the tests run without one.",
 [CPP, "uxsim/trafficpp/dta_solver.cpp", "uxsim/trafficpp/traffi.h", "uxsim/trafficpp/utils.h"],
 [("indexing of per-step arrays", "Link::, Vehicle:: and World:: accessors in traffi.cpp"), ("object ownership", "World destructor")])
prop("C15", "Saved scenarios load back as the same scenario",
 "Saving a scenario to a file and loading it gives a world with the same nodes, links (all parameters, including signals, capacities, priorities, tolls and attributes) and demand, and running it gives exactly the same simulation as the original. "
 "Loading only the network, or only the demand onto an equal network, restores exactly that part; saving twice gives the same scenario. "
 "A network and demand read from CSV files equals the one built by the corresponding calls.",
 ["inputs"], "every buildable network and demand, including explicit vehicles, default and non-default optional parameters, and objects referenced by name or by object",
 "One or two fixed scenarios are saved in the tests, and fields left at their default or set to unusual values are not compared.",
 [PY, "uxsim/scenario_reader_writer.py"],
 [("recording of construction calls", "World.dict_* / save_scenario in scenario_reader_writer.py"), ("CSV reading", "World.generate_Nodes_from_csv, generate_Links_from_csv, generate_demand_from_csv")])
prop("C16", "A copied or saved world continues exactly like the original",
 "Copying a world, or saving it to a file and loading it, at any moment of the simulation yields an independent world that, when continued, evolves exactly like the original would. "
 "Running or changing the copy never affects the original, and vice versa. "
 "Logs, statistics and pending demand survive unchanged.",
 ["crash_points", "inputs", "histories"], "every scenario and every moment of a run at which a copy or snapshot is taken",
 "Tests take a snapshot at one fixed time in one scenario.",
 [PY, "uxsim/utils.py"],
 [("deep copy", "World.copy"), ("serialisation", "World.save and load_world")])
prop("C17", "Reported trip statistics equal a recount from the raw trips",
 "The basic statistics and every trip-level report (vehicles, trips, origin-destination, area-to-area, vehicle groups, links) equal what an independent recount from the individual vehicles' logs gives: numbers of trips generated and completed, total and average travel time, delay, distances, free-flow travel times and shortest distances per origin-destination pair, and link volumes, remaining vehicles and travel times. "
 "Every report covers exactly the trips or links it should, aborted and unfinished trips are treated as documented, and repeated or reordered report calls give the same answer.",
 ["inputs", "histories"], "every finished or partially run scenario with completed, unfinished and aborted trips, parallel links and several origin-destination pairs, for both engines where offered",
 "Tests check that reports can be produced, or compare totals of one scenario.",
 [AN],
 [("aggregation", "Analyzer.basic_analysis, od_analysis, link_analysis_coarse"), ("tables", "Analyzer.*_to_pandas")])
prop("C18", "Traffic-state estimates conserve vehicle time and distance",
 "The space-time traffic states of links follow Edie's definitions: for every link, summing density times cell area and flow times cell area over all cells gives the total time spent and total distance travelled by the vehicles on it, speed is flow divided by density, and density never exceeds jam density nor flow the capacity beyond discretisation. "
 "Macroscopic fundamental diagram and area-level values equal the corresponding sums over their links, for any set of links and any aggregation interval. "
 "Cumulative-count based link statistics agree with the trajectories.",
 ["inputs", "histories"], "every scenario, cell size, aggregation interval and link subset",
 "Tests only compare a few averaged values on one link.",
 [AN],
 [("Edie states", "Analyzer.compute_edie_state, compute_accurate_traj"), ("MFD and areas", "Analyzer.compute_mfd, mfd_to_pandas, area_to_pandas")])
prop("C19", "Time-dependent link and route queries agree with the recorded curves",
 "In either engine, for any query time within the simulated period, link arrival and departure counts, number of vehicles, inflow, density, flow, speed, instantaneous and actual travel times return what the cumulative curves and vehicle passages recorded for that time imply. "
 "The actual travel time reported for a link at an entry time is the one really experienced by the vehicle that entered then, and a route's actual travel time is the chained sum over its links, with each link entered when the previous one is left. "
 "Queries outside the simulated period saturate instead of failing or wrapping around.",
 ["inputs", "histories"], "every query time (negative, fractional, beyond the end), link, route and scenario",
 "Tests query a few times on one link.",
 [PY, WR, CPP],
 [("queries", "Link.arrival_count ... average_flow, Route.actual_travel_time / CppLink, CppRoute"), ("travel-time recording", "traveltime_actual writes in Node.transfer and Vehicle.end_trip / Link::set_travel_time")])
prop("C20", "Networks are built as described and looked up reliably",
 "Each node, link and vehicle added to a world is registered once with the given parameters, connects the given nodes, has the parameters derived by the documented formulas, and can be found by name, object, coordinates or area, in either engine. "
 "Duplicate names are rejected, or made unique when automatic renaming is requested, and unknown names, contradictory or invalid arguments are reported as errors and leave nothing half-built. "
 "Changing free-flow speed or jam density at run time updates all derived parameters consistently.",
 ["inputs", "histories"], "every sequence of construction and lookup calls with valid and invalid arguments, for both engines",
 "Tests add well-formed elements with default options only.",
 [PY, WR, CPP],
 [("construction", "Node.__init__, Link.__init__, Vehicle.__init__ and C++ counterparts"), ("lookup", "World.get_node, get_link, get_nearest_node, get_nodes_in_area"), ("run-time change", "Link.change_free_flow_speed, change_jam_density")])
prop("C21", "No traffic is held back without a cause, and merges share by priority",
 "In either engine, a vehicle standing at the end of its link, or queued at its origin, is let through in the step unless one of the stated causes applies: red signal, vehicles ahead of it, no room on the next link, or exhausted capacity of link or node. "
 "When links compete for the same saturated outgoing link, their shares follow the merge priorities, a link with zero priority yields only to competitors with positive priority, and no capacity is left unused while someone may use it. "
 "In deterministic mode the link with the highest priority always goes first.",
 ["inputs", "histories"], "every intersection layout, priority vector, lane numbers, capacity and queue state at every step",
 STEST + "Unjustified blocking of one approach in rare configurations merely looks like slightly more congestion.",
 [PY, CPP],
 [("node model", "Node.transfer / Node::transfer"), ("origin insertion", "Node.generate / Node::generate")])
prop("C22", "Taxi services serve each request once, in order, with a real vehicle",
 "Under any taxi assignment strategy and request sequence every trip request is assigned to at most one vehicle, which then visits the request's origin before its destination; a passenger is carried only by the vehicle assigned, and never before the request exists. "
 "Pick-up and drop-off times recorded match the vehicle's own movement, requests not served are still listed as waiting, and the reported numbers (requests, completed, waiting and travel times) equal a recount. "
 "Vehicles that carry nobody stay available and no vehicle serves more passengers at once than its capacity allows.",
 ["inputs", "histories"], "every network, fleet size, capacity, request pattern and moment of assignment",
 "Tests run one grid scenario and compare the number of completed trips.",
 ["uxsim/TaxiHandler/TaxiHandler.py", PY],
 [("assignment strategies", "TaxiHandler_nearest, _random, _random_pickup... in TaxiHandler.py"), ("request life cycle", "TripRequest.get_on / arrive events and Vehicle.add_dest")])
prop("C23", "The past never depends on the future, and changes act when they are made",
 "In either engine, two scenarios that are equal up to some time (same network, earlier demand, tolls and interventions) evolve identically up to that time, whatever later demand, tolls, closures or parameter changes follow. "
 "An intervention made during the run (capacity, signal, speed, closure, added demand or vehicle) affects only what happens from that time on, and takes effect at once. "
 "Extending the simulation horizon does not change anything before the old horizon.",
 ["histories", "inputs"], "every scenario, cut time and set of later events",
 "Tests never compare the common past of two different futures.",
 [PY, CPP, WR],
 [("time-indexed data (tolls, curves, signal)", "Link.get_toll, RouteChoice.route_search_all / toll_timeseries in traffi.cpp"), ("main loop order", "World.exec_simulation / World::main_loop")])
prop("C24", "Traffic assignment solvers return valid assignments of the same demand",
 "Each solver of user equilibrium or system optimum, in pure Python and C++-backed form, returns a solution world with exactly the trips (origin, destination, departure time) of the given scenario, each driven along a valid route from its origin to its destination chosen from the enumerated candidates. "
 "The number of iterations and logged quantities (total travel times, swaps, gaps, costs, routes) match what recomputing them from the simulated worlds gives, and the returned solution is the one the solver promises (last or best). "
 "With zero swap probability routes never change, and given the same seed the result is the same.",
 ["inputs", "histories"], "every scenario builder, iteration count, swap probability and candidate-route set",
 "Tests solve one small network and look whether costs go down.",
 ["uxsim/DTAsolvers/DTAsolvers.py", "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py", "uxsim/trafficpp/dta_solver.cpp"],
 [("iterated swaps", "SolverDUE.solve, SolverDSO_D2D.solve, SolverDSO_GA, SolverDSO_ALNS"), ("C++ kernels", "route_swap_due, route_swap_dso in dta_solver.cpp")])
prop("C25", "Route enumeration and graph utilities return true shortest routes",
 "Route enumeration helpers return valid loop-free routes between the requested nodes, without duplicates, in order of increasing cost, and the first k enumerated are the true k shortest ones; with randomised enumeration every returned route is valid. "
 "Shortest-path cost and distance utilities, static and at a given time, equal brute-force results on the same network, for single pairs and whole matrices. "
 "Time-space-network path search never travels back in time and agrees with recorded link travel times.",
 ["inputs"], "every network (with unreachable pairs, parallel links, ties), k, and query time",
 "Tests use one or two small networks with a known answer.",
 ["uxsim/Utilities/Utilities.py"],
 [("enumeration", "enumerate_k_shortest_routes(_on_t), enumerate_k_random_routes"), ("distances", "get_shortest_path_distance_between_all_nodes and relatives"), ("time space network", "construct_time_space_network, dijkstra_with_distance_to_go")])
prop("C26", "Imported street networks are simplified without changing connectivity",
 "Post-processing an imported street network (merging close nodes, removing isolated or dead-end parts, enforcing two-way connectivity, converting to a world) yields a well-formed network: every link joins two existing distinct nodes, lengths are positive, and attributes such as lanes and speed are those of the input. "
 "Nodes are merged only when they are closer than the threshold, every surviving link of the input is represented, and nodes that were mutually reachable through surviving parts remain so. "
 "Building a world from the processed network creates exactly its nodes and links with those attributes.",
 ["inputs"], "every input node/link table, coordinates, thresholds and option set (network download excluded)",
 "The importers' tests need the Internet, so nothing covers them here.",
 ["uxsim/OSMImporter/OSMImporter.py", "uxsim/OSMImporter2/OSMImporter2.py"],
 [("post-processing", "OSMImporter.osm_network_postprocessing, osm_network_to_World, OSMImporter2 counterparts")])
prop("C27", "The large-neighbourhood optimiser reports a true best solution",
 "For every objective function, domain and starting point, the adaptive large neighbourhood search returns a solution inside the declared domain whose reported objective is the function's value at that solution, never worse than the starting point, and equal to the best of all evaluations it made. "
 "The evaluation history it records is exactly the sequence of evaluations, the best-so-far curve is monotone, and its starting point and the caller's data are not modified. "
 "The same seed gives the same search.",
 ["inputs"], "every objective function, domain sizes, initial solution, parameters and seed",
 "There is no test that looks at the optimiser itself on varied functions.",
 ["uxsim/DTAsolvers/ALNS.py"],
 [("search loop", "ALNS functions in uxsim/DTAsolvers/ALNS.py")])
prop("C28", "Watching, logging and analysing a simulation never changes it",
 "Logging level, printing, progress display, and any analysis, table, query or scenario-summary call made before, during or after the run leave the evolution of the simulation exactly as it would have been without it, in either engine. "
 "Repeating such a call, or making others before it, returns the same answer.",
 ["histories", "configurations"], "every scenario, every set of observation options and every sequence and time of observation calls",
 "Tests call each analysis once at the end of the run.",
 [PY, AN, WR, CPP],
 [("log modes", "vehicle_logging_timestep_interval, save_mode, print_mode, show_progress, vehicle_log_mode"), ("lazy computations", "Analyzer.compute_accurate_traj, compute_edie_state; CppVehicle log caches")])
prop("C29", "User-defined hooks run exactly when promised",
 "Every user function attached to a world, node, link or vehicle is called exactly once per time step in which that object is active, with that object as its argument, and sees the state of that step. "
 "A hook that does nothing leaves the simulation unchanged, and what a hook changes takes effect in the same way as the same change made between partial executions. "
 "User attributes are kept with their object and never touched.",
 ["histories", "inputs"], "every combination of hooks, scenario and step, in the Python engine",
 "Tests attach one hook in one scenario.",
 [PY],
 [("hook calls", "World.exec_simulation, Node.update, Link.update, Vehicle.update")])
prop("C30", "Names, coordinates, attributes and the unit of length are immaterial",
 "Renaming nodes, links and vehicles, shifting node coordinates, or attaching attributes changes nothing but those labels in the result, in either engine. "
 "Measuring length in another unit (scaling all lengths and speeds up and jam densities down by the same power of two) gives exactly the same times, counts and routes with scaled positions, and likewise measuring time in another unit gives the same simulation with scaled times. ",
 ["inputs", "configurations"], "every scenario, renaming and scaling",
 "No test compares two equivalent scenarios.",
 [PY, CPP],
 [("hidden constants and name-dependent ordering", "everywhere in uxsim.py and traffi.cpp")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
print(len(P))
