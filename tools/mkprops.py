import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
HC="src/hc_cc_state_space/"
ALLQ="get_distance, get_controls, get_path, get_path_with_covariance, integrate, integrate_with_covariance, interpolate"
p("C01","Concurrent queries return exactly what they return alone",
 "Any number of threads may use one shared state space object (of any of the 13 types), or objects of their own, for const queries (%s) at the same time. In every interleaving each query returns, bit for bit, the result it returns when it runs alone, and every query completes."%ALLQ,
 ["schedules"],"every interleaving of the memory accesses of 2 to 4 threads issuing const queries against shared and private state spaces",
 "The tests are single threaded; nothing in them ever interleaves two queries. The upstream code kept per-call scratch values in a helper shared by all callers of a state space, which no test can notice.",
 [HC+"*.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp","src/filter/ekf.cpp","src/utilities/utilities.cpp"],
 [("const queries touch only locals and per-thread scratch",HC+"cc00_dubins_state_space.cpp (and the 8 sibling path family helpers)"),("Fresnel tables are constant data","include/steering_functions/utilities/fresnel.data")],
 [dict(name="distance, angle",meaning="per-call scratch of the path families",where=HC+"*_state_space.cpp")],["return values of the const queries"])
p("C02","Results depend only on arguments and configuration, never on history",
 "The result of a query is a function of its arguments, the construction parameters of the state space and the filter parameters last set on it. It does not depend on which queries ran before (on this or any other state space object, of the same or another type or configuration), on queries that failed, on objects created or destroyed in between, or on what memory held before the call.",
 ["histories","fault_sequences","configurations"],"every history of constructions, queries, filter parameter changes, failed queries and destructions across several state spaces in one process",
 "The tests use one fixed set of global state spaces with one configuration each, compare with tolerances, and never re-ask a question after others; any memoisation keyed on too little, leftover scratch or uninitialised output passes.",
 [HC+"*.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp","src/filter/ekf.cpp"],
 [("all intermediate values are recomputed in each call",HC+"*_state_space.cpp"),("outputs are fully initialised","integrate / interpolate of the three base implementations")],None,["return values of all public queries"])
p("C03","Running out of memory is reported and leaves every state space usable",
 "If an allocation fails at any point of a construction or query, that call ends with std::bad_alloc: it does not crash, hang, throw anything else or return a value that differs from the regular one. Afterwards the same and all other state spaces answer every query exactly as if the failed call had never been made, and a retry succeeds as soon as memory is available.",
 ["fault_sequences","crash_points"],"every allocation of every construction and query as the failing one, single and repeated failures, followed by any further queries",
 "No test injects an allocation failure; the failing allocation index is a quantifier over several hundred points per query.",
 [HC+"*.cpp",HC+"paths.cpp",HC+"hc_cc_circle.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"],
 [("failing new propagates std::bad_alloc; no call modifies the object before it can fail",HC+"*_state_space.cpp")],None,["exceptions and return values"])
p("C04","No query or lifetime loses memory",
 "Every query releases all memory it acquired except what it returns, also when it is aborted by a failed allocation, and destroying a state space (directly or through a pointer to its base class) releases all memory it owns; nothing is released twice or used after release.",
 ["histories","fault_sequences","inputs"],"every history of constructions, queries (successful or aborted at any allocation) and destructions",
 "The tests never measure memory and cannot see a leak that only one of the 20 path families, one degenerate query or one aborted call causes.",
 [HC+"*.cpp",HC+"paths.cpp","include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp"],
 [("clean-up loops at the end of each path search",HC+"*_state_space.cpp: circles_*_path and the query functions"),("path destructors",HC+"paths.cpp: ~CC_Dubins_Path, ~HC_CC_RS_Path")],None,["allocator"])
p("C05","A vehicle executing the controls always ends up at the goal",
 "A vehicle that executes the controls returned for its current state arrives at the requested goal pose, with the curvature the state space type prescribes (the goal's own curvature for CC_Dubins and HC_Reeds_Shepp, zero for 0, plus or minus the maximum with the goal's sign for pm). This holds from whatever state it was interrupted, displaced or restarted in and for whatever goal it is then given, including states on its earlier paths, headings that differ by full turns, coinciding poses and configurations with any admissible curvature and sharpness limits. (Lengths, angles, curvatures and sharpnesses below the library's resolution of 1e-4 count as zero.)",
 ["histories","crash_points","fault_sequences","configurations"],"every mission: sequences of goals, interruptions at arbitrary arc length, replanning, planner crashes and restarts, slip, and limits",
 "The tests sample independent uniform start/goal pairs for one configuration (curvature 1, sharpness 1); states reached by driving, i.e. lying exactly on earlier paths and circles, have probability zero there. The upstream code missed such goals by up to 2 m.",
 [HC+"*.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp","src/utilities/utilities.cpp"],
 [("path families and their tangency constructions",HC+"*_state_space.cpp"),("prediction to zero or maximum curvature",HC+"cc_dubins_state_space.cpp, "+HC+"hc_reeds_shepp_state_space.cpp: predict_state")],None,["get_controls executed by an independent integrator"])
p("C06","Executed motion respects curvature, sharpness, continuity and direction limits",
 "At every instant of every mission the curvature stays within the curvature limit and its rate within the sharpness limit; curvature is continuous along CC paths and along HC paths between standstills (direction changes), also where a replanned CC_Dubins or HC_Reeds_Shepp path takes over in mid-drive. A Dubins-type planner never drives against its configured direction. (Up to the library's resolution of 1e-4 in length, curvature and sharpness.)",
 ["histories","crash_points","configurations"],"every instant of every mission, including the splice points of replanned paths",
 "The tests check continuity on sampled states of single paths for one configuration, never the sharpness limit of other configurations, never across replanning, never for states on earlier paths.",
 [HC+"*.cpp",HC+"paths.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"],
 [("turn control builders",HC+"paths.cpp: rs/hc/cc_turn_controls, cc_elementary_controls"),("direction of the circles",HC+"hc_cc_circle.cpp")],None,["get_controls"])
p("C07","Announced distance equals the distance driven, and replanning never gains",
 "For every query of every mission the announced distance equals the total length of the returned controls, and is never below the length of the shortest Reeds-Shepp path (for forward-only or backward-only types: the shortest Dubins path) between the same poses. With Dubins and Reeds-Shepp state spaces, stopping anywhere on the way (on or off the path) and replanning never makes the total shorter than originally announced, and stopping on the path never makes it longer.",
 ["histories","crash_points","configurations"],"every mission and every interruption point",
 "The tests compare distance and control length for uniform samples of one configuration and never relate the distance of a query to that of a continuation of the same mission.",
 [HC+"*_state_space.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"],
 [("shortest path selection",HC+"*_state_space.cpp: array_index_min over families and circle pairs"),("word enumeration","src/dubins_state_space/dubins_state_space.cpp, src/reeds_shepp_state_space/reeds_shepp_state_space.cpp")],None,["get_distance, get_controls"])
p("C08","Sampling, clock jitter and resumption do not change the executed path",
 "The states returned by interpolation at any time, by integration with any discretization and by path queries all lie on the one curve the controls describe (pose, curvature, driving direction), starting at the start state, ending at its end, with neighbouring states at most one discretization step apart. Resuming from any intermediate state with the remaining controls continues exactly that curve, and sampling times that jitter, repeat, run backwards or fall outside [0,1] (clamped to the ends) make no difference. (Up to the library's resolution of 1e-4 in sharpness and curvature.)",
 ["schedules","histories","configurations"],"every tick sequence, interruption point, discretization and configuration",
 "The tests compare interpolate with get_path for one discretization (0.1) and skip some types (HC0pm, HCpm0); they never resume from an intermediate state.",
 [HC+"hc_cc_state_space.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp","src/utilities/utilities.cpp"],
 [("integrate, interpolate, integrate_ODE","the three base implementations"),("end_of_clothoid, end_of_circular_arc, end_of_straight_line","src/utilities/utilities.cpp")],None,["integrate, interpolate, get_path"])
p("C09","The predicted belief matches what noisy closed-loop vehicles really do",
 "For small noise, the covariances returned along a path equal, up to the discretisation step, the statistics of simulated vehicles that drive it with the configured motion noise, localise with the configured measurement noise and steer back with the configured feedback gains: the estimation error has covariance Sigma, the spread of the estimates around the nominal path has covariance Lambda, and the spread of the true states has covariance Sigma plus Lambda. This holds for forward and backward driving, all segment kinds, any initial covariance, and any noise and controller settings.",
 ["fault_sequences","histories","configurations"],"every noise sequence (sampled), path, direction, initial belief and parameter set",
 "Only the two Jacobian blocks have tests; nothing tests predict, update, the gain, the controller, or the propagation of a belief along a path.",
 ["src/filter/ekf.cpp",HC+"hc_cc_state_space.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"],
 [("predict and update","src/filter/ekf.cpp"),("integrate_with_covariance","the three base implementations")],None,["get_path_with_covariance, integrate_with_covariance"])
p("C10","Beliefs stay valid covariances and do not alter the path",
 "Along every path with covariance each Sigma, Lambda and total covariance is finite, symmetric and positive semi-definite, the total is their sum, the entries of the curvature dimension stay zero, the states are the same as those of the path without covariance, and turning the steering at a standstill does not change the belief. A belief handed over at a segment boundary and propagated on with the remaining controls is the belief of the uninterrupted propagation, also when the planner is restarted or its filter parameters are set again.",
 ["histories","crash_points","configurations"],"every mission with belief propagation, handover point, noise setting (zero to very large motion noise, any positive measurement noise) and initial belief",
 "No test calls the queries with covariance at all.",
 ["src/filter/ekf.cpp",HC+"hc_cc_state_space.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"],
 [("predict and update (Joseph form)","src/filter/ekf.cpp"),("integrate_with_covariance","the three base implementations")],None,["get_path_with_covariance, integrate_with_covariance"])
p("C11","The visualisation node shows the right thirteen paths, in order, to subscribers",
 "Until it is shut down, the ROS node publishes nothing on a topic that has not had a subscriber, and then, cycle after cycle, shows the 13 steering functions in their documented order, each for at least two seconds: start and goal poses (newly drawn from the operating region for each cycle and the same for all 13) and labels, the path (exactly the library's path with covariance for the start, goal and parameters of that display), covariance ellipsoids and the swath, all belonging to the same display. Missing curvature, sharpness, noise and controller parameters fall back to the defaults in the node, and late, leaving and returning subscribers, stalls or clock jumps do not disturb this.",
 ["schedules","fault_sequences","configurations"],"every order and time of subscriber arrivals, departures, clock jumps, parameter sets and random goals",
 "The node is neither built nor run by the tests.",
 ["src/steering_functions_node.cpp","launch/steering_functions.launch","config/*.yaml"],
 [("PathClass and RobotClass constructors and visualize, main loop","src/steering_functions_node.cpp")],None,["published messages, simulated clock"])
p("C12","The visualisation node makes progress and stops when told to",
 "Whatever happened before, once every topic has a subscriber the node publishes its next display within ten seconds and keeps displaying; it does not end by itself. A shutdown request at any moment (also while it waits for subscribers) makes the process end within one display cycle (thirty seconds). Time in which the process is not scheduled does not count.",
 ["schedules","crash_points","fault_sequences"],"every moment of shutdown and every subscriber and clock behaviour before it",
 "The node is neither built nor run by the tests; upstream it never terminated when shut down while waiting for subscribers.",
 ["src/steering_functions_node.cpp"],[("wait loops and main loop conditions","src/steering_functions_node.cpp")],None,["process exit, simulated clock"])
p("C16","Equivalent missions get equally long plans",
 "Two missions that are the same up to the choice of description get plans of the same announced distance (up to the library's resolution): the mission described in a turned or moved map frame; in other units of length (all lengths scaled, curvatures and sharpnesses accordingly); the way back, with start and goal exchanged and planned by the state space that drives the other way round (forward-only by backward-only, 0pm by pm0, reversible by itself); and the mirrored mission (left and right exchanged). It holds for the states a vehicle gets into while driving, being stopped, displaced and replanning, with any admissible curvature and sharpness limits, and whatever rounding does to the numbers (a goal straight ahead, at the end of a single turn, a heading written as 0 or as 2 pi).",
 ["histories","configurations","fault_sequences"],"every mission leg, also between states on earlier paths, with every frame, unit and direction of travel",
 "The tests have a symmetry test for uniform samples of one configuration and of the reversible types only; none changes the frame, the units or the driving direction, or uses states reached by driving.",
 [HC+"*.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp","src/utilities/utilities.cpp"],
 [("case distinctions on circle geometry (left, forward, regular)",HC+"*_state_space.cpp, "+HC+"hc_cc_circle.cpp"),("selection of the shortest family",HC+"*_state_space.cpp")],None,["get_distance"])
p("C17","More freedom never makes a plan longer",
 "For every leg of every mission, up to the library's resolution: a reversible planner never announces a longer distance than the forward-only or backward-only planner of the same kind (CC00 and HC00 against CC00_Dubins, HC0pm against CC0pm_Dubins, HCpm0 against CCpm0_Dubins, HCpmpm against CCpmpm_Dubins for end points of zero curvature, HC_Reeds_Shepp against CC_Dubins unless both curvatures are at the limit, Reeds_Shepp against Dubins); CC_Dubins and HC_Reeds_Shepp never announce a longer distance than the special type made for the same pair of zero or maximum end curvatures, nor, between intermediate curvatures, than turning the steering to zero or the limit first (and last) and leaving the rest to the special type; a larger curvature limit never lengthens a Dubins or Reeds-Shepp plan; and with a very large sharpness limit the distance of the CC and HC types for end points of zero curvature comes down to that of Dubins (forward-only and backward-only types) or Reeds-Shepp (reversible types).",
 ["histories","configurations","fault_sequences"],"every mission leg, also between states on earlier paths and circles, and every configuration",
 "A lost or wrongly restricted path family still yields arriving, admissible paths, only longer ones; the tests compare no type with another and use one configuration.",
 [HC+"*.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"],
 [("existence conditions of the path families",HC+"*_state_space.cpp: *_exists"),("selection of the shortest family",HC+"*_state_space.cpp")],None,["get_distance"])
p("C13","Fresnel integrals and clothoid end points are accurate",
 "The Fresnel integrals and the end points of clothoids, arcs and lines computed for any argument equal the exact values up to rounding.",["inputs"],"every real argument","The tests sample.",["src/utilities/utilities.cpp"],[("Chebyshev expansion","src/utilities/utilities.cpp")])
p("C14","No manoeuvre the planner knows beats its plan",
 "Whatever manoeuvre a driver performs, the planner asked for the same trip never announces a longer distance than was driven (up to the library's resolution). For Dubins and Reeds-Shepp this holds for every sequence of turns at the curvature limit and straight lines (with cusps for Reeds-Shepp), that is, their plans are the shortest ones. For CC-Dubins and HC/CC-Reeds-Shepp types it holds for every manoeuvre of the type's own path families (T, TT, TTT, TST and straight lines; for reversible types also TcT, TcTcT, TcTT, TTcT, TcST, TScT, TcScT, TTcTT, TcTTcT with equal inner turns, and TSTcT, TcTST, TcTSTcT with a quarter turn next to the cusp; for CCpmpm_Dubins also TTTT with tangent circles of a symmetric chain) at the limits of curvature and sharpness (elementary turns included), also when the steering is turned from an intermediate angle before and to one afterwards (CC_Dubins, HC_Reeds_Shepp), for left and right, forwards and backwards, any angles and lengths, any place and heading in the map and all admissible limits.",
 ["histories","configurations","fault_sequences"],"every manoeuvre, place, direction, side and configuration, also after displacements, restarts with other types and failed queries",
 "A family that is lost, wrongly restricted or badly constructed still yields arriving, admissible paths, only longer ones; the tests compare lengths with nothing independent and use one configuration. The upstream code constructed half of the TSTcT, TcTST and TcTSTcT paths wrongly without a test noticing.",
 [HC+"*.cpp","src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"],
 [("existence conditions, tangent circles and construction of the path families",HC+"*_state_space.cpp: *_exists, *_tangent_circles, *_path"),("turns and elementary paths",HC+"hc_cc_circle.cpp"),("selection of the shortest family",HC+"*_state_space.cpp"),("words","src/dubins_state_space/dubins_state_space.cpp, src/reeds_shepp_state_space/reeds_shepp_state_space.cpp")],None,["get_distance"])
p("C15","Queries are fast enough for sampling-based planning",
 "Computation times stay in the documented order of magnitude (microseconds per query).",["inputs"],"every query","timing tests only print",["test/timing_test.cpp"],[("closed form solutions","*")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['statement'])>0 and len(x['title'])<=80,x['id']
print(len(P))
