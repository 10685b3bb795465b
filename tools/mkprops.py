#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
DT='src/dynamic_trajectory.cpp'; DH='include/dynamic_trajectory_generator/dynamic_trajectory.hpp'
DW='src/dynamic_waypoint.cpp'; DWH='include/dynamic_trajectory_generator/dynamic_waypoint.hpp'
MODH='include/dynamic_trajectory_generator/utils/traj_modifiers.hpp'; TS='include/dynamic_trajectory_generator/thread_safe_trajectory.hpp'
M='subpackages/mav_trajectory_generation/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
T1="The only test of the planner sets 14 waypoints once and evaluates in one thread: one history, one schedule that the OS happens to pick, no later request, and no assertion on the values."
TL="The only library test samples a handful of fixed polynomials; no other value of the inputs is reached."
p('C01','No plan request is ever lost',
  "Every accepted request to set, append or move waypoints eventually shows up in the installed plan, at whatever moment it arrives (idle, computing, just being installed, near a waypoint), unless a later set supersedes it. Until then the planner reports that it is pending or computing. A move without regeneration neither drops nor cancels a pending request.",
  ['schedules','histories'],'all interleavings of client requests, the background worker, the computation and the installing consumer; all request histories',T1,[DT,DH],
  [('pending lists drained and request flag cleared under one lock','generateWaypointsForTheNextTrajectory'),('worker loop','todoThreadLoop'),('request calls','setWaypoints/appendWaypoint/modifyWaypoint(s)')],
  [('generate_new_traj_','a request is waiting',DH),('computing_new_trajectory_','a plan is being computed or waits to be installed',DH)],['getDynamicWaypoints','getNextTrajectoryWaypoints','getGenerateNewTraj','getComputingNewTrajectoryStatus'])
p('C02','Setting waypoints replaces the plan and supersedes earlier requests',
  "After a set request with at least one waypoint the next plan consists of exactly the given waypoints, in order, followed by what is appended later; nothing of the previous plan and no append, move or set that was still waiting survives it. Requests made after the set act on the new list.",
  ['histories','schedules'],'all sequences of set/append/move requests placed before and after a set, and all points at which the worker takes them',T1,[DT],
  [('set clears the three pending lists','setWaypoints'),('set list has priority over the current plan','generateWaypointsForTheNextTrajectory')],
  [('waypoints_to_be_set_/added_/modified_','waiting requests',DH)],['getDynamicWaypoints'])
p('C03','The plan keeps order, identity and the latest positions',
  "An installed plan contains every requested waypoint that is still ahead exactly once, in the order requested, under its name and at the position most recently asked for; besides these it contains only the planner's own start and stitching points at its front. No waypoint is invented, duplicated, renamed or reordered.",
  ['histories','schedules'],'all request histories and all interleavings with regeneration',T1,[DT,DW,DWH],
  [('plan construction','generateWaypointsForTheNextTrajectory'),('start point','appendDronePositionWaypoint'),('stitching points','stitchActualTrajectoryWithNewWaypoints'),('merge of moves by name','modifyWaypoint')],
  [('dynamic_waypoints_','installed plan',DH)],['getDynamicWaypoints','getNextTrajectoryWaypoints'])
p('C04','Passed waypoints never return, waypoints ahead are never dropped',
  "When the planner replans while a trajectory is being followed, a waypoint whose time is not after the last evaluated time never re-enters the plan, and a named waypoint that is still ahead is never dropped. To that end replanning does not begin while the next named waypoint is closer than the replanning horizon (ten times the last computation time).",
  ['histories','schedules'],'all evaluation histories, replan requests at every distance before and after every waypoint, all computation times',T1,[DT,DH],
  [('passed filter','filterPassedWaypoints'),('security zone','checkInSecurityZone'),('stitching horizon','stitchActualTrajectoryWithNewWaypoints'),('what is still ahead','getNextTrajectoryWaypoints/getRemainingWaypoints')],
  [('last_global_time_evaluated','how far the trajectory was followed',DH),('time_constant_','last computation time',DH)],['getDynamicWaypoints','getNextTrajectoryWaypoints','getRemainingWaypoints'])
p('C05','Plan, trajectory and time base change together',
  "Whatever the schedule, what a consumer sees always belongs to one generation: the reference at the (compensated) time of each reported waypoint is that waypoint's position, the reported minimum time is the time base of that trajectory, the maximum time is the time of its last waypoint, and waypoint times never decrease along the plan. A new generation becomes visible only through a consumer call, never while one is half installed.",
  ['schedules','histories'],'all interleavings of worker, computation and consumers around the installation of a new trajectory',T1,[DT,DH,TS],
  [('installation','swapTrajectory/swapDynamicWaypoints'),('conversion between time bases','convertIntoGlobalTime/convertFromGlobalTime'),('assignment of times to waypoints','computeTrajectory')],
  [('traj_','installed trajectory',DH),('parameters_/new_parameters_','time base of the installed / coming trajectory',DH)],['evaluateTrajectory','getMinTime','getMaxTime','getDynamicWaypoints','getTimeCompensation'])
p('C06','Status reports are truthful and the notice is given exactly once',
  "From the moment a plan request is accepted until the resulting plan is installed, the planner reports at every instant either a waiting request or a running computation, and it reports neither once everything is installed. Every installation and every local move of a planned waypoint raises the regeneration notice, reading it clears it, and nothing else raises it.",
  ['schedules','histories'],'all interleavings of status queries with requests, computation, installation and local moves',T1,[DT,DH],
  [('status flags','todoThreadLoop, checkTrajectoryGenerated'),('notice','swapTrajectory, applyWaypointModification, getWasTrajectoryRegenerated')],
  [('trajectory_regenerated_','notice for the client',DH)],['getWasTrajectoryRegenerated','getGenerateNewTraj','getComputingNewTrajectoryStatus'])
p('C07','A move without regeneration bends the trajectory locally and smoothly',
  "Moving a planned waypoint that is ahead, without regeneration, makes the reference pass through the new position at that waypoint's time, leaves the reference unchanged away from it (before the present and beyond the bend's extent), keeps the waypoint times, and does not start a computation. Names that are unknown or empty, and waypoints already passed, do not change the reference.",
  ['inputs','histories'],'all plans, moved waypoints, displacements, times of the move and repeated moves',T1,[DT,DW,DWH,MODH],
  [('Gaussian modifier','GaussianModifier::operator()'),('modifier set-up','DynamicWaypoint::setCurrentPosition'),('application','applyWaypointModification, evaluateModifiedTrajectory')],
  [('modifiers_','local bends of a waypoint',DWH)],['evaluateTrajectory','getDynamicWaypoints'])
p('C08','A stitched trajectory continues the old one',
  "A trajectory generated while another is being followed begins exactly in the state (position, velocity and acceleration, local bends included) that the old one had at the moment of replanning, and its second point lies on the old trajectory at the replanning horizon. Handing over does not make the commanded position jump by more than the motion of the time-alignment step.",
  ['inputs','histories'],'all plans, replanning moments, local bends, computation times',T1,[DT],
  [('stitching points','stitchActualTrajectoryWithNewWaypoints'),('decision to stitch','checkStitchTrajectory'),('time alignment','timeFittingWithVehiclePosition')],
  [('t_offset','time compensation of the installed trajectory',DH)],['evaluateTrajectory'])
p('C09','The trajectory starts at the vehicle, visits every waypoint, ends at rest',
  "A trajectory generated from scratch starts at the most recently reported vehicle position with zero velocity and acceleration; every trajectory passes through each waypoint of its plan at the time reported for it, is continuous in position, velocity and acceleration throughout, and comes to rest (zero velocity and acceleration) exactly at its last waypoint.",
  ['inputs','histories'],'all vehicle positions, waypoint lists (including coincident and collinear ones), speeds and replanning histories',T1,[DT,M+'src/vertex.cpp',M+'include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h'],
  [('start waypoint','appendDronePositionWaypoint'),('end constraints','extractVerticesFromWaypoints'),('optimisation','computeTrajectory')],(),['evaluateTrajectory','getDynamicWaypoints'])
p('C10','References are consistent derivatives of one another',
  "At every time inside the trajectory the velocity reference is the time derivative of the position reference and the acceleration reference that of the velocity reference, for plain and locally bent trajectories alike. The position is the same whether or not the derivatives are asked for.",
  ['inputs','histories'],'all plans, evaluation times and local bends',T1,[DT,MODH,M+'src/trajectory.cpp'],
  [('evaluation of a derivative','getReferences, evaluateModifiedTrajectory'),('derivatives of the Gaussian','GaussianModifier::operator()')],(),['evaluateTrajectory'])
p('C11','Evaluation outside the trajectory holds its end points',
  "Evaluating before the start of the trajectory returns its initial reference and evaluating after its end returns its final reference, at rest at the last waypoint; no time makes the evaluation fail or return anything else. The time base and the time compensation are applied once: equal compensated times give equal references.",
  ['inputs','histories'],'all evaluation times, before, inside and after the trajectory, under every time base',T1,[DT],
  [('clamping','evaluateModifiedTrajectory'),('time bases','evaluateTrajectory')],(),['evaluateTrajectory','getMinTime','getMaxTime'])
p('C12','Queries have no side effects and the evaluation clock never goes back',
  "Evaluations for plotting and all queries leave the progress along the trajectory unchanged: the waypoints reported as remaining, and those dropped by the next replanning, depend only on the last real evaluation. Installing a new trajectory never moves that progress back.",
  ['histories','schedules'],'all histories mixing real evaluations, plotting evaluations, queries and installations',T1,[DT,DH],
  [('clock update','evaluateTrajectory'),('installation','swapTrajectory'),('remaining waypoints','getNextTrajectoryWaypoints')],
  [('last_global_time_evaluated','progress',DH)],['getNextTrajectoryWaypoints','getRemainingWaypoints'])
p('C13','Only the first evaluation waits; every call returns',
  "As long as no trajectory exists an evaluation waits for the first one and then returns references of that trajectory; once one exists, no call waits for a computation. Under every schedule every call returns: there is no deadlock and no lost wake-up.",
  ['schedules'],'all interleavings of clients, worker and computation, all computation times',T1,[DT,DH],
  [('waiting for the first trajectory','checkTrajectoryGenerated'),('background computation','generateTrajectory')],(),['evaluateTrajectory','getMaxTime','getMinTime','getDynamicWaypoints'])
p('C14','Shutdown is safe at every moment',
  "Destroying the planner at any moment (idle, waiting request, during a computation, with a computed but not installed trajectory) terminates, leaves no thread running, and nothing touches memory of the destroyed planner afterwards.",
  ['schedules','crash_points'],'destruction at every point of the worker loop and of a computation',T1,[DH,DT],
  [('destructor','~DynamicTrajectory'),('worker termination','todoThreadLoop')],[('stop_process_','asks the worker to finish',DH)],['~DynamicTrajectory'])
p('C15','The configured speed is never lost',
  "After the speed is set it is the one reported and the one used by every trajectory whose generation starts later, until it is set again, whatever is being computed or installed meanwhile. Installing a trajectory never brings an older speed back.",
  ['schedules','histories'],'speed changes at every point of a generation and an installation',T1,[DT],
  [('both parameter sets are written','setSpeed'),('installation of parameters','swapTrajectory')],[('speed','cruise speed',DH)],['getSpeed','getMaxTime'])
p('C16','Several consumers can use one planner',
  "Any number of threads may request, evaluate and query at the same time: every evaluation returns the references of one installed trajectory for the time it was asked for, a trajectory is installed exactly once, all threads see the same sequence of plans, and no call crashes or blocks forever.",
  ['schedules'],'all interleavings of two or more consumers with worker and computation',T1,[DT,DH,TS],
  [('consumer lock','evaluateTrajectory, getMaxTime, getMinTime, getDynamicWaypoints'),('installation','checkTrajectoryGenerated')],(),['all public calls'])
p('C17','One computation at a time, and every installed plan was computed for it',
  "At most one trajectory is being computed at any time, each computed trajectory is installed exactly once and in the order of computation, and the reported waypoint times and the trajectory are those computed from exactly the waypoints that are installed with it. Requests arriving during a computation never change the waypoints of the trajectory being computed.",
  ['schedules','histories'],'requests and queries at every point of a computation',T1,[DT],
  [('generation gate','checkIfTrajectoryCanBeGenerated'),('hand-over','generateTrajectory/swapTrajectory')],[('next_trajectory_waypoint_','waypoints being computed',DH)],['getDynamicWaypoints','getComputingNewTrajectoryStatus'])
p('L01','Piecewise evaluation selects the right segment',
  "Evaluating a trajectory at a time (any derivative) equals evaluating the segment that contains it at the time elapsed since that segment's start; a border belongs to the segment on its right, the end to the last segment, and times beyond the end give zero. The maximum time is the sum of the segment times after every operation.",
  ['inputs'],'all segment lists, times and derivatives',TL,[M+'src/trajectory.cpp',M+'src/segment.cpp',M+'include/mav_trajectory_generation/trajectory.h'],
  [('segment search','Trajectory::evaluate'),('vertices','getVertices/getStartVertex/getGoalVertex')],(),['Trajectory::evaluate','getMaxTime'])
p('L02','Sampling a range agrees with pointwise evaluation',
  "Sampling a trajectory over a range yields samples at start, start+dt, ... below the end of the range and of the trajectory (up to rounding of the times), with those times reported, each equal to the pointwise evaluation; an empty or reversed range gives no samples. Sampling full states refuses ranges outside the trajectory and too few dimensions. Time stamps and all derivatives belong to the same instant. A file of sampled states lists exactly these samples and the ends of the segments.",
  ['inputs'],'all ranges, steps and segment borders',TL,[M+'src/trajectory.cpp',M+'src/trajectory_sampling.cpp'],
  [('range evaluation','Trajectory::evaluateRange'),('state sampling','sampleTrajectoryInRange/sampleTrajectoryAtTime/sampleWholeTrajectory')],(),['evaluateRange','sample*'])
p('L03','Composing and splitting trajectories preserves the motion',
  "Extracting one dimension, appending dimensions (also of different order or duration), concatenating trajectories and offsetting them yield trajectories whose every dimension evaluates to that of its source at the corresponding time; segment times are kept (the longer one when they differ) and a concatenation with operands of another order or dimension is refused without changing the motion. Extracting after appending gives the parts back.",
  ['inputs','programs'],'all trajectories and all sequences of these operations',TL,[M+'src/trajectory.cpp',M+'src/segment.cpp',M+'src/polynomial.cpp'],
  [('append','getTrajectoryWithAppendedDimension, getSegmentWithAppendedDimension'),('split','getTrajectoryWithSingleDimension'),('concatenate','addTrajectories'),('offset','offsetTrajectory')],(),['Trajectory'])
p('L04','Time scaling changes the pace, not the path',
  "Scaling the segment times by a factor visits the same positions at times multiplied by that factor, with the n-th derivative divided by its n-th power, on every segment. Scaling to meet limits only ever slows down, brings velocity and acceleration below the limits (within the stated tolerance) and leaves a feasible trajectory untouched.",
  ['inputs','programs'],'all trajectories, factors and limits',TL,[M+'src/trajectory.cpp',M+'src/polynomial.cpp'],
  [('scaling','scaleSegmentTimes/scaleSegmentTimesToMeetConstraints'),('polynomial','scalePolynomialInTime')],(),['Trajectory'])
p('L05','Saved trajectories load back identical, malformed ones are refused',
  "Writing a trajectory (to a YAML node or a file) and reading it back yields the same segments, orders, dimensions, times to the nanosecond, and coefficients, any number of times. Input with missing, inconsistent or wrongly sized parts, or an unreadable file, is refused with a failure result and never aborts the process.",
  ['inputs','programs'],'all trajectories; all ways to damage a stored one by dropping, resizing or retyping an element',"No test reads or writes a trajectory.",[M+'src/io.cpp',M+'include/mav_trajectory_generation/io.h',M+'include/mav_trajectory_generation/segment.h'],
  [('YAML','segmentToYaml/segmentFromYaml/trajectoryFromYaml'),('files','segmentsToFile/segmentsFromFile/trajectoryFromFile')],(),['io.h'])
p('L06','Reported extrema bound the motion',
  "The minimum and maximum reported for a polynomial, a segment or a trajectory (value or magnitude of any derivative over chosen dimensions, on the asked interval) bound every evaluation in that interval, are attained at the reported time and segment, and include the borders. Asking for nothing or for invalid dimensions or intervals is refused.",
  ['inputs'],'all polynomials, intervals, derivatives and dimension sets',TL,[M+'src/polynomial.cpp',M+'src/segment.cpp',M+'src/trajectory.cpp',M+'src/rpoly/rpoly_ak1.cpp'],
  [('root finding','getRoots'),('selection','selectMinMaxCandidatesFromRoots, computeMinMax, computeMinMaxMagnitude')],(),['computeMinMax','computeMinMaxMagnitude','computeMaxVelocityAndAcceleration'])
p('L07','Vertex constraints behave as a map from derivative to value',
  "Adding a constraint sets or replaces the value of that derivative only, removing it removes only that one, queries report exactly what is set, start and end vertices fix position and zero the derivatives up to the requested order, and equality compares the constraints (the near-equality within the tolerance). Sub-dimensions carry exactly the selected components. Generated lists of vertices (a square flown several times; random points in a box) begin and end at rest, stay in their bounds, keep their spacing, and the same seed gives the same list.",
  ['programs','inputs'],'all sequences of vertex operations',"No test checks vertices.",[M+'src/vertex.cpp',M+'include/mav_trajectory_generation/vertex.h'],
  [('constraints','addConstraint/removeConstraint/getConstraint/hasConstraint'),('sub-dimensions','getSubdimension'),('tolerance','isEqualTol')],(),['Vertex'])
p('L08','The optimiser honours every constraint and joins segments smoothly',
  "A trajectory produced from vertices and segment times takes at every vertex each constrained derivative value, has the given segment times, and at inner vertices all derivatives up to the continuity order agree from both sides; its cost is not larger than that of any other choice of the free derivatives. The extrema it reports for its solution are attained and not exceeded, and the matrices it reports are those of the problem. This holds for every problem of a sequence given to one optimiser.",
  ['inputs'],'all vertex lists, constraint patterns, dimensions and segment times',TL,[M+'include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h',M+'include/mav_trajectory_generation/polynomial_optimization_linear.h'],
  [('set-up','setupFromVertices, setupConstraintReorderingMatrix'),('solution','solveLinear, updateSegmentsFromCompactConstraints'),('cost','computeCost, computeQuadraticCostJacobian')],(),['PolynomialOptimization'])
p('L09','Polynomial algebra is exact',
  "Sums, products, scalar multiples, derivatives, padding, offsets and time scalings of polynomials evaluate to the corresponding combination of their operands' values at every time; all roots reported for a polynomial are roots and every real root is reported.",
  ['inputs','programs'],'all coefficient vectors, derivatives and times; all sequences of operations',TL,[M+'src/polynomial.cpp',M+'include/mav_trajectory_generation/polynomial.h',M+'src/rpoly/rpoly_ak1.cpp'],
  [('coefficients','getCoefficients, base_coefficients_'),('products','convolve'),('roots','findRootsJenkinsTraub')],(),['Polynomial'])
p('L10','Segment time estimates are positive, finite and monotone in distance',
  "For every list of at least two positioned vertices and positive limits, each estimate yields one positive finite time per segment, also for coincident vertices, that depends only on the two ends of that segment, does not decrease with the distance, and is never shorter than the distance divided by the maximum speed.",
  ['inputs'],'all vertex lists and limits',"Only one list of well separated waypoints is planned by the tests.",[M+'src/vertex.cpp'],
  [('estimates','estimateSegmentTimes, estimateSegmentTimesNfabian, estimateSegmentTimesVelocityRamp, computeTimeVelocityRamp')],(),['estimateSegmentTimes*'])
p('L11','Timing statistics are those of the recorded durations',
  "For every history of measurements, each named timer reports exactly the number, total, minimum, maximum, mean (and variance over the last fifty) of the durations recorded under its name, timers do not influence each other, and stopping twice or discarding records nothing extra.",
  ['histories'],'all sequences of start, stop and discard over several names',"No test reads a timer.",[M+'src/timing.cpp',M+'include/mav_trajectory_generation/timing.h'],
  [('accumulation','Accumulator::Add'),('registry','Timing::GetHandle')],(),['timing::Timing','timing::Timer'])
p('L12','A dynamic waypoint is where it was last put and its bends lead there',
  "For every history of construction, copying, constraints, resets, moves and changes of time or index: a dynamic waypoint reports the position it was last given and, as its planned position, the one it last was reset to; the bends its moves left add up, at the waypoint's own time, to exactly the difference (axes moved by less than 2 cm and moves dated at or after that time aside); they move with that time, are symmetric about it, fade before the moment of the move, vanish beyond their reach, and report derivatives that are those of what they add; copies carry all of it, and constraints on derivatives survive resets.",
  ['histories'],'all sequences of moves, resets, copies and changes of time, all positions and query times',"No test makes a dynamic waypoint by itself.",[DW,DWH,MODH],
  [('moves','DynamicWaypoint::setCurrentPosition'),('bends','GaussianModifier::operator()'),('resets','resetWaypoint*'),('copies','DynamicWaypoint copy constructor')],(),['DynamicWaypoint'])
p('L13','Attitudes and full states agree in every representation',
  "For every orientation, its quaternion, yaw, Euler angles, rotation matrix and rotation vector describe the same rotation, also for half turns; where the Euler angles are ambiguous they stay finite. Moving a state by a rigid motion moves its position, turns every derivative, both angular rates and the orientation, and changes nothing seen from the vehicle. Setting a yaw (or its rates) leaves no roll, pitch or other rate. Angular velocity and acceleration of a moving rotation vector are those of the rotation it describes. A matrix that is no rotation, or not skew, is refused.",
  ['inputs','programs'],'all orientations, states, rigid motions and sequences of these operations',"No test uses an orientation.",[M+'include/mav_msgs/common.hpp',M+'include/mav_msgs/eigen_mav_msgs.hpp',M+'src/trajectory_sampling.cpp'],
  [('conversions','yawFromQuaternion, getEulerAnglesFromQuaternion, matrixFromRotationVector, vectorFromRotationMatrix'),('rates','omegaFromRotationVector, omegaDotFromRotationVector'),('rigid motions','operator*(Affine3d, EigenTrajectoryPoint)')],(),['mav_msgs::EigenTrajectoryPoint','mav_msgs::EigenOdometry'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
