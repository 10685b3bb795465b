"""What decides each library property: machines of the specification (exhaustive runs and defects they must reject), families of
inputs of libscen (sections quick, thorough), generated histories (suffix of Gen*.cfg, module, depth, quick, thorough)."""
UNITS = "inputs are chosen so that every exact answer is an integer in the units of the specification (quarters of a second, multiples of 2^-f metres)"
EX = "extrema and roots are compared in hundredths of a unit"


def row(mc, defects, fams, gen, assume, what):
    return {"mc": mc, "defects": defects, "fams": fams, "gen": gen, "assume": assume,
            "manifest": {"technique": "TLA+ (TLC): exhaustive runs of %s; generated histories and inputs executed on the real library, every answer checked by spec/LibTrace.tla, which computes it independently" % ", ".join(sorted({m for c, m in mc})),
                         "level": "model_checking",
                         "level_note": what + " Bounded by the configurations MC*.cfg and by the generated inputs (tools/libscen.py, spec/Gen*.cfg)."}}


TRAJ = ("MCTraj", "TrajLib")
LIB = {
    "L01": row([TRAJ], [("MCTraj_x_scaleFirst", "TrajLib")], [("eval", 800, 20000), ("scale", 200, 5000)], [("Traj", "TrajLib", 14, 800, 20000)], [UNITS],
               "The specification holds trajectories as exact integer coefficients next to the motion they stand for; evaluation, borders and durations are checked on both and against the library."),
    "L02": row([TRAJ], [("MCTraj_x_scaleFirst", "TrajLib")], [("range", 800, 20000), ("rot", 200, 4000)], [("Traj", "TrajLib", 14, 400, 10000)],
               [UNITS, "steps that no binary fraction is are compared with pointwise evaluation up to rounding; a sample at the very end may be present or not"],
               "Sample times, values and all derivatives of a range are those of pointwise evaluation in the specification."),
    "L03": row([TRAJ], [("MCTraj_x_unstretched", "TrajLib")], [("compose", 1200, 20000)], [("Traj", "TrajLib", 14, 1600, 40000)],
               [UNITS, "trajectories with different numbers of segments are not appended (the library aborts: precondition)"],
               "Histories of compositions keep the motion of every register (invariant SameMotion), and the library's registers are the specification's after every step."),
    "L04": row([TRAJ], [("MCTraj_x_scaleFirst", "TrajLib")], [("scale", 800, 20000), ("limits", 800, 16000)], [("Traj", "TrajLib", 14, 400, 10000)],
               [UNITS, "peaks are exact for quadratics; for cubics only that the limits are met and the path is kept"],
               "Time scaling keeps the path (invariant SameMotion); scaling to limits is judged by the peaks the specification computes."),
    "L05": row([TRAJ], [("MCTraj_x_scaleFirst", "TrajLib")], [("save", 400, 6000), ("load", 1600, 30000)], [("Traj", "TrajLib", 14, 400, 10000)],
               [UNITS, "documents are described to the specification by their structure (missing keys, sizes, kinds of values); other YAML syntax is not explored"],
               "Saving is the identity of the machine, also between other operations; the specification decides from the structure of a document whether it is well formed."),
    "L06": row([("MCExtrema", "ExtremaLib")], [("MCExtrema_x_noBorders", "ExtremaLib"), ("MCExtrema_x_outside", "ExtremaLib"), ("MCExtrema_x_noZeros", "ExtremaLib")],
               [("extrema", 1600, 30000)], [], [UNITS, EX, "bounds are checked at quarters of a unit"],
               "The specification shows that borders, critical points and zeros suffice; the library's answers must bound and attain the values the specification computes."),
    "L07": row([("MCVertex", "VertexLib")], [("MCVertex_x_removeBelow", "VertexLib")], [("vgen", 120, 3000)], [("Vertex", "VertexLib", 20, 1600, 40000)], [UNITS],
               "A vertex is a map from derivatives to values; histories of changes and questions, with the answers of the map."),
    "L08": row([("MCOpt", "OptLib")], [("MCOpt_x_keepsFree", "OptLib"), ("MCOpt_x_halfWay", "OptLib")],
               [("opt", 1200, 24000), ("spline", 400, 8000), ("nonlin", 160, 2400)], [],
               [UNITS, "constraints and joints are compared in thousandths of a unit with relative tolerance 5e-5; the cost is compared exactly only for cubics (closed form) and otherwise against perturbations of the free derivatives"],
               "The specification solves cubic problems exactly and keeps the books of fixed and free derivatives across problems; the library must agree, and honour constraints and joints at all orders."),
    "L09": row([("MCPoly", "PolyLib")], [("MCPoly_x_dropTop", "PolyLib")], [("poly", 800, 20000), ("roots", 1600, 30000)], [("Poly", "PolyLib", 24, 800, 20000)], [UNITS, EX],
               "Histories of polynomial operations keep coefficients and values in agreement; roots are judged by exact values and sign changes."),
    "L10": row([("MCEst", "EstLib")], [("MCEst_x_noFloor", "EstLib")], [("est", 2400, 40000)], [], [UNITS, "durations are compared in ten thousandths of a second, exactly where the distance is whole"],
               "The formula of the estimates is checked for the claims (positive, monotone, not faster than allowed) and against the library."),
    "L11": row([("MCTimer", "TimerLib"), ("MCTimer1", "TimerLib")], [("MCTimer_x_stopTwice", "TimerLib")], [("many", 160, 3000), ("mini", 80, 1000)], [("Timer", "TimerLib", 60, 1600, 30000)],
               [UNITS, "the clock is virtual (whole microseconds); the variance is that of the last fifty samples"],
               "Statistics kept incrementally agree with the log of all durations (invariant StatsAreOfTheLog), and the library's with the specification's."),
    "L12": row([("MCWp", "WpLib")], [("MCWp_x_bendFromOriginal", "WpLib"), ("MCWp_x_resetKeepsBends", "WpLib"), ("MCWp_x_timeLeavesBends", "WpLib")],
               [], [("Wp", "WpLib", 32, 1200, 30000)],
               ["positions are whole 1/128 m and times whole quarters of a second; between its centre and its reach a bend is bounded, not computed, and its derivatives are compared with difference quotients"],
               "A dynamic waypoint is a planned position and the bends its moves left (invariants BendsAddUp, Centred, ReachesTarget); histories of moves, resets, copies and times, with positions and compensations of the real class."),
    "L13": row([("MCAtt", "AttLib")], [("MCAtt_x_wrongSide", "AttLib"), ("MCAtt_x_velocityShifts", "AttLib"), ("MCAtt_x_rateStays", "AttLib")],
               [("rot", 200, 4000)], [("Att", "AttLib", 24, 1600, 40000)],
               ["orientations are quaternions with whole components (rotations through other angles only by way of products and the angular rates); answers are compared in ten thousandths; angular rates with difference quotients of the rotation"],
               "An orientation is a quaternion with whole components, so rotation matrices and moved states are exact fractions (invariants Rotations, Composes, SameFromWithin); histories of states, motions and conversions of the real code."),
}
