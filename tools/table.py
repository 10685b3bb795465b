"""What decides each planner property: conditions of the trace specification, families of scripts (runs quick, thorough),
exhaustive configurations of MCPlanner (quick, thorough) with the invariants that state the property."""
# what every check looks at: pins down which generation is in use, and makes the search short
PIN = ["list", "time", "clock", "flags", "regen"]
CORE = ["list", "settle", "flags", "regen", "time", "clock", "refwp"]

# id: (checks, [(family, quick, thorough)], [mc configs], invariants, [defect configs that must fail])
PLANNER = {
    "C01": (["list", "settle", "flags"], [("general", 100, 4000), ("swap", 30, 2000), ("model", 60, 3000), ("mod", 80, 2000), ("border", 90, 3000), ("quick", 50, 1000), ("general@mem", 50, 1500)],
            ["a"], ["PlanIsWhatWasAskedFor", "PendingIsReported"], ["lateClear", "modCancels"]),
    "C02": (["list", "settle", "flags"], [("general", 180, 6000), ("model", 60, 2000), ("quick", 50, 1000), ("mod", 70, 2000), ("general@mem", 50, 1000)],
            ["a"], ["PlanIsWhatWasAskedFor", "NoDuplicates"], ["keepAdds"]),
    "C03": (["list", "settle"], [("mod", 180, 4000), ("general", 130, 4000), ("model", 50, 2000), ("stitch", 40, 1000), ("mod@mem", 60, 1000)],
            ["a"], ["PlanIsWhatWasAskedFor", "NoDuplicates", "InOrder", "OwnPointsInFront"], ["planOnly", "modsLast"]),
    "C04": (["list", "clock", "zone", "stitch"], [("border", 280, 6000), ("stitch", 60, 1500), ("general", 100, 2000), ("border@mem", 60, 1000)],
            ["a"], ["PassedStayOut", "NoSqueeze"], ["keepPassed", "staleZone"]),
    "C05": (["time", "refwp", "clock", "list"], [("general", 80, 4000), ("model", 50, 2000), ("swap", 60, 3000), ("border", 80, 2000), ("mod", 60, 1000), ("multi", 80, 2000), ("multi@mem", 64, 2000), ("general@mem", 32, 1000)],
            ["a"], ["OneGeneration", "SeenOneGeneration"], ["doneFirst", "unserialised"]),
    "C06": (["flags", "regen", "settle"], [("general", 120, 4000), ("model", 80, 3000), ("multi", 140, 3000), ("mod", 120, 2000), ("multi@mem", 64, 2000)],
            ["notice"], ["PendingIsReported", "NoticeIsKept"], ["splitNotice"]),
    "C07": (["move", "time", "refwp", "regen", "flags"], [("mod", 480, 8000), ("mod@mem", 40, 500)],
            ["a"], ["OneGeneration", "ClockIsLastReal"], []),
    "C08": (["stitch", "jump"], [("stitch", 160, 4000), ("border", 120, 3000), ("stitch@mem", 24, 500)],
            ["a"], ["OwnPointsInFront", "NoSqueeze"], ["staleZone"]),
    "C09": (["start", "refwp", "refout", "cont"], [("deriv", 200, 4000), ("clamp", 200, 4000), ("stitch", 60, 1000)],
            ["speed"], ["OneGeneration", "OwnPointsInFront"], []),
    "C10": (["deriv"], [("deriv", 480, 8000), ("mod", 80, 1000)],
            ["two"], ["SeenOneGeneration"], []),
    "C11": (["refout", "start", "time"], [("clamp", 480, 8000), ("stitch", 80, 1000)],
            ["two"], ["SeenOneGeneration", "OneGeneration"], []),
    "C12": (["clock", "list", "time", "flags", "regen", "deriv"], [("general", 90, 4000), ("model", 50, 2000), ("border", 100, 3000), ("deriv", 60, 1000), ("multi", 50, 1000), ("general@mem", 32, 1000)],
            ["speed"], ["ClockIsLastReal"], ["clockBack", "plotMoves"]),
    "C13": (["dur"], [("quick", 220, 6000), ("multi", 140, 3000), ("general", 30, 1500), ("model", 40, 2000)],
            ["live"], [], []),
    "C14": (["del"], [("del", 850, 16000), ("modeldel", 150, 6000), ("del@mem", 300, 4000)],
            ["del"], ["DeadIsQuiet"], ["noWait"]),
    "C15": (["speed", "speeddur"], [("speed", 300, 8000)],
            ["speed"], ["SpeedIsLastSet"], ["speedBack"]),
    "C16": (CORE, [("multi", 140, 8000), ("model", 40, 2000), ("model@mem", 16, 1000), ("multi@mem", 120, 6000), ("general@mem", 48, 2000), ("mod@mem", 48, 2000), ("border@mem", 40, 2000), ("crowd", 120, 4000), ("crowd@mem", 64, 2000)],
            ["two"], ["SeenOneGeneration", "OneGeneration", "InstalledOnce", "PlanIsWhatWasAskedFor"], ["unserialised"]),
    "C17": (["one", "list", "time", "refwp"], [("general", 80, 4000), ("swap", 50, 3000), ("model", 50, 2000), ("multi", 90, 2000), ("quick", 60, 2000), ("multi@mem", 64, 2000)],
            ["two"], ["OneComputation", "InstalledOnce"], ["overlap"]),
}
