"""Scripts for harness/driver: families of scenarios, each drawn from a seeded random generator.
A script is a list of lines; every script is one run of the real planner under the virtual
scheduler, recorded and checked against spec/PlannerTrace.tla."""
import random


def r2(x):
    return ("%.2f" % x).rstrip("0").rstrip(".") if "." in "%.2f" % x else "%.2f" % x


class S:
    def __init__(self, rng, policy=None, cost=None, quick=False, sleeper=None):
        self.r = rng
        self.L = []
        self.n = 0
        self.names = []          # names that may be in the plan
        self.pos = (0.0, 0.0, 0.0)
        self.dup = 0             # probability that a waypoint gets the name of another one
        self.cons = 0            # probability that a waypoint has a velocity of its own
        self.cost = cost if cost is not None else rng.choice([0.01, 0.02, 0.03, 0.05])
        pol = policy if policy is not None else rng.choice([0, 1, 1, 1, 2])
        pre = rng.choice([0.02, 0.05, 0.1, 0.3])
        sl = sleeper if sleeper is not None else rng.choice([0, 0, 0.02, 0.1])
        self.cfg = "CFG seed %d policy %d preempt %g sleeper %g depth %d len %d cost %g jitter %g quick %d mid %g" % (
            rng.randrange(1, 10**9), pol, pre, sl, rng.choice([2, 3, 5]), rng.choice([500, 2000, 6000]),
            self.cost, rng.choice([0, 0.05]), 1 if quick else 0, rng.choice([0, 0.5, 1]))

    def __call__(self, fmt, *a):
        self.L.append(fmt % a if a else fmt)

    def point(self, step=None):
        d = step or self.r.uniform(1.5, 5)
        x, y, z = self.pos
        ang = self.r.uniform(-1, 1)
        self.pos = (round(x + d, 2), round(y + d * ang * 0.6, 2), round(max(0.2, z + self.r.uniform(-0.5, 0.8)), 2))
        return "%s %s %s" % tuple(r2(v) for v in self.pos)

    def name(self, unnamed=0.0):
        if self.r.random() < unnamed:
            return "-"
        if self.dup and self.names and self.r.random() < self.dup:
            return self.r.choice(self.names)
        self.n += 1
        if self.r.random() < self.cons:
            self.con("w%d" % self.n)
        return "w%d" % self.n

    def set(self, n, unnamed=0.0):
        w = []
        self.names = []
        for _ in range(n):
            nm = self.name(unnamed)
            if nm != "-":
                self.names.append(nm)
            w.append("%s %s" % (nm, self.point()))
        self("SET %d %s" % (n, " ".join(w)))

    def app(self, unnamed=0.0):
        nm = self.name(unnamed)
        if nm != "-":
            self.names.append(nm)
        self("APP %s %s" % (nm, self.point()))

    def con(self, name, speed=1.5):
        """a velocity of its own for the waypoint called name, roughly along the way"""
        a = self.r.uniform(-0.5, 0.5)
        v = self.r.choice([0, 0.3, 0.6, 0.9]) * speed
        self("CON %s %s %s %s" % (name, r2(v), r2(v * a), r2(v * self.r.uniform(-0.1, 0.1))))

    def near(self):
        x, y, z = self.pos
        f = self.r.uniform(0.1, 1)
        return "%s %s %s" % (r2(x * f + self.r.uniform(-1, 1)), r2(y * f + self.r.uniform(-1, 1)), r2(max(0.2, z + self.r.uniform(-0.5, 0.5))))

    def anyname(self):
        return self.r.choice(self.names) if self.names else "nobody"

    def mod(self, g):
        self("MOD %s %s %d" % (self.anyname(), self.near(), g))

    def mods(self):
        k = self.r.choice([1, 2, 3])
        ns = self.names[:]
        self.r.shuffle(ns)
        ns = ns[:k] or ["nobody"]
        self("MODS %d %s" % (len(ns), " ".join("%s %s" % (n, self.near()) for n in ns)))

    def start(self, nwp=None, speed=None, unnamed=0.0):
        self("NEW")
        self("SPEED %g", speed or self.r.choice([1, 1.5, 2, 3]))
        if self.r.random() < 0.8:
            self.pos = (round(self.r.uniform(-3, 3), 2), round(self.r.uniform(-3, 3), 2), round(self.r.uniform(0, 2), 2))
        self("VEH %s %s %s" % tuple(r2(v) for v in self.pos))
        self.set(nwp or self.r.choice([1, 2, 3, 4]), unnamed)

    def request(self, unnamed=0.0, setp=1):
        k = self.r.choices(["set", "app", "mod", "modg", "mods", "empty", "unk", "speed", "veh"],
                           [1.2 * setp, 3, 2, 2, 1, 0.3, 0.5, 0.5, 0.5])[0]
        if k == "set":
            self.set(self.r.choice([1, 2, 3]), unnamed)
        elif k == "app":
            self.app(unnamed)
        elif k == "mod":
            self.mod(0)
        elif k == "modg":
            self.mod(1)
        elif k == "mods":
            self.mods()
        elif k == "empty":
            if "EVAL 0" in self.L:   # before the first trajectory nothing would be left to plan
                self("SET 0")
        elif k == "unk":
            self("MOD nobody%d %s %d" % (self.r.randrange(9), self.near(), self.r.choice([0, 1])))
        elif k == "speed":
            self("SPEED %g", self.r.choice([1, 1.5, 2, 3]))
        elif k == "veh":
            self("VEH %s" % self.near())

    def query(self):
        self(self.r.choice(["OBS", "NEXT", "REM", "FLAGS", "REGEN", "PLAN", "BASE", "OFF", "GETSPEED", "EVAL 500 1", "EVAL -3 1", "EVAL 2 1"]))

    def wait(self):
        k = self.r.choice(["poll", "poll", "step", "sleep", "runw", "runw", "runc", "pre", "pre", "none"])
        if k == "poll":
            self("POLL %g %d %d", self.r.choice([0.01, 0.02, 0.05]), self.r.randrange(1, 12), self.r.choice([0, 1, 3]))
        elif k == "step":
            self("STEP %g", self.r.choice([0.005, 0.02, 0.1, 0.3]))
        elif k == "sleep":
            self("SLEEP %g", self.r.choice([0.005, 0.012, 0.03, 0.1]))
        elif k == "runw":
            self("RUNW %d", self.r.randrange(1, 60))
        elif k == "runc":
            self("RUNC %d", self.r.choice([1, 5, 1000]))
        elif k == "pre":
            self("PRE %d %s %d", self.r.randrange(0, 40), self.r.choice("WWC"), self.r.choice([1, 3, 10, 30, 80, 300]))

    def settle(self, dt=0.02, n=3000):
        self("SETTLE %g %d", dt, n)

    def end(self):
        self("NOPRE")
        if self.r.random() < 0.7:
            self("DEL")
        return [self.cfg] + self.L


def general(rng):
    s = S(rng)
    un = rng.choice([0, 0, 0.2])
    s.dup = rng.choice([0, 0, 0.2])
    s.start(unnamed=un)
    if rng.random() < 0.2:
        s.request(un)
    s("EVAL 0")
    if rng.random() < 0.8:
        s.settle(0.02, 100)
        if rng.random() < 0.5:
            s("PROBE")
    for _ in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(1, 4)):
            s.request(un)
            if rng.random() < 0.6:
                s.wait()
            if rng.random() < 0.5:
                s.query()
        s("POLL 0.02 %d %d", rng.randrange(1, 8), rng.choice([0, 1, 2]))
        if rng.random() < 0.6:
            s.settle()
            s("REGEN")
        if rng.random() < 0.4:
            s("PROBE")
        if rng.random() < 0.3:
            s("EVALWP %d %g 1", rng.choice([0, 0, 0, 1, 2]), rng.choice([-0.3, -0.002, 0.00001, 0.05, 0.3]))
    s.settle()
    s("REGEN")
    s("REGEN")
    s("PROBE")
    s("REM")
    return s.end()


def planned(s, nwp=None, speed=None, unnamed=0.0, settle=True):
    """a planner with a trajectory in use"""
    s.start(nwp, speed, unnamed)
    s("EVAL 0")
    if settle:
        s.settle(0.02, 200)


def mod(rng):
    """local moves, compared sample by sample with what was there before"""
    s = S(rng, policy=rng.choice([0, 1]), sleeper=0)
    s.dup = rng.choice([0, 0, 0, 0.3])
    planned(s, rng.choice([2, 3, 4]), rng.choice([1, 1.5, 2]))
    for _ in range(rng.choice([1, 2])):
        k = rng.random()
        if k < 0.3:
            s("EVALWP %d %g 1", rng.choice([0, 0, 1]), rng.choice([-1.0, -0.5, -0.05, 0, 0, 0.05, 0.3]))
        elif k < 0.85:
            s("STEP %g", rng.choice([0.1, 0.5, 1, 2]))
        step = rng.choice([0.1, 0.15, 0.25])
        s("OBS")
        s("SAMPLE 0 %g %d", step, int(12 / step))
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.1:
                s("MOD nobody %s 0", s.near())
            elif k < 0.2:
                s("MOD - %s 0", s.near())
            else:
                s.mod(0)
            s("SLEEP 0.05")
            s("REGEN")
            s("SAMPLE 0 %g %d", step, int(12 / step))
        s("PROBE")
        if rng.random() < 0.4:
            s.request()
            s.settle()
            s("PROBE")
    return s.end()


def stitch(rng):
    """a new plan while the old trajectory is being followed"""
    s = S(rng)
    s.cons = rng.choice([0, 0, 0.5])
    planned(s, rng.choice([2, 3, 4]))
    for _ in range(rng.choice([1, 2, 3])):
        s("POLL 0.02 %d 3", rng.randrange(1, 20))
        if rng.random() < 0.3:
            s("STEP %g", rng.choice([0.3, 1, 2]))
        s("PLAN")
        s("BASE")
        s("OFF")
        s("CURVE 0 0.02 %d", rng.choice([100, 200]))
        k = rng.random()
        if k < 0.4:
            s.app()
        elif k < 0.6:
            s.mod(1)
        elif k < 0.7:
            s.mods()
        else:
            s.set(rng.choice([1, 2, 3]))
        s("POLL 0.02 %d 1", rng.randrange(3, 10))
        s.settle()
        s("PROBE")
    return s.end()


def speed(rng):
    """the same problem planned from scratch at several speeds"""
    s = S(rng, cost=0.01)
    s("NEW")
    s("VEH 0 0 1")
    wps = []
    for i in range(rng.choice([1, 2, 3])):
        wps.append("p%d %s" % (i, s.point()))
    order = [rng.choice([0.3, 0.5, 1, 2]), rng.choice([0.3, 0.5, 1, 2, 4]), rng.choice([0.3, 1, 2, 4])]
    if rng.random() < 0.25:
        order = rng.sample([0.1, 0.2, 0.4, 1, 3], 3)
    if rng.random() < 0.3:
        order[1] = order[0]
    first = True
    for v in order:
        s("SPEED %g", v)
        s("GETSPEED")
        if not first:
            s("VEH 0 0 1")
        s("SET %d %s", len(wps), " ".join(wps))
        if rng.random() < 0.2:
            s("PRE %d %s %d", rng.randrange(0, 10), "W", rng.choice([3, 30]))
            s("SPEED %g", v)
        elif rng.random() < 0.4:      # while it is being computed
            s(rng.choice(["RUNW %d" % rng.choice([20, 40, 60]), "SLEEP 0.005"]))
            s("SPEED %g", rng.choice([0.3, 0.5, 1, 2, 3]))
            if rng.random() < 0.3:
                s("GETSPEED")
        if first:
            s("EVAL 0")
        else:
            s("POLL 0.02 12 1")
        s("GETSPEED")
        s.settle(0.02, 300)
        s("PROBE")
        if rng.random() < 0.4:
            s("SPEED %g", rng.choice([0.5, 1, 2]))
            s("POLL 0.02 3 1")
            s("GETSPEED")
        s("EVALEND %g", rng.choice([0, 0.5]))
        first = False
    return s.end()


def quick(rng):
    """everything but the first evaluation goes on while a computation takes long"""
    s = S(rng, policy=rng.choice([0, 1]), cost=rng.choice([0.1, 0.5, 2, 5]), quick=True, sleeper=0)
    s.start(rng.choice([1, 2, 3, 6]), rng.choice([None, None, 0.5, 1]))
    k = rng.random()
    if k < 0.4:
        s("EVAL 0")
    elif k < 0.6:
        s("PLAN")
    elif k < 0.8:
        s("BASE")
        s("EVAL 0")
    else:
        s("SLEEP 7")
        s("EVAL 0")
    s("POLL 0.02 3 1")
    for _ in range(rng.choice([2, 3])):
        for _ in range(rng.choice([1, 2])):
            s.request()
        s("SLEEP %g", rng.choice([0.005, 0.03]))
        for _ in range(rng.randrange(3, 7)):
            s(rng.choice(["OBS", "NEXT", "REM", "FLAGS", "REGEN", "PLAN", "BASE", "OFF", "GETSPEED", "EVAL 50 1", "EVAL -3 1", "EVAL 2 1",
                          "POLL 0.02 2 1", "POLL 0.02 2 1"]))
            if rng.random() < 0.3:
                s.request()
        s("POLL %g %d 1", rng.choice([0.05, 0.3]), rng.randrange(3, 9))
    s("POLL 0.5 30 4")
    s.settle(0.5, 300)
    return s.end()


def multi(rng):
    """several consumers"""
    s = S(rng, policy=rng.choice([1, 1, 2]))
    n = rng.choice([1, 2])
    early = rng.random() < 0.4
    body = []
    for c in range(1, n + 1):
        b = ["CLOCK 0"] if early else []
        for _ in range(rng.randrange(3, 8)):
            b.append(rng.choice(["EVAL 50 1", "EVAL 0.1 1", "PLAN", "NEXT", "BASE", "REM", "OFF", "SLEEP 0.02", "SLEEP 0.03", "REGEN",
                                 "PLAN", "EVAL 3 1", "PLAN"]))
        body.append(b)
    if early:
        body = [[x for x in b if x not in ("REGEN",)] for b in body]
    s.start(rng.choice([1, 2]))
    pre = []
    for c in range(1, n + 1):
        pre += ["CLIENT %d" % c] + body[c - 1] + ["ENDCLIENT"]
    s.L = pre + s.L
    if not early:
        s("EVAL 0")
        s.settle(0.02, 100)
    for _ in range(rng.choice([1, 2])):
        if rng.random() < 0.7:
            s.request()
    for c in range(1, n + 1):
        s("SPAWN %d", c)
    if early:
        s("EVAL 0")
    for _ in range(rng.randrange(2, 5)):
        k = rng.random()
        if k < 0.3:
            s.request()
        elif k < 0.7:
            s("STEP 0.02")
        else:
            s(rng.choice(["PLAN", "NEXT", "BASE", "FLAGS"]))
    s("JOIN")
    s.settle()
    s("REGEN")
    s("REGEN")
    s("PROBE")
    return s.end()


def swap(rng):
    """requests wait while a computation is running; the worker goes on somewhere inside the call that installs its result"""
    s = S(rng, policy=0, sleeper=0)
    planned(s, rng.choice([1, 2, 3]))
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([1, 2])):
            s.request(setp=0.5)
        s("STEP 0.01")
        s("RUNW %d", rng.choice([40, 60, 80]))
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.5:
                s.app()
            elif k < 0.7:
                s.mod(1)
            elif k < 0.85:
                s.mods()
            else:
                s.request()
        s("RUNC 1000")
        if rng.random() < 0.3:
            s("RUNW %d", rng.randrange(1, 60))
        if rng.random() < 0.6:
            s("PRE %d W %d S", rng.randrange(0, 3), rng.choice([100, 200, 400]))
        else:
            s("PRE %d W %d", rng.randrange(0, 120), rng.choice([30, 60, 100, 200, 400]))
        s("STEP 0.01")
        s("PLAN")
        if rng.random() < 0.5:
            s.settle()
    s.settle()
    s("REGEN")
    s("PROBE")
    return s.end()


def crowd(rng):
    """several threads request, evaluate and query"""
    s = S(rng, policy=rng.choice([1, 1, 2]))
    n = rng.choice([1, 2])
    s.start(rng.choice([1, 2, 3]))
    top = s.L
    s.L = []
    for c in range(1, n + 1):
        s("CLIENT %d", c)
        s("CLOCK 0.%d", rng.randrange(10))
        for _ in range(rng.randrange(2, 6)):
            k = rng.choice(["app", "app", "mod", "modg", "mods", "speed", "veh", "set", "query", "query", "query", "eval", "sleep"])
            if k == "app":
                s("APP x%d_%d %s", c, rng.randrange(3), s.point())
            elif k == "mod":
                s.mod(0)
            elif k == "modg":
                s.mod(1)
            elif k == "mods":
                s.mods()
            elif k == "speed":
                s("SPEED %g", rng.choice([1, 1.5, 2, 3]))
            elif k == "veh":
                s("VEH %s", s.near())
            elif k == "set":
                s("SET 1 y%d %s", c, s.point())
            elif k == "eval":
                s("STEP %g", rng.choice([0.01, 0.1]))
            elif k == "sleep":
                s("SLEEP %g", rng.choice([0.005, 0.02, 0.03]))
            else:
                s(rng.choice(["EVAL 50 1", "EVAL 2 1", "PLAN", "NEXT", "BASE", "FLAGS", "GETSPEED"]))
        s("ENDCLIENT")
    s.L += top
    s("EVAL 0")
    if rng.random() < 0.6:
        s.settle(0.02, 100)
    for c in range(1, n + 1):
        s("SPAWN %d", c)
    for _ in range(rng.randrange(2, 5)):
        k = rng.random()
        if k < 0.4:
            s.request()
        elif k < 0.7:
            s("STEP 0.02")
        else:
            s(rng.choice(["PLAN", "NEXT", "BASE", "FLAGS"]))
    s("JOIN")
    s.settle()
    s("REGEN")
    s("REGEN")
    s("PROBE")
    return s.end()


def dele(rng):
    """the end of the planner, at any moment"""
    s = S(rng, cost=rng.choice([0.02, 0.3, 1]))
    k = rng.random()
    if k < 0.1:
        s("NEW")
    elif k < 0.4:
        s.start(rng.choice([1, 2, 3]))
        s("RUNW %d", rng.randrange(1, 60))
    else:
        s.start(rng.choice([1, 2, 3]))
        s("EVAL 0")
        s("POLL 0.02 %d 2", rng.randrange(1, 5))
        for _ in range(rng.choice([0, 1, 2])):
            s.request()
            s.wait()
        if rng.random() < 0.5:
            s("POLL 0.02 %d 2", rng.randrange(1, 4))
    if rng.random() < 0.6:
        s("PRE %d %s %d", rng.randrange(0, 6), rng.choice("WWC"), rng.choice([1, 3, 10, 30, 80, 300]))
    s("DEL")
    s("SLEEP 2")
    return [s.cfg] + s.L


def border(rng):
    """requests made while the clock is near the time of a waypoint"""
    s = S(rng)
    un = rng.choice([0, 0, 0.3])
    planned(s, rng.choice([2, 3, 4]), unnamed=un)
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.3:
            s("PRE %d W %d", rng.randrange(0, 40), rng.choice([3, 10, 30, 80]))
        if rng.random() < 0.5:
            s.request(un)
        s("EVALWP %d %g 1", rng.randrange(0, 5), rng.choice([-0.6, -0.3, -0.1, -0.05, -0.002, 0, 0.00001, 0.002, 0.05, 0.3]))
        s("NEXT")
        s("REM")
        if rng.random() < 0.7:
            s.request(un, 0.3)
        for _ in range(rng.choice([0, 1, 1])):
            s.wait()
        if rng.random() < 0.3:
            s.app(un)
        s("POLL 0.02 %d 1", rng.randrange(2, 8))
        s("REM")
        if rng.random() < 0.7:
            s.settle()
            s("PROBE")
    s.settle()
    s("PROBE")
    return s.end()


def clamp(rng):
    """outside of the trajectory, also after its last waypoint was moved"""
    s = S(rng, policy=rng.choice([0, 1]))
    s.cons = rng.choice([0, 0.5])
    planned(s, rng.choice([1, 2, 3]), unnamed=rng.choice([0, 0, 0.2]))
    if rng.random() < 0.4:
        # a later generation whose first waypoints are far away and moved at once: the bend reaches back before its start
        s("STEP %g", rng.choice([1, 3, 6]))
        if rng.random() < 0.3:
            s("EVALEND %g", rng.choice([0.2, 4]))
        s.pos = (s.pos[0] + rng.uniform(5, 20), s.pos[1] + rng.uniform(-5, 5), s.pos[2])
        s.set(rng.choice([1, 2]))
        s.settle()
        s("MOD %s %s 0", rng.choice(s.names), s.near())
        s("SLEEP 0.05")
        for _ in range(rng.choice([2, 4])):
            s("EVALBASE %g", -rng.choice([0.05, 0.3, 0.8, 1.5, 3, 9]))
        s("EVALBASE 0.5")
    for _ in range(rng.choice([1, 2])):
        for _ in range(rng.choice([1, 2])):
            k = rng.random()
            if k < 0.25:
                s("EVALEND %g", rng.choice([-0.1, 0, 0.001, 0.3, 5, 100]))
            elif k < 0.5 and s.names:
                s("MOD %s %s 0", s.names[-1], s.near())
                s("SLEEP 0.05")
            elif k < 0.7:
                s.mod(0)
                s("SLEEP 0.05")
            else:
                s("STEP %g", rng.choice([0.1, 0.5]))
        s("EVAL -100 1")
        s("EVAL -0.5 1 1")
        s("EVAL 900 1")
        s("EVAL 60 1 1")
        s("RSAMPLE -0.3 0.05 8")
        s("PROBE")
        if rng.random() < 0.5:
            s("POLL 0.02 2 1")
            s("EVALEND %g", rng.choice([0.2, 2]))
            s.request()
            s.settle()
            s("PROBE")
    return s.end()


def deriv(rng):
    """dense samples: velocity and acceleration are the derivatives of the position"""
    s = S(rng, policy=0, sleeper=0)
    s.cons = rng.choice([0, 0.5])
    planned(s, rng.choice([1, 2, 3]))
    for _ in range(2):
        if rng.random() < 0.6:
            s("STEP %g", rng.choice([0.2, 0.7, 1.5]))
        s("PLAN")
        s("BASE")
        s("OFF")
        if rng.random() < 0.8:
            s.mod(0)
            s("SLEEP 0.05")
        s("RSAMPLE %g 0.007 %d", rng.uniform(0, 3), 60)
        s("RSAMPLE %g 0.004 %d", rng.uniform(0, 2), 60)
        s("PROBE")
        if rng.random() < 0.4:
            s.request()
            s.settle()
    return s.end()


FAMILIES = {"general": general, "mod": mod, "stitch": stitch, "speed": speed, "quick": quick, "multi": multi, "crowd": crowd, "swap": swap,
            "del": dele, "border": border, "clamp": clamp, "deriv": deriv}


def modeldel(h, rng):
    """the planner is destroyed somewhere in a behaviour of the specification"""
    L = model(h[:rng.randrange(1, len(h) + 1)], rng, False)
    if rng.random() < 0.6:
        L.append("PRE %d %s %d" % (rng.randrange(0, 6), rng.choice("WWC"), rng.choice([1, 3, 10, 30, 80, 300])))
    return L + ["DEL", "SLEEP 2"]


def model(h, rng, finish=True):
    """a behaviour of spec/GenPlanner.tla: the same requests and questions, the worker and the computation moved on
    between and inside them as in the behaviour; everything else stands still (policy 0)"""
    s = S(rng, policy=rng.choice([0, 0, 0, 1]), sleeper=rng.choice([0, 0, 0.02]))
    s("NEW")
    s("SPEED %g", rng.choice([1, 1.5, 2]))
    s("VEH 0 0 1")
    s.pos = (0.0, 0.0, 1.0)
    s.names = ["a", "b", "c", "d"]
    unit = rng.choice([0.05, 0.2, 0.5, 1])
    w = rng.choice([1, 2, 4])          # scheduling points of the code for a step of the specification
    first = True

    def moves(i):
        """steps inside the operation that begins at h[i]: (operation's own step so far, "w" or "c")"""
        res, k, j = [], 0, i + 1
        while j < len(h) and h[j]["op"] in "swcr":
            if h[j]["op"] == "r":
                return res, j
            if h[j]["op"] == "s":
                k += 1
            else:
                res.append((k, h[j]["op"]))
            j += 1
        return res, j - 1
    i = 0
    while i < len(h):
        e = h[i]
        op = e["op"]
        if op in "wc":
            s("RUNW %d" % (w * rng.randrange(1, 7)) if op == "w" else "RUNC 1000")
        elif op in ("s", "r"):
            pass
        else:
            inside = op in ("eval", "plot", "plan", "min", "regen", "next", "mods")
            if inside:
                m, j = moves(i)
                waits = op in ("eval", "plot", "plan", "min") and first
                at = {}
                for k, who in m:
                    at.setdefault((k, who), 0)
                    at[(k, who)] += 1
                for (k, who), n in ([] if waits else at.items()):
                    s("PRE %d %s %d", 3 * k + rng.randrange(0, 3), "W" if who == "w" else "C", w * n * rng.randrange(1, 7) if who == "w" else 1000)
                i = j
            if op == "set":
                s("SET %d %s" % (len(e["wps"]), " ".join("%s %s" % (x["n"], s.point()) for x in e["wps"])))
            elif op == "app":
                s("APP %s %s" % (e["n"], s.point()))
            elif op in ("mod", "modg"):
                s("MOD %s %s %d" % (e["n"], s.near(), op == "modg"))
            elif op == "mods":
                s("MODS %d %s" % (1, "%s %s" % (e["n"], s.near())))
            elif op == "speed":
                s("SPEED %g", rng.choice([1, 1.5, 2, 3]))
            elif op == "veh":
                s("VEH %s" % s.near())
            elif op == "eval":
                s("EVAL 0" if first else "STEP %g" % (e["t"] * unit))
                first = False
            elif op == "plot":
                s("EVAL %g 1", rng.choice([-2, 0.5, 2, 50]))
                first = False
            elif op == "plan":
                s("PLAN")
                first = False
            elif op == "min":
                s("BASE")
                first = False
            elif op == "regen":
                s("REGEN")
            elif op == "next":
                s("NEXT")
        i += 1
    s("NOPRE")
    if not finish:
        return [s.cfg] + s.L
    s("OBS")
    if not first or any(e["op"] in ("set", "app") for e in h):
        s("EVAL 0" if first else "STEP 0.02")
        s.settle()
        s("REGEN")
        s("PROBE")
    return s.end()
