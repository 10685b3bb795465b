#!/usr/bin/env python3
"""run.py build            build the harness from /repo
   run.py check ID         decide one property (VERIF_SEED, VERIF_TIER)
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tracecheck as T
from table import PLANNER, PIN

V, B = T.V, T.B
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
REPLAY = os.path.join(B, "replay")


def make(target="all"):
    p = subprocess.run(["make", "-s", "-C", os.path.join(V, "harness"), "-j8", "OUT=" + B, target], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("build failed:\n" + p.stdout[-3000:])


def known(pid):
    """findings listed in known/findings.txt: KNOWN property=<id> match=<text of a violation> | <what fails>"""
    out = []
    f = os.path.join(V, "known", "findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def mc(cfgs, invs, defects, work, thorough):
    """exhaustive configurations of the specification; every defect configuration must be rejected"""
    st = tr = 0
    names = []
    for c in cfgs:
        src = open(os.path.join(T.SPEC, "MCPlanner_%s.cfg" % c)).read()
        if invs:
            src = re.sub(r"INVARIANTS? .*", "INVARIANTS " + " ".join(invs), src)
        if thorough:
            src = re.sub(r"MaxOps = (\d+)", lambda m: "MaxOps = %d" % (int(m.group(1)) + 1), src)
        f = os.path.join(work, "mc_%s.cfg" % c)
        open(f, "w").write(src)
        rc, out, dt = T.tlc(["-workers", "8", "-config", f, "MCPlanner.tla"], 800 if not thorough else 7200, heap="8g" if not thorough else "20g")
        if "No error has been found" not in out:
            raise RuntimeError("specification %s: %s" % (c, out[-2500:]))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)[-1]
        tr += int(m[0].replace(",", "")); st += int(m[1].replace(",", ""))
        names.append("%s: %s distinct states, %.0f s" % (c, m[1], dt))
    bites = []
    for d in defects:
        rc, out, dt = T.tlc(["-workers", "4", "-config", "MCPlanner_x_%s.cfg" % d, "MCPlanner.tla"], 300)
        m = re.search(r"Invariant (\w+) is violated", out)
        if not m:
            raise RuntimeError("the specification does not reject the defect %s: %s" % (d, out[-2000:]))
        bites.append("%s -> %s" % (d, m.group(1)))
    return st, tr, names, bites


def confirm(args):
    """a rejection with hints: is the prefix of the run rejected with looser hints, and without them?"""
    rid, upto, line, lines, checks, work, stop, until, loose_first = args
    if '"k":"fail"' in line:
        stop.append(1)
        return rid, "rejected", line
    tag = re.sub(r"\W", "_", rid)
    if loose_first:
        if stop or time.time() > until:
            return rid, "unseen", line
        a, r, i, s = T.validate({rid: T.loose(lines[:upto])}, checks, work, "cl_" + tag, 300000, 60)
        if a:
            return rid, "accepted", line
    last = None
    for mode, strip in (("bare", T.bare), ("plain", T.plain)):
        if stop or time.time() > until:
            return rid, last or "unseen", line
        a, r, i, s = T.validate({rid: strip(lines[:upto])}, checks, work, mode + tag, 400000, 60)
        if mode == "plain" and r:
            stop.append(1)
            return rid, "rejected", r[0][2]
        if mode == "bare":
            if a:
                return rid, "accepted", line
            last = "bare" if r else "open"
            line = r[0][2] if r else line
    return rid, last, line


def judge(rej, o, checks, work, loose_first, strip=None):
    """rejected runs: (violation or None, "hints" if the hints are not to be believed, "open" or "fine")"""
    if not rej:
        return None, "fine"
    total = len(rej) + len(o["accepted"])
    rej = sorted(rej, key=lambda r: ('"k":"fail"' not in r[2], r[1]))[:16]   # fails first, then the shortest
    stop, until = [], time.time() + 150
    with ThreadPoolExecutor(8) as ex:
        c = list(ex.map(confirm, [(i, l, line, (strip or list)(o["traces"][i]), checks, work, stop, until, loose_first) for i, l, line in rej]))
    for x in c:
        if x[1] == "rejected":
            return x, "fine"
    if sum(x[1] == "accepted" for x in c) * 2 > sum(x[1] == "bare" for x in c):
        return None, "hints"
    # only when the worker's rounds are disregarded, too, is there an explanation, or the search is too long to tell:
    # the rounds explain most other runs
    for v in ("bare", "open"):
        o1 = [x for x in c if x[1] == v]
        if o1 and len(o["accepted"]) >= (0.3 if v == "bare" or len(o1) >= 4 else 0.8) * total:
            return o1[0], "fine"
    return None, "open"


def planner(pid):
    t0 = time.time()
    thorough = TIER == "thorough"
    checks, fams, cfgs, invs, defects = PLANNER[pid]
    checks = list(dict.fromkeys(checks + PIN))
    make(os.path.join(B, "driver"))
    if any("@mem" in f[0] for f in fams):
        make("mem")
    work = tempfile.mkdtemp(prefix="chk", dir=B)
    try:
        with ThreadPoolExecutor(1) as ex:
            st, tr, names, bites = mc(cfgs, invs, defects, work, thorough)
        plan = [(f, t if thorough else q) for f, q, t in fams]
        o = T.campaign(plan, checks, SEED, work, timeout=7200 if thorough else 420)
        if o["missing"]:
            raise RuntimeError("no trace of %s" % o["missing"][:5])
        total = len(o["accepted"]) + len(o["rejected"]) + len(o["inconclusive"])
        note = ""
        viol, verdict = judge(o["rejected"], o, checks, work, loose_first=True)
        for mode, strip in (("looser hints", T.loose), ("rounds of the worker only", T.bare), ("without hints", T.plain)):
            if viol or verdict != "hints":
                break
            # the life of the threads is not what the hints assume
            note = mode
            done = set(o["accepted"])
            ids = [i for i in o["traces"] if i not in done][:400]
            race = {}
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda k: T.validate({i: strip(o["traces"][i]) for i in ids[k::8]}, checks, work, "%s%d" % (mode[:4], k), 100000, 150, race=race), range(8)))
            rej = []
            for a, r, i, s in res:
                o["accepted"] += a; o["states"] += s; rej += r
            o["inconclusive"] = [i for r in res for i in r[2]]
            if mode == "without hints":
                viol = (rej[0][0], "rejected", rej[0][2]) if rej else None
                break
            viol, verdict = judge([(i, l, line) for i, l, line in rej], o, checks, work, loose_first=False, strip=strip)
        ev = {
            "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": st + o["states"], "transitions": tr + o["states"],
                "traces_validated_against_impl": len(o["accepted"]),
                "samples": [{"run": i, "script": o["scripts"][i][:30], "trace": [x.strip()[:300] for x in o["traces"][i][:12]]} for i in o["accepted"][:2]],
                "exhaustive_configurations": names, "invariants": invs or ["Returns", "Ends", "TakenOver"], "defects_rejected": bites,
                "conditions": checks, "families": {f: n for f, n in plan}, "runs": total, "events": o["events"],
                "inconclusive": len(o["inconclusive"]), "rejected_with_hints": len(o["rejected"]), "note": note},
            "assumptions": ["scheduling points are synchronisation operations and sleeps", "waypoint coordinates within 60 m, times within 1000 s"],
            "wall_s": 0, "violations": 0}
        rc = 0
        if viol:
            rid = viol[0]
            os.makedirs(REPLAY, exist_ok=True)
            path = os.path.join(REPLAY, "%s_%s" % (pid, re.sub(r"\W", "_", rid)))
            open(path + ".script", "w").write("RUN %s\n" % rid + "\n".join(o["scripts"][rid]) + "\n")
            open(path + ".nd", "w").writelines(o["traces"][rid])
            text = viol[2]
            open(path + ".txt", "w").write("property %s: the run %s of the real planner is not a behaviour of spec/PlannerTrace.tla with Checks=%s.\nfirst line that cannot be explained:\n%s\nreplay: %s/%s %s.script OUT\n" % (pid, rid, checks, text, B, "memdriver" if "_mem-" in rid else "driver", path))
            for match, what in known(pid):
                if match in text:
                    print("KNOWN-FINDING: property=%s %s" % (pid, what))
                    break
            else:
                rc = 1
                ev["violations"] = 1
                print("rejected: run %s line %s" % (rid, text[:600]))
                print("VIOLATION property=%s replay=%s" % (pid, path + ".script"))
        ev["wall_s"] = round(time.time() - t0, 1)
        evidence(pid, ev)
        print("%s: %d runs accepted, %d rejected with hints, %d inconclusive, %d states, %.0f s %s" % (
            pid, len(o["accepted"]), len(o["rejected"]), len(o["inconclusive"]), st + o["states"], ev["wall_s"], note))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(pid, ev):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    os.makedirs(B, exist_ok=True)
    if sys.argv[1] == "build":
        make("every")
        return 0
    pid = sys.argv[2]
    if pid in PLANNER:
        return planner(pid)
    import libcheck
    return libcheck.check(pid)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
