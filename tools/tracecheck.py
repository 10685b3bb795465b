"""Runs scripts on the real planner and validates the recorded traces with TLC."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VERIF_BUILD") or os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ALL = ["list", "flags", "regen", "settle", "time", "clock", "refwp", "refout", "start", "stitch", "deriv", "cont",
       "move", "jump", "dur", "del", "speed", "speeddur", "zone", "one"]


def tlc(args, timeout, env=None, dfs=False, heap="3g", cwd=None, race=None):
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    meta = tempfile.mkdtemp(prefix="tlc", dir=B)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC" if not dfs else "-XX:+UseSerialGC"]
    if dfs:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque", "-XX:TieredStopAtLevel=1"]
    cmd += ["-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta] + args
    t0 = time.time()
    with tempfile.TemporaryFile("w+", dir=B) as log:
        p = subprocess.Popen(cmd, cwd=cwd or SPEC, env=e, stdout=log, stderr=subprocess.STDOUT, text=True)
        late = ""
        while True:
            try:
                rc = p.wait(1)
                break
            except subprocess.TimeoutExpired:
                if time.time() - t0 > timeout or (race and race.get("t") and time.time() > race["t"]):
                    p.kill()
                    p.wait()
                    rc, late = -1, "\nTIMEOUT"
                    break
        log.seek(0)
        out = log.read() + late
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t0


def cfg(checks, path, budget):
    with open(path, "w") as f:
        f.write("SPECIFICATION TraceSpec\nCONSTANTS\n  Clients = {0,1,2,3}\n  UNK <- MUnk\n  NOPOS <- MNoPos\n  Fuzz = 2\n"
                "  Defects = {}\n  Budget = %d\n  Checks = {%s}\nCONSTRAINT Progress\nPOSTCONDITION Done\nCHECK_DEADLOCK FALSE\n"
                % (budget, ",".join('"%s"' % c for c in checks + ["ok"])))


def histories(n, seed):
    """behaviours of the specification to be replayed"""
    rc, out, dt = tlc(["-workers", "1", "-simulate", "num=%d" % (n + n // 3 + 20), "-depth", "400", "-seed", str(int(seed) + 77), "-config", "GenPlanner.cfg", "GenPlanner.tla"], 1800)
    hs = list({l: json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')}.values())
    if len(hs) < n:     # some behaviours do not get to their end
        raise RuntimeError("%d of %d behaviours: %s" % (len(hs), n, out[-2000:]))
    return hs[:n]


def scripts(family, n, seed):
    """family@mem: also preempted at memory accesses, and heap accesses that nothing orders are failures"""
    import scen
    out = []
    fam, _, mem = family.partition("@")
    if fam.startswith("model"):
        hs = histories(n, seed)
    for i in range(n):
        rng = random.Random("%s/%s/%d" % (family, seed, i))
        ls = getattr(scen, fam)(hs[i], rng) if fam.startswith("model") else scen.FAMILIES[fam](rng)
        if mem:
            assert ls[0].startswith("CFG")
            ls = [ls[0] + " mempre %g memburst %g memmax %d races 1" % (rng.choice([0, 0.0003, 0.001, 0.003, 0.01]), rng.choice([0.1, 0.2, 0.4, 1]), rng.choice([20, 40, 80]))] + ls[1:]
        out.append(("%s-%s-%d" % (family.replace("@", "_"), seed, i), ls))
    return out


def drive(runs, path, driver=None, timeout=600):
    """runs: [(id, lines)]; writes the trace; returns {id: [trace lines]}"""
    with open(path + ".script", "w") as f:
        for i, ls in runs:
            f.write("RUN %s\n%s\n" % (i, "\n".join(ls)))
    subprocess.run([driver or os.path.join(B, "driver"), path + ".script", path], timeout=timeout, check=True)
    return splitruns(path)


def splitruns(path):
    res, cur = {}, None
    for line in open(path):
        if line.startswith('{"k":"run"'):
            cur = json.loads(line)["op"]
            res[cur] = []
        res[cur].append(line)
    return {i: hints(ls) for i, ls in res.items()}


THR = re.compile(r'"c":(\d+),"op":"(cbody|cp|cend|cstart)","n":(\d+)')


def hints(lines, tail=40):
    """keeps of the steps of a computation only its start, its end and one shortly before its end;
    start and that step once more as "one" lines, which stay when the hints are removed"""
    out, cand = [], {}

    def keep(tid, upto):
        ks = cand.pop(tid, [])
        good = [k for k in ks if upto is None or out[k][1] <= upto] or ks[:1]
        for k in ks:
            out[k] = out[k][0].replace('"op":"cp"', '"op":"cbody"') if good and k == (good[0] if upto is None else good[-1]) else None
    for l in lines:
        m = THR.search(l) if l.startswith('{"k":"thr"') else None
        if m:
            tid, op, n = m.group(1), m.group(2), int(m.group(3))
            if op in ("cbody", "cp"):
                cand.setdefault(tid, []).append(len(out))
                out.append((l, n))
                continue
            if op == "cend":
                keep(tid, n - tail)
        out.append(l)
    for tid in list(cand):   # a computation that does not end
        keep(tid, None)
    res = []
    for x in out:
        if x is None:
            continue
        res.append(x)
        if x.startswith('{"k":"thr"') and ('"op":"cstart"' in x or '"op":"cbody"' in x):
            res.append(x.replace('"k":"thr"', '"k":"one"'))
    return res


def validate(traces, checks, work, tag, budget=40000, timeout=300, maxrej=3, race=None):
    """traces: {id: lines}. Returns (accepted ids, rejected [(id, line number in the run, line)], inconclusive ids, states)"""
    acc, rej, inc, states = [], [], [], 0
    c = os.path.join(work, "%s.cfg" % tag)
    cfg(checks, c, budget)
    todo = list(traces)
    t0 = time.time()
    k = 0
    while todo:
        f = os.path.join(work, "%s_%d.nd" % (tag, k))
        k += 1
        starts, n = [], 1
        with open(f, "w") as o:
            for i in todo:
                starts.append(n)
                o.writelines(traces[i])
                n += len(traces[i])
        left = timeout - (time.time() - t0)
        if left < 5 or (race and race.get("t") and time.time() > race["t"]):
            inc += todo
            break
        rc, out, dt = tlc(["-workers", "1", "-config", c, "PlannerTrace.tla"], left, {"TRACE": f}, dfs=True, race=race)
        m = re.search(r"([\d,]+) states generated", out[out.rfind("Model checking completed"):] if "Model checking completed" in out else out)
        states += int(m.group(1).replace(",", "")) if m else 0
        if "ACCEPTED" in out:
            acc += todo
            os.unlink(f)
            break
        m = re.search(r'(REACHED|BUDGET)", (\d+)', out)
        bud = "BUDGET" in out or "TIMEOUT" in out
        if not m and not bud:
            raise RuntimeError("TLC failed on %s:\n%s" % (f, out[-3000:]))
        if not m:   # a timeout without position
            inc += todo
            break
        line = int(m.group(2))
        at = max(j for j in range(len(todo)) if starts[j] <= line)
        acc += todo[:at]
        if bud:
            inc.append(todo[at])
        else:
            if race is not None and not race.get("t"):   # the other shards need not finish
                race["t"] = time.time() + 45
            rej.append((todo[at], line - starts[at] + 1, traces[todo[at]][line - starts[at]].strip()))
        os.unlink(f)
        todo = todo[at + 1:]
        if len(rej) >= maxrej:
            inc += todo
            break
    return acc, rej, inc, states


def loose(lines):
    """looser hints: a computation may be taken over any time after its start"""
    out = []
    for l in lines:
        if l.startswith('{"k":"thr"') and '"op":"cbody"' in l:
            continue
        out.append(l)
        if l.startswith('{"k":"thr"') and '"op":"cstart"' in l:
            out.append(l.replace('"op":"cstart"', '"op":"cbody"'))
    return out


def bare(lines):
    """without the life of the computations; the rounds of the worker stay"""
    return [l.replace('"hint":true', '"hint":false') for l in lines if not l.startswith('{"k":"thr"') or '"op":"wake"' in l]


def plain(lines):
    """the same trace without the hints"""
    return [l.replace('"hint":true', '"hint":false') for l in lines if not l.startswith('{"k":"thr"')]


def cut(i, lines, most=900):
    """the beginning of a very long run of the instrumented build (a failure it ends with is kept)"""
    return lines if "_mem-" not in i or len(lines) <= most or any('"k":"fail"' in l for l in lines[-6:]) else lines[:most]


def campaign(plan, checks, seed, work, jobs=8, budget=40000, timeout=500, log=None):
    """plan: [(family, n)]. Drives and validates everything, sharded."""
    runs = []
    for fam, n in plan:
        runs += scripts(fam, n, seed)
    shards = [runs[i::jobs] for i in range(jobs)]
    shards = [s for s in shards if s]

    race = {}

    def one(k):
        tr = {}
        for mem in (False, True):
            part = [x for x in shards[k] if ("_mem-" in x[0]) == mem]
            if part:
                tr.update(drive(part, os.path.join(work, "t%d_%d.nd" % (k, mem)), os.path.join(B, "memdriver" if mem else "driver")))
        tr = {i: cut(i, tr[i]) for i, _ in shards[k] if i in tr}
        missing = [i for i, _ in shards[k] if i not in tr]
        r = validate(tr, checks, work, "s%d" % k, budget, timeout, race=race)
        return r + (sum(len(x) for x in tr.values()), tr, missing)
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, range(len(shards))))
    out = {"accepted": [], "rejected": [], "inconclusive": [], "states": 0, "events": 0, "missing": []}
    traces = {}
    for a, r, i, s, ev, tr, mi in res:
        out["accepted"] += a; out["rejected"] += r; out["inconclusive"] += i; out["states"] += s; out["events"] += ev; out["missing"] += mi
        traces.update(tr)
    out["scripts"] = dict(runs)
    out["traces"] = traces
    return out


if __name__ == "__main__":   # tracecheck.py family n seed [checks]
    sys.path.insert(0, os.path.join(V, "tools"))
    w = tempfile.mkdtemp(prefix="w", dir=B)
    t = time.time()
    fams = [(f, int(sys.argv[2])) for f in sys.argv[1].split(",")]
    o = campaign(fams, sys.argv[4].split(",") if len(sys.argv) > 4 else ALL, sys.argv[3], w)
    print("accepted", len(o["accepted"]), "rejected", len(o["rejected"]), "inconclusive", len(o["inconclusive"]), "states", o["states"],
          "events", o["events"], "missing", o["missing"], "%.1fs" % (time.time() - t))
    for i, l, line in o["rejected"]:
        open(os.path.join(B, "rej_%s.nd" % i), "w").writelines(o["traces"][i])
        open(os.path.join(B, "rej_%s.txt" % i), "w").write("RUN %s\n" % i + "\n".join(o["scripts"][i]))
        print("REJ", i, l, line[:300])
    print("INC", o["inconclusive"][:10])
    for i in o["inconclusive"][:10]:
        open(os.path.join(B, "inc_%s.nd" % i), "w").writelines(o["traces"][i])
    shutil.rmtree(w)
