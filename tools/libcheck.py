"""Decides the library properties: exhaustive runs of the machines of the specification, histories generated from them and
inputs from libscen run on the real library, the answers checked by spec/LibTrace.tla."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import tracecheck as T
import libscen
from libtable import LIB

V, B = T.V, T.B


def generate(lib, n, depth, seed, work, tag):
    """n histories of a machine of the specification"""
    rc, out, dt = T.tlc(["-workers", "1", "-simulate", "num=%d" % n, "-depth", str(depth + 3), "-seed", str(seed),
                         "-config", "Gen%s.cfg" % lib[0], "%s.tla" % lib[1]], 600)
    res = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            res.append(("%s-%d" % (tag, len(res)), [json.dumps(x, separators=(",", ":")) for x in h]))
    if len(res) < n:
        raise RuntimeError("%d of %d histories of %s: %s" % (len(res), n, lib, out[-2000:]))
    return res


def validate(sections, work, k, limit=800):
    """runs sections on the library and checks the answers: (lines, [(section, line number, line)])"""
    s = os.path.join(work, "l%d.in" % k)
    t = os.path.join(work, "l%d.nd" % k)
    with open(s, "w") as f:
        for i, ls in sections:
            f.write("\n".join(ls) + "\n")
    subprocess.run([os.path.join(B, "libdriver"), s, t], check=True, timeout=limit, stdout=subprocess.DEVNULL)
    lines = open(t).read().splitlines()
    starts = [i for i, x in enumerate(lines) if '"op":"start"' in x] + [len(lines)]
    owner = []
    for i, ls in sections:
        owner += [i] * sum('"op":"start"' in x for x in ls)
    res, cut = [], set()
    while True:      # an answer so far off that the specification cannot compute with it ends its section
        keep = [n for n in range(len(lines)) if n not in cut]
        with open(t, "w") as f:
            f.write("".join(lines[n] + "\n" for n in keep))
        rc, out, dt = T.tlc(["-workers", "1", "-config", "LibTrace.cfg", "LibTrace.tla"], limit, {"TRACE": t}, heap="4g")
        m = re.search(r'<<\s*"RESULT",\s*(\d+),\s*<<([^>]*)>>\s*>>', out)
        if m and int(m.group(1)) == len(keep):
            bad = [keep[int(x) - 1] for x in m.group(2).replace("\n", " ").split(",") if x.strip()]
            break
        at = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if not at or len(cut) > 400 or "Error:" not in out or int(at[-1]) > len(keep):
            raise RuntimeError("TLC failed on %s:\n%s" % (t, out[-3000:]))
        n = keep[int(at[-1]) - 1]
        j = max(j for j, st in enumerate(starts) if st <= n)
        res.append((owner[j], n + 1 - starts[j], lines[n]))
        cut |= set(range(starts[j], starts[j + 1]))
        if len(res) >= 5:
            bad = []
            break
    for b in bad:
        j = max(j for j, st in enumerate(starts) if st <= b)
        res.append((owner[j], b + 1 - starts[j], lines[b]))
    return lines, res


def check(pid):
    import run
    t0 = time.time()
    c = LIB[pid]
    thorough = run.TIER == "thorough"
    run.make(os.path.join(B, "libdriver"))
    work = tempfile.mkdtemp(prefix="lib", dir=B)
    try:
        st = tr = 0
        names, bites = [], []
        for cfg, mod in c.get("mc", []):
            src = open(os.path.join(T.SPEC, cfg + ".cfg")).read()
            if thorough:
                src = re.sub(r"Depth = (\d+)", lambda m: "Depth = %d" % (int(m.group(1)) + 1), src)
            f = os.path.join(work, cfg + ".cfg")
            open(f, "w").write(src)
            rc, out, dt = T.tlc(["-workers", "8", "-config", f, mod + ".tla"], 7200 if thorough else 600, heap="8g")
            if "No error has been found" not in out:
                raise RuntimeError("specification %s: %s" % (cfg, out[-2500:]))
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)[-1]
            tr += int(m[0].replace(",", "")); st += int(m[1].replace(",", ""))
            names.append("%s: %s distinct states, %.0f s" % (cfg, m[1], dt))
        for cfg, mod in c.get("defects", []):
            rc, out, dt = T.tlc(["-workers", "4", "-config", cfg + ".cfg", mod + ".tla"], 300)
            m = re.search(r"Invariant (\w+) is violated", out)
            if not m:
                raise RuntimeError("the specification does not reject %s: %s" % (cfg, out[-2000:]))
            bites.append("%s -> %s" % (cfg, m.group(1)))
        secs, plan = [], {}
        for fam, q, th in c["fams"]:
            n = th if thorough else q
            plan[fam] = n
            secs += libscen.sections(fam, n, run.SEED)
        for lib, mod, depth, q, th in c.get("gen", []):
            n = th if thorough else q
            plan["histories of " + mod] = n
            # several generators, differently seeded
            with ThreadPoolExecutor(8) as ex:
                parts = list(ex.map(lambda k: generate((lib, mod), (n + 7) // 8, depth, run.SEED * 100 + k, work, "%s%d" % (lib, k)), range(8)))
            for p in parts:
                secs += p
        shards = [secs[k::8] for k in range(8)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda k: validate(shards[k], work, k, 7200 if thorough else 800), [k for k in range(8) if shards[k]]))
        lines = sum(len(l) for l, b in res)
        bad = sorted([b for l, bs in res for b in bs], key=lambda b: b[1])
        by = dict(secs)
        found = {}
        rc = 0
        for i, n, line in bad:
            for match, what in run.known(pid):
                if re.search(match, line):
                    found[what] = found.get(what, 0) + 1
                    break
            else:
                if rc == 0:
                    rc = 1
                    os.makedirs(run.REPLAY, exist_ok=True)
                    path = os.path.join(run.REPLAY, "%s_%s" % (pid, re.sub(r"\W", "_", i)))
                    open(path + ".nd", "w").write("\n".join(by[i]) + "\n")
                    open(path + ".txt", "w").write("property %s: the answer of the library is not the specification's (spec/LibTrace.tla)\nline %d of its section:\n%s\nreplay: build/libdriver %s.nd OUT; TRACE=OUT tlc -config LibTrace.cfg LibTrace.tla\n" % (pid, n, line, path))
                    print("not explained: section %s, line %d: %s" % (i, n, line[:700]))
                    print("VIOLATION property=%s replay=%s" % (pid, path + ".nd"))
        for what, n in found.items():
            print("KNOWN-FINDING: property=%s %s (%d times)" % (pid, what, n))
        run.evidence(pid, {
            "property": pid, "tier": run.TIER, "seed": run.SEED, "level": "model_checking",
            "coverage": {"states": st + lines, "transitions": tr + lines, "traces_validated_against_impl": len(secs),
                         "samples": [{"section": i, "lines": [x[:300] for x in ls[:8]]} for i, ls in secs[:2]],
                         "exhaustive_configurations": names, "defects_rejected": bites, "families": plan, "operations": lines,
                         "answers_not_explained": len(bad)},
            "assumptions": c["assume"], "wall_s": round(time.time() - t0, 1), "violations": rc})
        print("%s: %d sections, %d operations, %d answers not explained, %d states, %.0f s" % (pid, len(secs), lines, len(bad), st, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":    # libcheck.py family n seed
    w = tempfile.mkdtemp(prefix="lib", dir=B)
    t = time.time()
    lines, bad = validate(libscen.sections(sys.argv[1], int(sys.argv[2]), sys.argv[3]), w, 0)
    print("%s: %d lines, %d bad, %.1f s" % (sys.argv[1], len(lines), len(bad), time.time() - t))
    seen = {}
    for i, n, line in bad:
        op = json.loads(line)["op"]
        seen.setdefault(op, []).append((i, n, line))
    for op, xs in seen.items():
        print(op, len(xs))
        for i, n, line in xs[:3]:
            print("  ", i, n, line[:600])
    shutil.rmtree(w)
