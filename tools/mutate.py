#!/usr/bin/env python3
"""Mutation campaign for the planner (development tool, no check uses it): mechanical one-line changes of the planner's
sources, each built in a scratch directory and shown to a few runs of the trace check; lists the ones it accepts.
mutate.py list | mutate.py run CORES FIRST STEP [N runs per family] [family,...]"""
import os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/mu"
FILES = ["src/dynamic_trajectory.cpp", "src/dynamic_waypoint.cpp", "include/dynamic_trajectory_generator/utils/traj_modifiers.hpp",
         "include/dynamic_trajectory_generator/thread_safe_trajectory.hpp", "include/dynamic_trajectory_generator/dynamic_waypoint.hpp",
         "include/dynamic_trajectory_generator/dynamic_trajectory.hpp"]
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" < ", " > "), (r" > ", " < "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" \* ", " / "), (r"\btrue\b", "false"),
        (r"\bfalse\b", "true"), (r"if \((?!.*;)(.*)\)$", r"if (!(\1))"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"emplace_front", "emplace_back")]


def mutants():
    for f in FILES:
        L = open("/repo/" + f).read().split("\n")
        deep = False
        for i, l in enumerate(L):
            s = l.strip()
            if "/*" in s and "*/" not in s:
                deep = True
            if "*/" in s:
                deep = False
                continue
            if deep or not s or s.startswith(("parameters.", "//", "#", "DYNAMIC_LOG", "/*", "namespace", "using", "template", "class", "struct", "public", "private")):
                continue
            code = l.split("//")[0].rstrip()
            seen = set()
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + m.expand(b) + code[m.end():]
                    if n not in seen and n != code:
                        seen.add(n)
                        yield f, i, n
            if code.endswith(";") and not re.match(r"\s*(return|const [\w:]+ \w+ =|[\w:<>]+ [\w]+( =.*)?;|auto |double |int |bool |float |static )", code) and (code.count("(") == code.count(")")):
                yield f, i, ""
            if re.match(r"\s*(const )?std::lock_guard", code):
                yield f, i, ""


def order():
    M = list(enumerate(mutants()))
    random.Random(1).shuffle(M)
    return M


def run(cores, first, step, n, fams):
    d = os.path.join(W, "w%d" % first)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s --one-top-level=repo" % d, shell=True, check=True)
    subprocess.run(["cp", "-a", V + "/build/mav", d + "/"], check=False)
    b = d + "/b"
    os.makedirs(b)
    shutil.move(d + "/mav", b + "/mav")
    subprocess.run("touch %s/mav/*.o %s/mav/*/*.o; rm -f %s/mav/*.d %s/mav/*/*.d" % (b, b, b, b), shell=True)
    mk = ["taskset", "-c", cores, "nice", "-n", "15", "make", "-s", "-f", V + "/harness/Makefile", "REPO=" + d + "/repo", "OUT=" + b, "all"]
    for k, (f, i, new) in order()[first::step]:
        p = os.path.join(d, "repo", f)
        old = open(p).read()
        L = old.split("\n")
        was = L[i]
        L[i] = new
        open(p, "w").write("\n".join(L))
        r = subprocess.run(mk, capture_output=True, text=True)
        if r.returncode:
            res = "no build"
        else:
            res = ""
            for fm, m in (("general,mod,stitch", max(2, n // 2)), (fams, n)):
                try:
                    r = subprocess.run(["taskset", "-c", cores, "nice", "-n", "15", "python3", V + "/tools/tracecheck.py", fm, str(m), "5"],
                                       capture_output=True, text=True, env=dict(os.environ, VERIF_BUILD=b), timeout=900)
                    rej = [l for l in r.stdout.splitlines() if l.startswith("REJ")]
                    a = re.search(r"inconclusive (\d+)", r.stdout)
                    res = "caught %d" % len(rej) if rej else "SURVIVES inc %s %s" % (a and a.group(1), r.stderr[-200:].replace("\n", " "))
                    if rej:
                        break
                except subprocess.TimeoutExpired:
                    res = "SURVIVES timeout"
                    break
        print("%d %s | %s:%d | %s => %s" % (k, res, os.path.basename(f), i + 1, was.strip(), new.strip()), flush=True)
        open(p, "w").write(old)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for k, (f, i, n) in enumerate(mutants()):
            print(k, os.path.basename(f), i + 1, n.strip())
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]) if len(sys.argv) > 5 else 12,
            sys.argv[6] if len(sys.argv) > 6 else "general,mod,border,multi,stitch,clamp,deriv,quick,speed,del")
