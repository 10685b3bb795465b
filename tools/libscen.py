"""Inputs for the library: sections of operations, one JSON object per line (see spec/LibTrace.tla, harness/libdriver.cpp).
Everything is integer, in the units of the specification.  Nothing here says what the answer is."""
import json, random

L = {}


def fam(f):
    L[f.__name__[2:]] = f
    return f


def peval(c, u, k=0):
    s = 0
    for i in range(len(c) - 1, k - 1, -1):
        f = 1
        for j in range(k):
            f *= i - j
        s = s * u + f * c[i]
    return s


def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def poly(r, n, t, lim):
    """n coefficients with |values| below lim on [0, t]"""
    c = [r.randint(-lim // 2, lim // 2)]
    for i in range(1, n):
        m = lim // (2 * n * t ** i)
        c.append(r.randint(-m, m) if m else (r.randint(-1, 1) if r.random() < 0.3 and t ** i * 2 < lim else 0))
    return c


def traj(r, n=None, d=None, k=None, lim=150, ts=None, q=1, times=None):
    n = n or r.choice([2, 3, 4, 4, 5])
    d = d or r.choice([1, 2, 3, 3, 4])
    k = k or r.choice([1, 2, 3, 4])
    segs = []
    for i in range(k):
        t = times[i] if times else r.choice(ts or [1, 2, 3, 4, 8])
        segs.append({"t": t, "p": [poly(r, n, max(t, 1), lim) for _ in range(d)]})
    return {"op": "new", "q": q, "n": n, "d": d, "segs": segs}


def total(t):
    return sum(s["t"] for s in t["segs"])


def borders(t):
    b = [0]
    for s in t["segs"]:
        b.append(b[-1] + s["t"])
    return b


@fam
def g_eval(r):
    t = traj(r, k=r.choice([1, 2, 3, 5]))
    out = [{"op": "start", "f": 0}, t]
    T = total(t)
    us = set(borders(t)) | {T + 1, T + 5} | {r.randint(0, T) for _ in range(4)}
    for u in sorted(us):
        for k in r.sample(range(0, t["n"] + 1), 2):
            out.append({"op": "eval", "r": 1, "u": u, "k": k})
    out.append({"op": "vse", "r": 1, "k": r.randint(0, 3)})
    out.append({"op": "vall", "r": 1, "k": r.randint(0, 3)})
    out.append({"op": "vat", "r": 1, "u": r.randint(0, T), "k": r.randint(0, 4)})
    out.append({"op": "vall2", "r": 1, "k": r.randint(0, 3), "j": r.randint(0, 2)})
    # the same after it has been changed
    what = r.choice(["scale", "addsegs", "off", "copy", "clear", "add"])
    if what == "scale":
        out += [{"op": "start", "f": 6}, dict(traj(r, n=3, ts=[4, 8], lim=60), q=1)]
        out[-1]["segs"] = [{"t": s["t"], "p": [[x * 64 for x in p] for p in s["p"]]} for s in out[-1]["segs"]]
        t = out[-1]
        ab = r.choice([(2, 1), (1, 2), (4, 1), (1, 4)])
        out.append({"op": "scale", "q": 1, "a": ab[0], "b": ab[1]})
        T = total(t) * ab[0] // ab[1]
        for u in sorted({0, T, T + 1} | {b * ab[0] // ab[1] for b in borders(t)}):
            out.append({"op": "eval", "r": 1, "u": u, "k": r.randint(0, 2)})
    elif what in ("addsegs", "add"):
        t2 = traj(r, n=t["n"], d=t["d"], q=2)
        out.append(t2)
        if what == "addsegs":
            out.append({"op": "addsegs", "q": 1, "r": 2})
        else:
            out.append({"op": "add", "q": 1, "r": 1, "s": [2, 2]})
        for u in sorted(set([T + b for b in borders(t2)]) | {T, T + 1, T + 2 * total(t2)}):
            out.append({"op": "eval", "r": 1, "u": u, "k": r.randint(0, 2)})
    elif what == "off":
        out.append({"op": "off", "q": 1, "x": [r.randint(-50, 50) for _ in range(r.choice([1, 3, 4]))]})
        for u in borders(t):
            out.append({"op": "eval", "r": 1, "u": u, "k": r.randint(0, 1)})
    elif what == "copy":
        out += [{"op": "copy", "q": 2, "r": 1}, {"op": "eq", "r": 1, "s": 2}, {"op": "eval", "r": 2, "u": T, "k": 1}]
    else:
        out += [{"op": "copy", "q": 3, "r": 1}, {"op": "clear", "q": 1}, {"op": "eq", "r": 1, "s": 3}, {"op": "app", "q": 2, "r": 1, "s": 3}, traj(r, q=1), {"op": "eval", "r": 1, "u": 1, "k": 0}, {"op": "vall", "r": 2, "k": 1}]
    return out


@fam
def g_range(r):
    t = traj(r, d=r.choice([1, 2, 3, 4, 5, 6]), k=r.choice([1, 2, 3, 4]), lim=60)
    out = [{"op": "start", "f": 0}, t]
    T = total(t)
    for _ in range(4):
        u0 = r.choice([0, 0, r.randint(0, T), T, r.choice(borders(t))])
        u1 = r.choice([T, T + r.randint(1, 6), r.randint(0, T), u0, r.choice(borders(t))])
        out.append({"op": "range", "r": 1, "k": r.randint(0, 3), "u0": u0, "u1": u1, "du": r.choice([1, 2, 3, 5, 7]), "st": r.random() < 0.7})
    for _ in range(3):
        u0 = r.choice([0, r.randint(0, T), -1 if r.random() < 0.3 else 0])
        u1 = r.choice([T, r.randint(0, T), T + 1, u0])
        out.append({"op": "srange", "r": 1, "u0": u0, "u1": u1, "du": r.choice([1, 2, 3])})
    u0 = r.randint(0, T)
    out.append({"op": "sstart", "r": 1, "u0": u0, "u1": r.choice([0, T - u0, r.randint(0, T), T - u0 + 1]), "du": r.choice([1, 2, 5])})
    out.append({"op": "swhole", "r": 1, "du": r.choice([1, 2, 3, 4])})
    for u in r.sample([0, T, T + 1, -1] + borders(t), 3):
        out.append({"op": "sat", "r": 1, "u": u})
    i = r.randrange(len(t["segs"]))
    for u in (0, t["segs"][i]["t"], t["segs"][i]["t"] + 1, -1):
        out.append({"op": "sseg", "r": 1, "k": i, "u": u})
    for _ in range(3):
        u0 = r.choice([0, r.randint(0, T)])
        out.append({"op": "rangef", "r": 1, "k": r.randint(0, 2), "u0": u0, "u1": r.choice([T, r.randint(u0, T), T + 2]), "a": r.choice([10, 30, 70, 100, 123, 333])})
    if r.random() < 0.3:
        out.append({"op": "sfile", "r": 1, "bad": r.random() < 0.2})
    if r.random() < 0.05:    # a trajectory that takes no time has no samples
        out += [traj(r, d=3, times=[0] * 4, q=2), {"op": "sfile", "r": 2, "bad": False}]
    return out


@fam
def g_rot(r):
    """six dimensions: position and a rotation about one axis"""
    ax = r.randrange(3)
    p = [poly(r, 3, 4, 40) for _ in range(3)] + [[0, 0, 0] for _ in range(3)]
    p[3 + ax] = [r.randint(-3, 3), r.choice([-1, 0, 1]), 0]
    t = {"op": "new", "q": 1, "n": 3, "d": 6, "segs": [{"t": 3, "p": p}, {"t": 2, "p": p}]}
    out = [{"op": "start", "f": 0}, t, {"op": "swhole", "r": 1, "du": 1}]
    out += [{"op": "sat", "r": 1, "u": u} for u in range(6)]
    out += [{"op": "sseg", "r": 1, "k": 0, "u": u} for u in (0, 1, 3)]
    # four: yaw that turns many times
    y = [r.randint(-20, 20), r.randint(-8, 8), r.choice([0, 0, 1, -1])]
    t = {"op": "new", "q": 1, "n": 3, "d": 4, "segs": [{"t": 4, "p": p[:3] + [y]}, {"t": 3, "p": p[:3] + [[r.randint(-4, 4), 1, 0]]}]}
    out += [{"op": "start", "f": 0}, t, {"op": "swhole", "r": 1, "du": 1}, {"op": "srange", "r": 1, "u0": 1, "u1": 6, "du": 2}] + [{"op": "sat", "r": 1, "u": u} for u in (0, 3, 4, 7)]
    return out


@fam
def g_compose(r):
    f = 6
    out = [{"op": "start", "f": f}]

    def mk(q, n, d, times):
        t = traj(r, n=n, d=d, k=len(times), times=times, q=q, lim=60)
        for s in t["segs"]:
            s["p"] = [[x * 64 for x in p] for p in s["p"]]
        return t
    k = r.choice([1, 2, 3])
    ta = [r.choice([2, 4, 8]) for _ in range(k)]
    tb = [r.choice([x, x, 2 * x, max(2, x // 2)]) for x in ta]
    na, nb = r.choice([2, 3, 4]), r.choice([2, 3, 4])
    da, db = r.choice([1, 2, 3]), r.choice([1, 2])
    out += [mk(1, na, da, ta), mk(2, nb, db, tb), {"op": "app", "q": 3, "r": 1, "s": 2}]
    for j in range(da + db):
        out.append({"op": "single", "q": 4 + (j % 3), "r": 3, "k": j})
    out.append({"op": "app", "q": 4, "r": 0, "s": 1})
    out.append({"op": "app", "q": 4, "r": 1, "s": 0})
    i = r.randrange(k)
    out.append({"op": "sapp", "r": 1, "s": 2, "i": i, "j": i})
    out.append({"op": "ssingle", "r": 1, "i": i, "k": r.choice([0, da - 1, da, -1])})
    out.append({"op": "off", "q": 3, "x": [64 * r.randint(-9, 9) for _ in range(r.choice([1, 2, 3, 4]))]})
    out.append(mk(5, na, da, [r.choice([2, 4]) for _ in range(r.choice([1, 2]))]))
    out.append({"op": "add", "q": 6, "r": 1, "s": r.choice([[5], [5, 5], [2], [5, 2], [1], []])})
    out.append({"op": "eval", "r": 6, "u": r.randint(0, 20), "k": 1} if out[-1]["s"] and 2 not in out[-1]["s"] else {"op": "eval", "r": 1, "u": 1, "k": 0})
    out.append({"op": "eq", "r": 1, "s": r.choice([1, 2, 5])})
    out.append({"op": "addsegs", "q": 1, "r": 5})
    out.append({"op": "scale", "q": 1, "a": r.choice([1, 2]), "b": 1})
    return out


@fam
def g_scale(r):
    out = [{"op": "start", "f": 6}]
    n = r.choice([2, 3, 4])
    t = traj(r, n=n, k=r.choice([1, 2, 3]), ts=[4, 8], lim=50)
    for s in t["segs"]:
        s["p"] = [[x * 64 for x in p] for p in s["p"]]
    out.append(t)
    num = den = 1
    for _ in range(r.choice([1, 2, 3])):
        a, b = r.choice([(2, 1), (1, 2), (1, 1), (4, 1)])
        if num * a > 4 * den * b or den * b > 2 * num * a:
            continue
        num, den = num * a, den * b
        out.append({"op": "scale", "q": 1, "a": a, "b": b})
        T = total(t) * num // den
        for u in {0, T, r.randint(0, T)} | {x * num // den for x in borders(t)}:
            out.append({"op": "eval", "r": 1, "u": u, "k": r.randint(0, n - 1)})
    return out


@fam
def g_limits(r):
    out = []
    for _ in range(3):
        n = r.choice([3, 3, 3, 4])
        k = r.choice([1, 2, 3])
        d = r.choice([1, 1, 2, 3])
        t = traj(r, n=n, d=d, k=k, ts=[2, 4, 8], lim=200)
        if all(p[1:] == [0] * (n - 1) for s in t["segs"] for p in s["p"]):
            t["segs"][0]["p"][0][1] = 7
        v = max(max(abs(peval(p, u, 1)) for u in range(s["t"] + 1)) for s in t["segs"] for p in s["p"]) or 1
        a = max(max(abs(peval(p, u, 2)) for u in range(s["t"] + 1)) for s in t["segs"] for p in s["p"]) or 1
        out += [{"op": "start", "f": 0}, t]
        for _ in range(3):
            out.append({"op": "lim", "q": 1, "v": max(1, int(v * r.choice([0.2, 0.5, 0.8, 1.5, 3, 10]))), "a": max(1, int(a * r.choice([0.1, 0.3, 0.7, 2, 10])))})
    return out


# ------------------------------------------------------------------ stored trajectories
def docseg(r, n, d, u=None):
    t = u if u is not None else r.choice([1, 3, 4, 9])
    return {"has": ["N", "D", "time", "coefficients"], "bad": "", "N": n, "D": d, "u": t, "p": [[r.randint(-9, 9) for _ in range(n)] for _ in range(d)]}


def text(doc, r):
    top = doc["top"]
    if top == "nosegs":
        return "other: 3"
    if top == "scalar":
        return "hello"
    if top == "null":
        return ""
    if top == "broken":
        return "segments: [{N: 2, D: [}"
    if top == "segscalar":
        return "segments: 7"
    if top == "segmap":
        return "segments: {N: 2}"
    items = []
    for s in doc["segs"]:
        if s["bad"] == "item":
            items.append(r.choice(["5", "hello", "[1, 2]", "~"]))
            continue
        parts = []
        for k in s["has"]:
            if k == s["bad"]:
                parts.append("%s: %s" % (k, r.choice(["hello", "{a: 1}", "[]"] if k == "coefficients" else ["hello", "{a: 1}", "[1]", "-2.5", "~"])))
            elif k == "coefficients":
                rows = ["[%s]" % ", ".join(str(c * 4 ** i) for i, c in enumerate(row)) for row in s["p"]]
                if s["bad"] == "row":
                    rows[r.randrange(len(rows))] = r.choice(["[%s]" % ", ".join(["x"] * s["N"]), "hello", "{a: 1}"])
                parts.append("coefficients: [%s]" % ", ".join(rows))
            elif k == "time":
                parts.append("time: %d" % (s["u"] * 250000000))
            else:
                parts.append("%s: %d" % (k, s[k]))
        items.append("{%s}" % ", ".join(parts))
    return "segments: [%s]" % ", ".join(items)


@fam
def g_save(r):
    out = [{"op": "start", "f": r.choice([0, 3])}, traj(r, n=r.choice([1, 2, 3, 4, 6]), d=r.choice([1, 2, 3, 4]), lim=500)]
    for kind in ("node", "text", "file"):
        out.append({"op": "save", "r": 1, "q": 2, "k": r.choice([1, 1, 2, 5]), "kind": kind})
        out.append({"op": "eq", "r": 1, "s": 2})
    for kind in ("node", "file"):
        for _ in range(2):
            out.append({"op": "exact", "x": r.randint(1, 2000000), "kind": kind})
    return out


@fam
def g_load(r):
    out = [{"op": "start", "f": 0}, traj(r, n=2, d=1, q=2)]
    for _ in range(6):
        n, d = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        doc = {"top": "map", "segs": [docseg(r, n, d) for _ in range(r.choice([1, 2, 3]))]}
        x = r.randrange(16)
        s = r.choice(doc["segs"])
        if x == 0:
            doc["top"] = r.choice(["nosegs", "scalar", "null", "broken", "segscalar", "segmap"])
        elif x == 1:
            doc["segs"] = []
        elif x in (2, 3):
            s["has"] = [k for k in s["has"] if k != r.choice(["N", "D", "time", "coefficients"])]
        elif x == 4:
            s["p"].append([0] * n)
        elif x == 5:
            s["p"].pop()
        elif x in (6, 7):
            row = r.choice(s["p"])
            row.append(1) if r.random() < 0.5 or not row else row.pop()
        elif x == 8:
            s["N"] = r.choice([0, -1, n + 1, 1000000])
        elif x == 9:
            s["D"] = r.choice([0, -1, d + 1, 1000000])
        elif x in (10, 11):
            s["bad"] = r.choice(["N", "D", "time", "coefficients", "item", "row"])
        elif x == 12:
            doc["segs"].append(docseg(r, n + 1, d) if r.random() < 0.5 else docseg(r, n, d + 1))
        elif x == 13:
            s["u"] = -3
        kind = r.choice(["node", "file", "file"])
        out.append({"op": "load", "q": 2, "kind": kind, "txt": text(doc, r), "doc": doc})
    out.append({"op": "load", "q": 2, "kind": "none", "txt": "", "doc": {"top": "missing", "segs": []}})
    out.append({"op": "eval", "r": 2, "u": 0, "k": 0})
    return out


# ------------------------------------------------------------------ extrema
def shaped(r, t, lim):
    """a quartic-free polynomial with extrema at whole times inside: its derivative is c (u - a)(u - b)"""
    for _ in range(50):
        a, b = r.randint(-1, t + 1), r.randint(-1, t + 1)
        c = r.choice([-6, 6, -12, 12])
        d = [c * a * b, -c * (a + b), c]
        if d[1] % 2 or d[2] % 3:
            continue
        p = [r.randint(-20, 20), d[0], d[1] // 2, d[2] // 3]
        if all(abs(peval(p, u)) <= lim for u in range(t + 1)):
            return p
    return [r.randint(-20, 20), r.randint(-9, 9), 0, 0]


@fam
def g_extrema(r):
    n, d, k = 4, r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
    t = traj(r, n=n, d=d, k=k, ts=[2, 3, 4, 6], lim=120)
    for s in t["segs"]:
        for i in range(d):
            if r.random() < 0.6:
                s["p"][i] = shaped(r, s["t"], 150)
            elif r.random() < 0.2:
                s["p"][i] = [r.randint(-30, 30), 0, 0, 0]
            elif r.random() < 0.2:
                s["p"][i] = [r.randint(-30, 30), r.randint(-5, 5), 0, 0]
    out = [{"op": "start", "f": 0}, t]
    for _ in range(6):
        dims = r.sample(range(d), r.randint(1, d))
        x = r.random()
        if x < 0.06:
            dims = []
        elif x < 0.12:
            dims = dims + [r.choice([d, -1, d + 3])]
        kk = r.choice([0, 0, 1, 1, 2, 3, 4 if r.random() < 0.3 else 0])
        if r.random() < 0.6:
            out.append({"op": "mm", "r": 1, "k": kk, "dims": dims})
        else:
            i = r.randrange(k)
            T = t["segs"][i]["t"]
            u0, u1 = sorted([r.randint(0, T), r.randint(0, T)])
            if r.random() < 0.1:
                u0, u1 = u1 + 1, u0
            out.append({"op": "smm", "r": 1, "i": i, "k": kk, "u0": u0, "u1": u1, "dims": dims})
    out.append({"op": "maxva", "r": 1})
    q = traj(r, n=3, d=r.choice([1, 2, 3]), k=k, ts=[2, 4], lim=120, q=3)
    out += [q, {"op": "maxva", "r": 3}]
    for _ in range(5):
        p = shaped(r, 6, 300) if r.random() < 0.7 else poly(r, r.choice([1, 2, 3, 4]), 6, 200)
        out.append({"op": "pnew", "q": 1, "p": p})
        u0 = r.randint(-2, 4)
        u1 = u0 + r.randint(0, 5)
        if r.random() < 0.1:
            u0, u1 = u1 + 1, u0
        k2 = r.choice([0, 0, 0, 1, 2])
        out.append({"op": r.choice(["pmm", "pmmc"]) if k2 < len(p) else "pmm", "r": 1, "k": k2, "u0": u0, "u1": u1})
    return out


# ------------------------------------------------------------------ polynomials
@fam
def g_roots(r):
    out = [{"op": "start", "f": 0}]
    for _ in range(8):
        p = [r.choice([-3, -1, 1, 2])]
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.25:
                b, c = r.randint(-3, 3), r.randint(1, 6)
                q = [b * b + c, -2 * b, 1]
            else:
                q = [-r.randint(-6, 6), 1]
            if len(pmul(p, q)) <= 8 and max(abs(x) for x in pmul(p, q)) < 4000:
                p = pmul(p, q)
        x = r.random()
        if x < 0.15:
            p = p + [0] * r.randint(1, 2)
        elif x < 0.3:
            p = [0] * r.randint(1, 2) + p
        elif x < 0.35:
            p = [0] * len(p)
        elif x < 0.5:
            p = [r.randint(-9, 9) for _ in range(r.randint(1, 7))]
        # keep the whole computation within 32 bits
        if len(p) <= 6 and all(abs(c) * 13 ** i < 3e8 for i, c in enumerate(p)):
            out += [{"op": "pnew", "q": 1, "p": p}, {"op": "proots", "r": 1, "k": r.choice([0, 0, 0, 1]) if len(p) > 1 else 0}]
    return out


@fam
def g_poly(r):
    """higher orders and denominators: single operations"""
    out = [{"op": "start", "f": r.choice([0, 3])}]
    n = r.choice([3, 6, 8, 10, 12])
    p, q = [[r.randint(-9, 9) for _ in range(n)] for _ in range(2)]
    out += [{"op": "pnew", "q": 1, "p": p}, {"op": "pnew", "q": 2, "p": q}, {"op": "padd", "q": 3, "r": 1, "s": 2}, {"op": "paddto", "q": 2, "r": 1},
            {"op": "psc", "q": 4, "r": 1, "x": r.randint(-5, 5)}, {"op": "ppad", "q": 5, "r": 1, "n": r.randint(n - 1, 14)},
            {"op": "poff", "q": 1, "x": r.randint(-9, 9)}]
    for _ in range(4):
        u = r.choice([-1, 0, 1, 2, -2] + ([3] if n <= 6 else []))
        out.append({"op": "pev", "r": r.choice([1, 2, 3]), "u": u, "k": r.randint(0, 4)})
        out.append({"op": "pevv", "r": r.choice([1, 2, 3]), "u": u, "k": r.randint(1, min(n, 5))})
    for k in r.sample(range(n + 1), 2):
        if k <= 6 or n <= 8:
            out.append({"op": "pder", "r": 1, "k": k})
    k = r.randint(0, min(n - 1, 4))
    out.append({"op": "pbase", "n": n, "k": k, "u": r.choice([-1, 0, 1, 2] + ([3] if n <= 8 else []))})
    out.append({"op": "pts", "q": 1, "a": r.choice([-1, 1, 2]), "b": 1})
    out.append({"op": "peq", "r": 1, "s": r.choice([1, 2, 3])})
    return out


# ------------------------------------------------------------------ estimates
@fam
def g_est(r):
    out = [{"op": "start", "f": 0}]
    hyp = [(0, 0, 0), (3, 4, 0), (0, 0, 5), (1, 2, 2), (2, 3, 6), (6, 8, 0), (4, 4, 7), (1, 4, 8), (0, 0, 1), (0, 16, 0), (9, 12, 20), (12, 16, 21), (48, 64, 0), (0, 4, 0), (0, 0, 25)]
    for _ in range(5):
        n = r.randint(2, 7)
        p = [r.randint(-20, 20) for _ in range(3)]
        pts = [list(p)]
        for _ in range(n - 1):
            h = list(r.choice(hyp))
            r.shuffle(h)
            p = [a + b * r.choice([-1, 1]) for a, b in zip(p, h)] if r.random() < 0.85 else [r.randint(-40, 40) for _ in range(3)]
            pts.append(list(p))
        con = [r.choice([0, 0, 1, 2]) for _ in pts]
        v, a = r.choice([10, 50, 100, 100, 200, 300, 500, 2000, 33]), r.choice([10, 50, 100, 100, 200, 400, 900])
        for kind in ("est", "nf", "vr"):
            out.append({"op": "est", "kind": kind, "pts": pts, "con": con, "v0": v, "a": a})
    # one dimension
    pts = [[0]]
    for _ in range(4):
        pts.append([pts[-1][0] + r.choice([0, 1, 4, 9, 16, 25, -36])])
    out += [{"op": "est", "kind": k, "pts": pts, "con": [1, 0, 0, 0, 1], "v0": r.choice([100, 300]), "a": r.choice([100, 400])} for k in ("nf", "vr")]
    return out


# ------------------------------------------------------------------ the optimiser
def cons(r, D, h, kind, val):
    """constraints of a vertex: list of [derivative, values]"""
    if kind == "end":
        m = r.choice([1, 2, h - 1]) if h > 1 else 0
        return [[0, val()]] + [[k, [0] * D] for k in range(1, min(m, h - 1) + 1)]
    out = [[0, val()]]
    for k in range(1, h):
        if r.random() < 0.15:
            out.append([k, [r.randint(-2, 2) for _ in range(D)]])
    return out


@fam
def g_opt(r):
    out = [{"op": "start", "f": 0}]
    D = r.choice([1, 2, 3, 4])
    n = r.choice([4, 6, 8, 10, 10, 12])
    for i in range(3):
        K = r.choice([1, 2, 3, 4])
        h = n // 2
        der = r.choice([x for x in ((1, 2, 3, 4) if n < 10 else (2, 3, 4) if n < 12 else (3, 4)) if x < h] or [1])      # high orders and low derivatives: the costs are only accurate to a few digits
        val = lambda: [r.randint(-20, 20) for _ in range(D)]
        vs = [cons(r, D, h, "end" if j in (0, K) else "mid", val) for j in range(K + 1)]
        if K > 1 and r.random() < 0.2:
            vs[1] = []                      # a vertex that fixes nothing
        if r.random() < 0.2:
            vs[0] = vs[0] + [[h, [1] * D]]  # more than the order can honour
        for c in vs:
            r.shuffle(c)
        out.append({"op": "opt", "kind": r.choice(["lin", "perturb", "perturb"]), "reuse": i > 0 and r.random() < 0.5, "n": n, "d": D, "der": der,
                    "ts": [r.choice([2, 4, 4, 6, 8, 12]) for _ in range(K)], "verts": vs})
    # nothing free: the solution is known
    n = r.choice([4, 6])
    h = n // 2
    K = r.choice([1, 2])
    ts = [r.choice([1, 2, 3]) for _ in range(K)]
    segs = []
    for t in ts:
        p = []
        for d in range(D):
            if not segs:
                c = [r.randint(-9, 9) for _ in range(n)]
            else:
                # agrees with the previous one up to order h - 1
                prev = segs[-1]["p"][d]
                fact = 1
                c = []
                for k in range(h):
                    fact = fact * k if k else 1
                    c.append((peval(prev, segs[-1]["t"], k), fact))
                if any(a % f for a, f in c):
                    c = None
                    break
                c = [a // f for a, f in c] + [r.randint(-3, 3) for _ in range(h)]
            p.append(c)
        if len(p) < D or any(c is None for c in p):
            break
        segs.append({"t": t, "p": p})
    ts = ts[:len(segs)]
    if segs:
        vs = []
        for j in range(len(segs) + 1):
            s, u = (segs[j], 0) if j < len(segs) else (segs[-1], segs[-1]["t"])
            vs.append([[k, [peval(c, u, k) for c in s["p"]]] for k in range(h)])
        out.append({"op": "opt", "kind": "lin", "reuse": r.random() < 0.5, "n": n, "d": D, "der": 2 if n > 4 else 1, "ts": ts, "verts": vs, "sol": segs})
    return out


@fam
def g_spline(r):
    """cubics with a free velocity in the middle, chosen so that the solution is exact in the units"""
    out = [{"op": "start", "f": 6}]
    D = r.choice([1, 2, 3])
    for _ in range(3):
        t1, t2 = r.choice([1, 2, 4]), r.choice([1, 2, 4])
        cols = []
        while len(cols) < D:
            p, v, m, q, w = [64 * r.randint(-9, 9) for _ in range(5)]
            num = 3 * (q - p) + t1 * v + t2 * w
            den = 4 * (t1 + t2)
            if num % den:
                continue
            u = num // den
            if any(x % t ** 3 for t, a, b, c, d in ((t1, p, v, m, u), (t2, m, u, q, w)) for x in (t * (3 * (c - a) - t * (2 * b + d)), t * (b + d) - 2 * (c - a))):
                continue
            cols.append((p, v, m, q, w))
        c = list(zip(*cols))
        vs = [[[0, list(c[0])], [1, list(c[1])]], [[0, list(c[2])]], [[0, list(c[3])], [1, list(c[4])]]]
        out.append({"op": "opt", "kind": "lin", "reuse": r.random() < 0.5, "n": 4, "d": D, "der": 1, "ts": [t1, t2], "verts": vs, "spline": True})
    return out


@fam
def g_nonlin(r):
    out = [{"op": "start", "f": 0}]
    D = r.choice([1, 3, 4])
    K = r.choice([1, 2, 3])
    vs = []
    for j in range(K + 1):
        vs.append([[0, [r.randint(-10, 10) for _ in range(D)]]] + ([[k, [0] * D] for k in (1, 2)] if j in (0, K) else []))
    for j in range(K):
        if vs[j][0] == vs[j + 1][0]:
            vs[j + 1][0][1][0] += 5
    out.append({"op": "opt", "kind": "nonlinear", "reuse": False, "n": 10, "d": D, "der": 4, "ts": [r.choice([8, 12, 16]) for _ in range(K)], "verts": vs, "vm": r.choice([1, 3, 5]), "am": r.choice([2, 4]),
                "alloc": r.choice([0, 1, 2, 2, 3, 4])})
    return out


@fam
def g_mini(r):
    x = 0
    xs = []
    for _ in range(9):
        x += r.choice([0, 1, 50, 3000])
        xs.append(x)
    return [{"op": "start", "f": 0}, {"op": "clock", "x": 5}, {"op": "mini", "x": xs}]


@fam
def g_many(r):
    """more measurements than the window holds"""
    out = [{"op": "start", "f": 0}, {"op": "clock", "x": 0}, {"op": "tnew", "q": 1, "tag": "a", "stopped": True}, {"op": "tnew", "q": 2, "tag": "b", "stopped": True}]
    t = 0
    m = r.choice([40, 49, 50, 51, 52, 90, 130])
    top = r.choice([5, 900, 4000])
    for i in range(m):
        q = 1 if r.random() < 0.8 else 2
        out.append({"op": "tstart", "q": q})
        t += r.randint(0, top) if i > 3 else top + 1 + i
        out += [{"op": "clock", "x": t}, {"op": "tstop", "q": q}]
        if i > 45 and r.random() < 0.3:
            out.append({"op": "tq", "tag": r.choice("ab")})
    out += [{"op": "tq", "tag": "a"}, {"op": "tq", "tag": "b"}]
    return out


@fam
def g_vgen(r):
    """vertices along squares and at random"""
    out = [{"op": "start", "f": 0}]
    for _ in range(3):
        out.append({"op": "vsq", "x": [r.randint(-40, 40) for _ in range(3)], "a": r.choice([0, 1, 2, 5, 20]), "n": r.choice([0, 1, 1, 2, 3]), "k": r.choice([0, 1, 2, 3])})
        d = r.choice([1, 1, 2, 3, 4])
        lo = [r.randint(-40, 40) for _ in range(d)]
        out.append({"op": "vrand", "lo": lo, "hi": [x + r.choice([4, 8, 40]) for x in lo], "n": r.choice([1, 2, 3, 8]), "k": r.choice([1, 2, 3]), "s": r.randint(0, 10**6),
                    "one": d == 1 and r.random() < 0.5})
    return out


def sections(family, n, seed):
    return [("%s-%s-%d" % (family, seed, i), [json.dumps(x, separators=(",", ":")) for x in L[family](random.Random("%s/%s/%d" % (family, seed, i)))]) for i in range(n)]
