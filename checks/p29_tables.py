"""P29: a table means what it says however it is written down, and a damaged one is refused, never half used."""
from .common import *

RULE = ("a case is a workload whose tables (orbits, physical parameters, complex parameters, ephemeris, pointing database) are written again in equivalent ways (line ends, missing last line end, order and padding of columns, notation of numbers, "
        "quotes, leading comments) and are then damaged in one place (column, line, cell or element missing, unreadable, impossible or contradictory; file empty, cut off or in another notation); "
        "the first have to deliver the same detections, the second have to end the run unsuccessfully, unless the damage changes nothing; both within bounded steps and under short and interrupted reads; non-trivial when a variant ran")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 20


def gen(rng, tier, idx):
    p = random_params(rng, ar=.35, des=.15, deterministic=rng.random() < .5)
    p.update(nobj=min(p["nobj"], 7), nights=min(p["nights"], 4), keep=1.0, posdec=None, magdec=None, intcols=False, ew=False, comment=0)
    if rng.random() < .2 and p["mode"] == "ext":
        p["lc"] = p["brute"] = True
    n = 3 if tier == "quick" else 8
    return {"p": p, "env": rng.randrange(10**9), "alike": [rng.randrange(10**9) for _ in range(2)], "bad": [rng.randrange(10**9) for _ in range(n)], "noise": rng.random() < .4}


def load(w, p):
    """the text tables: name -> [separator, [cells of the header], [cells of each line]]"""
    T = {}
    for f, fmt in (("orbits.csv", p["aux_fmt"]), ("params.csv", p["aux_fmt"]), ("complex.csv", p["aux_fmt"]), ("eph.csv", p["eph_fmt"])):
        q = w.path("in", f)
        if os.path.exists(q):
            sep = " " if fmt == "whitespace" else ","
            rows = [l.split(sep) for l in open(q).read().splitlines()]
            T[f] = [sep, rows[0], rows[1:]]
    return T


def text(t, nl="\n"):
    return nl.join([t[0].join(x) for x in [t[1]] + t[2]]) + nl


def save(w, f, s):
    with open(w.path("in", f), "w", newline="") as fh:
        fh.write(s)


def number(rng, v):
    try:
        float(v)
    except ValueError:
        return v
    a = [v, v if v[0] == "-" else "+" + v]
    if "." in v and "e" not in v:
        a += [v + "0", v + "e0", v + "E+00"]
    return rng.choice(a)


def alike(w, p, rng):
    """rewrite the tables in place; -> what was done"""
    T = load(w, p)
    did = set()
    for f, t in T.items():
        sep, head, rows = t
        if rng.random() < .4:
            ix = list(range(1, len(head)))
            rng.shuffle(ix)
            ix = [0] + ix
            head[:] = [head[k] for k in ix]
            rows[:] = [[r[k] for k in ix] for r in rows]
            did.add("columns")
        if rng.random() < .4:
            for r in rows:
                for k in range(1, len(r)):
                    if head[k] != "FieldID":
                        r[k] = number(rng, r[k])
            did.add("numbers")
        if sep == "," and rng.random() < .3:
            for r in rows:
                r[0] = '"' + r[0] + '"'
            did.add("quotes")
        if sep == "," and rng.random() < .3:
            for r in rows:
                for k in range(1, len(r)):
                    if head[k] not in ("FORMAT", "FieldID") and rng.random() < .3:
                        r[k] = rng.choice([" ", "  "]) + r[k]
            did.add("padding")
        s = text(t)
        if sep == " " and rng.random() < .5:
            s = "\n".join("".join(c + rng.choice([" ", "  ", "\t", " \t "]) if k < len(l.split(" ")) - 1 else c + rng.choice(["", " ", "  "]) for k, c in enumerate(l.split(" "))) for l in s.splitlines()) + "\n"
            did.add("spaces")
        if f == "orbits.csv" and rng.random() < .4:
            s = "".join(rng.choice(["# a catalogue\n", "# ObjID of a catalogue\n", "# one, two, three\n"]) for _ in range(rng.randrange(1, 5))) + s
            did.add("comments")
        if rng.random() < .3:
            s = s.replace("\n", "\r\n")
            did.add("crlf")
        if rng.random() < .3:
            s = s.rstrip("\r\n")
            did.add("no last line end")
        save(w, f, s)
    return sorted(did)


def damage(w, p, rng, seen):
    """damage one table in place; seen: objects with detections.  -> description"""
    T = load(w, p)
    B = []
    main, fs = p["mainf"], L.survey_filters(p)

    def bad(group, f, what, edit):
        B.append((group, f, what, edit))

    def cell(t, col, val, who=None):
        k = t[1].index(col)
        r = rng.choice([x for x in t[2] if who is None or x[0] in who])
        r[k] = val

    def cut(f, t):
        s = text(t)
        lines = s.splitlines(True)
        n = rng.randrange(1, len(lines))
        last = lines[n].rstrip("\n")
        lim = last.rindex(t[0])          # (a shorter last number cannot be told from a complete one)
        save(w, f, "".join(lines[:n]) + last[:rng.choice([0, rng.randrange(0, lim + 1)])])
    for f, t in T.items():
        sep, head, rows = t
        eph = f == "eph.csv"
        if not rows:
            continue
        used = {"orbits.csv": head[1:], "params.csv": [c for c in head[1:] if c[:2] not in ("GS", "G1", "S") and (c == "H_" + main or c.split("-")[0] in fs)] + [c for c in head[1:] if c[0] in "GS"],
                "complex.csv": head[1:], "eph.csv": ["FieldID", "fieldMJD_TAI", "Range_LTC_km", "Obj_Sun_x_LTC_km", "phase_deg"]}[f]       # (what every run uses)
        if p["gband"] or p["phase"] == "none":
            used = [c for c in used if c[0] not in "GS"] if f == "params.csv" else used
        c = rng.choice(used)
        # columns
        if f != "complex.csv":               # (the light curve model that is there uses none of its columns)
            bad("column", f, f"without {c}", lambda t=t, c=c: [r.pop(k) for k in [t[1].index(c)] for r in [t[1]] + t[2]])
            c2 = rng.choice(used)
            if c2.upper() != c2 or c2.lower() != c2:
                bad("column", f, f"{c2} in other case", lambda t=t, c=c2: t[1].__setitem__(t[1].index(c), c.swapcase()))
        bad("column", f, "without ObjID", lambda t=t: t[1].__setitem__(0, rng.choice(["objid", "Name", "OBJID"])))
        if f == "orbits.csv":
            bad("column", f, "an extra column", lambda t=t: [r.append("1.0") for r in t[2]] and t[1].append("extra"))
        # cells
        if not (f == "orbits.csv" and p["mode"] == "ext" or f == "complex.csv"):
            c3 = rng.choice([c for c in used if c != "FORMAT"])
            v = rng.choice(["abc", "1.2.3", "--", "1;5", "12h"])
            bad("cell", f, f"{c3}={v}", lambda t=t, c=c3, v=v: cell(t, c, v, seen))
        c4 = rng.choice(used)
        v = rng.choice(["nan", "NaN"] + ([""] if sep == "," else []))
        if not eph:
            bad("cell", f, f"{c4}={v or 'empty'}", lambda t=t, c=c4, v=v: cell(t, c, v, seen))
        # lines
        if not eph:
            bad("line", f, "one missing", lambda t=t: t[2].pop(rng.randrange(len(t[2]))))
            bad("line", f, "one more", lambda t=t: t[2].insert(rng.randrange(len(t[2]) + 1), ["another"] + t[2][0][1:]))
            bad("line", f, "one twice", lambda t=t: t[2].append(list(rng.choice(t[2]))))
            bad("line", f, "another name", lambda t=t: cell(t, "ObjID", "another", seen))
            bad("line", f, "blank", None)
        if not eph or len(rows) > 1:
            bad("line", f, "too long", lambda t=t: rng.choice(t[2][1:] or t[2]).append("1.0"))
        if not eph:
            bad("line", f, "too short", lambda t=t: rng.choice([x for x in t[2] if x[0] in seen]).pop())
        # the file
        bad("file", f, "empty", None)
        if not eph:
            bad("file", f, "only the header", lambda t=t: t[2].clear())
            bad("file", f, "cut off", None)
        bad("file", f, "without header", None)
        bad("file", f, "other separator", None)
        if f == "orbits.csv":
            kep = p["mode"] == "ext"
            fm = t[1].index("FORMAT")
            bad("element", f, "unknown FORMAT", lambda t=t: [r.__setitem__(fm, "ABC") for r in t[2]])
            bad("element", f, "wrong FORMAT", lambda t=t: [r.__setitem__(fm, "COM" if kep else rng.choice(["KEP", "BCOM"])) for r in t[2]])
            if p["chunk"] > 1 and len(rows) > 1 and p["chunk"] >= len(rows):
                bad("element", f, "two FORMATs", lambda t=t: cell(t, "FORMAT", "CART"))
            if kep:
                c, v = rng.choice([("e", "1.0"), ("e", "1.7"), ("e", "-0.1"), ("a", "-2.5")])
                bad("element", f, f"{c}={v}", lambda t=t, c=c, v=v: cell(t, c, v))
    db = w.path("in", "pointings.db")
    cols = ["observationId", "fieldRA", "fieldDec", "filter", "fiveSigmaDepth"]

    def sql(*a):
        con = sqlite3.connect(db)
        con.execute(*a)
        con.commit()
        con.close()
    c = rng.choice(cols)
    bad("pointings", "pointings.db", f"without column {c}", lambda: sql(f"alter table observations rename column {c} to other"))
    bad("pointings", "pointings.db", "without table", lambda: sql("alter table observations rename to visits"))
    bad("pointings", "pointings.db", "no database", lambda: open(db, "w").write("observationId,fieldRA\n1,2\n"))
    bad("pointings", "pointings.db", "empty file", lambda: open(db, "w").close())
    if p["mode"] == "ext" and p["eph_fmt"] == "csv":
        bad("pointings", "pointings.db", "other times", lambda: sql("update observations set " + ("observationStartMJD = observationStartMJD" if p["survey"] == "rubin_sim" else "observationMidpointMJD = observationMidpointMJD") + " + 40"))
    g = pick(rng, ("column", 3), ("cell", 4), ("line", 3), ("file", 2), ("element", 2), ("pointings", 1.5))
    group, f, what, edit = rng.choice([b for b in B if b[0] == g])
    t = T.get(f)
    if edit:
        edit()
        if t:
            save(w, f, text(t))
    elif what == "blank":
        s = text(t).splitlines(True)
        s.insert(rng.randrange(1, len(s) + 1), rng.choice(["\n", "   \n"]))
        save(w, f, "".join(s))
    elif what == "empty":
        save(w, f, "")
    elif what == "cut off":
        cut(f, t)
    elif what == "without header":
        save(w, f, text(t).split("\n", 1)[1])
    elif what == "other separator":
        save(w, f, text(t).replace(t[0], " " if t[0] == "," else ","))
    return group, f"{f}: {what}"


def noise(case, k):
    return {"seed": case["env"] + k, "short": .3, "eintr": .15} if case["noise"] else None


def run_case(env, case):
    p = L.full(case["p"])
    seed = case["env"] % 2**32
    w, r, o = ref(env, p, seed=seed)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    seen = {x[0] for x in o["detections"][1]} if o["detections"] else set()
    nt, n = [], 0
    limit = 30 * sum(len(x) for x in r.ops) + 20000
    ctx = f"{p['mode']}/{p['survey']}/{p['aux_fmt']}/{p['eph_fmt']}/chunk {p['chunk']} of {p['nobj']}"
    for k, s in enumerate(case["alike"]):
        x = env.world("v")
        setup(x, p)
        did = alike(x, p, random.Random(s))
        t = x.phase([proc(p, seed=seed)], policy=noise(case, k), max_steps=limit)
        n += 1
        if t.code != 0:
            return {"violations": [V("refused", f"equivalent tables ({', '.join(did)}; {ctx}) exit {t.code}: {t.out[0].strip()[-400:]}", sig="refused")], "nontrivial": None}
        a, b = bynames(o), bynames(outputs(x, p))
        d = diff_close(a, b, rel=1e-8, ab=1e-8)
        if d:
            return {"violations": [V("means-something-else", f"equivalent tables ({', '.join(did)}; {ctx}): {d}")], "nontrivial": None}
        nt.append("alike/" + ",".join(did))
    if not seen:
        return {"violations": [], "nontrivial": nt, "evals": n}
    for k, s in enumerate(case["bad"]):
        x = env.world("b")
        setup(x, p)
        g, what = damage(x, p, random.Random(s), seen)
        t = x.phase([proc(p, seed=seed)], policy=noise(case, 50 + k), max_steps=limit)
        n += 1
        if t.code == 0:
            d = diff_close(bynames(o), bynames(outputs(x, p)), rel=1e-8, ab=1e-8)
            if d:
                return {"violations": [V("used-damaged", f"exit 0 with damaged tables ({what}; {ctx}): {d}", sig=what.split("=")[0])], "nontrivial": None}
        elif t.code is not None and t.code < 0 or not t.out[0].strip():
            return {"violations": [V("no-reason", f"ends with {t.code} and says nothing ({what}; {ctx})", sig=what.split("=")[0])], "nontrivial": None}
        nt.append(f"{g}/{what.split('=')[0]}/{'refused' if t.code else 'same'}")
    return {"violations": [], "nontrivial": nt, "evals": n}


def bynames(o):
    """columns in the order of their names"""
    q = {}
    for k, t in o.items():
        if t is not None and t[0] != "unreadable":
            ix = sorted(range(len(t[0])), key=lambda i: t[0][i])
            t = (tuple(t[0][i] for i in ix), [tuple(r[i] for i in ix) for r in t[1]])
        q[k] = t
    return q


def shrink(case):
    for k in ("alike", "bad"):
        if len(case[k]) + len(case["bad" if k == "alike" else "alike"]) > 1:
            for i in range(len(case[k])):
                c = copy.deepcopy(case)
                del c[k][i]
                yield c
    if case["noise"]:
        yield dict(copy.deepcopy(case), noise=False)
    yield from shrink_case(case)
