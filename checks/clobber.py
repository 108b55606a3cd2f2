"""shared by P08 and P09: output directories with files that are, or only look like, the run's own"""
from .common import *

STEMS = ["run", "run", "v1.0", "run[1]", "ab*", "what?", "sp ace", "é-run", ".hidden", "Run", "run.1", "x{y}", "100%"]
DIRS = ["out", "out", "out", "o[ab]ut", "res ult*", "out.d", "a/b/c"]
OWN_EXT = {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}


def random_case(rng):
    p = random_params(rng, ar=0.35)
    stem = rng.choice(STEMS)
    c = {"p": p, "seed": rng.randrange(2**31), "stem": stem, "dir": rng.choice(DIRS), "stats": rng.choice(["stats", "stats", stem + "_stats", "st[a-z]"]), "ew": rng.choice(["ephout", "ephout", "eph[0]", stem + ".eph"]),
         "own": [], "others": [], "rel": rng.random() < .5, "policy": rng.choice([None, None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}]), "listseed": rng.randrange(10**6), "s": rng.randrange(10**9)}
    kinds = ["detections", "otherfmt", "journal", "stats", "ephemeris"]
    for k in kinds:
        if rng.random() < 0.3:
            c["own"].append([k, pick(rng, ("file", 5), ("empty", 1), ("link", 1), ("dangling", 1), ("result", 2))])
    for k in range(9):
        if rng.random() < 0.35:
            c["others"].append([k, pick(rng, ("file", 5), ("link", 1))])
    return c


def own_files(c, p):
    """the files a run of c may deliver or has to replace, by kind; None if the run does not deliver that kind"""
    stem = c["stem"]
    e = OWN_EXT[p["fmt"]]
    return {"detections": stem + e, "otherfmt": stem + {".csv": ".db", ".db": ".h5", ".h5": ".csv"}[e], "journal": stem + ".db-journal",
            "stats": c["stats"] + ".csv" if p["stats"] else None,
            "ephemeris": c["ew"] + (".h5" if p["eph_fmt"] == "hdf5" else ".csv") if p["mode"] == "ar" and p["ew"] else None}


def other_names(c):
    """names of files that belong to somebody else; some are what the stem would match were it a pattern"""
    s = c["stem"]
    alike = s.replace("[1]", "1").replace("*", "xyz").replace("?", "t").replace("[a-z]", "b")
    return [(alike if alike != s else s + "x") + ".csv", s + "2.csv", s + ".1.csv", s + ".1.db", "x" + s + ".db", s, s + "-notes", c["stats"] + ".h5x", "precious.csv"]


def lay_out(w, c, p, wanted=None):
    """create the directory; returns (own names present, bystander names present)"""
    d = c["dir"]
    os.makedirs(w.path(d), exist_ok=True)
    os.makedirs(w.path("elsewhere"))
    alt = d.replace("[ab]", "a").replace("*", "zz")        # what the directory name would match as a pattern
    if alt != d:
        os.makedirs(w.path(alt), exist_ok=True)
    rng = random.Random(c["s"])
    own, others = set(), set()
    of = own_files(c, p)

    def make(rel, how):
        f = w.path(rel)
        if os.path.lexists(f):
            return False
        body = "".join(rng.choice("abcdefghij,\n") for _ in range(60)).encode()
        if how in ("link", "dangling"):
            t = w.path("elsewhere", "target" + str(len(os.listdir(w.path("elsewhere")))))
            if how == "link":
                open(t, "wb").write(body)
            os.symlink(t, f)
        else:
            if how == "result" and rel.endswith(".csv"):
                body = b"ObjID,optFilter\nold,r\n"
            open(f, "wb").write(b"" if how == "empty" else body)
        return True
    for k, how in c["own"]:
        if of[k] and make(os.path.join(d, of[k]), how):
            own.add(os.path.join(d, of[k]))
            if alt != d and not os.path.lexists(w.path(alt, of[k])):
                pass
    mine = {os.path.join(d, x) for x in of.values() if x}
    for k, how in c["others"]:
        rel = os.path.join(d, other_names(c)[k])
        if rel not in mine and not refusable(c, os.path.basename(rel)) and make(rel, how):
            others.add(rel)
    if alt != d:
        rel = os.path.join(alt, of["detections"])
        make(rel, "file")
        others.add(rel)
    return own, others


def refusable(c, name):
    """a file called <stem>.<anything without further dots>: the run may treat it as its own"""
    return any(os.path.splitext(name)[0] == s and os.path.splitext(name)[1] for s in (c["stem"], c["stats"], c["ew"]))


def state(w):
    """content and kind of every path outside the inputs, logs left out"""
    out = {}
    for dp, dn, fn in os.walk(w.root):
        for f in fn:
            full = os.path.join(dp, f)
            r = os.path.relpath(full, w.root)
            if r.endswith(("sorcha.log", "sorcha.err")) or r.startswith("cache/"):
                continue
            if os.path.islink(full):
                out[r] = "link " + os.readlink(full)
            else:
                out[r] = hashlib.sha1(open(full, "rb").read()).hexdigest()
    return out


def spec(w, c, p, force, pid=900):
    return proc(p, seed=c["seed"], sub="in", out=c["dir"], stem=c["stem"], stats=c["stats"], ew=c["ew"], force=force, pid=pid, pre="" if c["rel"] else w.root + "/")


def shrink(case):
    for k in ("own", "others"):
        for xs in shrink_list(case[k]):
            yield dict(copy.deepcopy(case), **{k: xs})
    yield from shrink_case(case, simple=(("policy", None), ("listseed", 0), ("dir", "out"), ("stem", "run"), ("stats", "stats"), ("ew", "ephout"), ("rel", True)))
