"""P28: a configuration means what the documentation says, or is refused with its reason."""
from .common import *
import re

RULE = ("a case is a workload whose configuration is written again in equivalent ways (order, case, comments, notation of numbers and switches, spelled-out defaults, permuted filters, other spellings of the survey) and is then broken "
        "in several single places (missing, unknown, misspelt, out of range, contradictory settings and arguments); the first have to deliver the same files, the second have to end with a message naming the setting, "
        "within bounded steps, before any output is written and without changing an existing file; all under short and interrupted calls; non-trivial when a variant ran")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 20
FLOATS = {"ar_ang_fov", "ar_fov_buffer", "fill_factor", "circle_radius", "footprint_edge_threshold", "fading_function_width", "fading_function_peak_efficiency", "des_transient_efficency", "ssp_detection_efficiency",
          "ssp_separation_threshold", "ssp_maximum_time", "ssp_night_start_utc", "snr_limit", "mag_limit", "distance_cut_lower", "distance_cut_upper", "motion_cut_lower", "motion_cut_upper"}
INTS = {"size_serial_chunk", "ar_picket", "ar_healpix_order", "ar_n_sub_intervals", "ssp_number_observations", "ssp_number_tracklets", "ssp_track_window", "position_decimals", "magnitude_decimals"}
BOOLS = {"drop_unlinked", "randomization_on", "vignetting_on", "trailing_losses_on", "default_snr_cut", "brute_force", "des_discovery_on"}
BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag", "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km",
         "RangeRate_LTC_km_s", "Obj_Sun_LTC_km"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=.35, des=.3)
    p.update(nobj=min(p["nobj"], 6), nights=min(p["nights"], 4), keep=1.0)
    if p["camera"] == "footprint" and rng.random() < .5:
        p["edge"] = 2.0
    if p.get("survey") == "DES" and rng.random() < .5:
        p["cuts"] = dict(distance_cut_lower=1e7, distance_cut_upper=1e10) if rng.random() < .5 else dict(motion_cut_lower=0.0, motion_cut_upper=5.0)
    if rng.random() < .2:
        p["lc"] = p["brute"] = True          # (culling asks the model for a method the documentation does not mention)
    if p["camera"] in ("circle", "none") and rng.random() < .3:
        p["brightlim"] = rng.choice(["16.0", "18.5", "20.0"])
    return {"p": p, "env": rng.randrange(10**9), "alike": [rng.randrange(10**9) for _ in range(2)], "bad": [rng.randrange(10**9) for _ in range(4 if tier == "quick" else 8)], "noise": rng.random() < .5}


def parse(text):
    c = []
    for l in text.splitlines():
        if l.startswith("["):
            c.append([l[1:-1], []])
        elif l.strip():
            k, v = l.split(" = ", 1)
            c[-1][1].append([k, v])
    return c


def render(c):
    return "".join(f"[{s}]\n" + "".join(f"{k} = {v}\n" for k, v in kv) for s, kv in c)


def get(c, key):
    for s, kv in c:
        for x in kv:
            if x[0].lower() == key:
                return s, kv, x
    return None, None, None


def section(c, name):
    for s, kv in c:
        if s == name:
            return kv
    c.append([name, []])
    return c[-1][1]


def put(c, sec, key, val):
    s, kv, x = get(c, key)
    if x is not None:
        x[1] = str(val)
    else:
        section(c, sec).append([key, str(val)])


def drop(c, key):
    s, kv, x = get(c, key)
    if x is not None:
        kv.remove(x)
    return x is not None


# -- equivalent spellings ------------------------------------------------------------------------------------------
def number(rng, key, v):
    if key in INTS:
        return rng.choice([v, "+" + v, "0" + v])
    f = float(v)
    alt = [v, "+" + v, repr(f), repr(f) + "0" if "." in repr(f) and "e" not in repr(f) else v, f"{f:.17e}", f"{f:.17e}".upper()]
    return rng.choice([a for a in alt if float(a) == f])


def switch(rng, v):
    return rng.choice(["true", "1", "yes", "y", "True"] if v.strip() == "True" else ["false", "0", "no", "n", "False"])


def alike(p, rng):
    """an equivalent (configuration text, survey name)"""
    c = parse(L.config(p))
    des = p["survey"] != "rubin_sim"
    did = set()
    for s, kv in c:
        for x in kv:
            k = x[0].lower()
            if rng.random() < .5:
                if k in FLOATS | INTS:
                    x[1] = number(rng, k, x[1])
                elif k in BOOLS or k == "fading_function_on" and des:
                    x[1] = switch(rng, x[1])
    x = get(c, "aux_format")[2]
    if rng.random() < .5 and x[1] in ("csv", "comma"):
        x[1] = "comma"
        did.add("aux_format")
    if rng.random() < .5 and x[1] != "csv":
        pass
    fx, bx = get(c, "observing_filters")[2], get(c, "bright_limit")[2]
    fs = fx[1].split(",")
    if rng.random() < .5:
        bl = [b.strip() for b in bx[1].split(",")] if bx else None
        if bl and len(bl) == 1:
            bl = bl * len(fs)
        ix = list(range(1, len(fs)))          # the main filter comes first
        rng.shuffle(ix)
        ix = [0] + ix
        sep = rng.choice([",", ", ", " , "])
        fx[1] = sep.join(fs[i] for i in ix)
        if bl:
            bx[1] = sep.join(bl[i] for i in ix)
        did.add("filters")
    if p["mode"] == "ar" and rng.random() < .4:
        put(c, "SIMULATION", "ar_n_sub_intervals", p["nsub"])
    if rng.random() < .4:
        put(c, "EXPERT", "brute_force", p["brute"])
    if rng.random() < .4:
        put(c, "EXPERT", "default_snr_cut", p["snrcut"])
    if rng.random() < .3 and get(c, "drop_unlinked")[2] is None:
        put(c, "LINKINGFILTER", "drop_unlinked", "True")
    for k, default in (("randomization_on", not des), ("vignetting_on", not des), ("trailing_losses_on", not des)):
        x = get(c, k)[2]
        if rng.random() < .4 and x and x[1] in (("True", "true", "1", "yes", "y") if default else ("False", "false", "0", "no", "n")):
            drop(c, k)
            did.add("default")
    for k in ("lc_model", "comet_activity"):
        x = get(c, k)[2]
        if rng.random() < .4 and x and x[1] == "none":
            drop(c, k)
            if rng.random() < .5:
                c[:] = [y for y in c if y[0] != ("LIGHTCURVE" if k == "lc_model" else "ACTIVITY")]
            did.add("default")
    if rng.random() < .3 and not des and get(c, "fading_function_width")[2]:
        drop(c, "fading_function_on")
    if rng.random() < .3 and p["columns"] == "basic":
        put(c, "OUTPUT", "output_columns", rng.choice([",", ", "]).join(BASIC + (["object_linked"] if p["link"] == 2 and not des else [])))
        did.add("columns")
    if rng.random() < .5:
        did.add("order")
        rng.shuffle(c)
        for s, kv in c:
            rng.shuffle(kv)
    # the text
    nl = rng.choice(["\n", "\n", "\r\n"])
    sp = rng.choice([" = ", "=", ": ", " : ", "   =   ", None])
    out = []
    wild = rng.random() < .6
    for s, kv in c:
        if wild and rng.random() < .4:
            out += rng.choice([["# settings", "; [OUTPUT]", ""], ["#output_format = hdf5"], ["", ""]])
        out.append(f"[{s}]")
        for k, v in kv:
            if wild and rng.random() < .2:
                out.append(rng.choice([f"# {k} = off", f";{k} = 3", ""]))
            if wild:
                k = rng.choice([k, k.upper(), k.lower(), k.title()])
            if k.lower().endswith("_query") and wild and rng.random() < .5:
                w = v.split(", ")
                j = rng.randrange(1, len(w))
                v = ", ".join(w[:j]) + "," + nl + "   " + ", ".join(w[j:])
                did.add("continued")
            out.append(k + (sp or rng.choice([" = ", "=", ": "])) + v + (rng.choice(["", " ", "  "]) if wild else ""))
    survey = p["survey"]
    if rng.random() < .5:
        survey = rng.choice(["DES", "des"] if des else ["rubin_sim", "RUBIN_SIM"])
    return nl.join(out) + nl, survey, sorted(did | ({"text"} if wild else set()) | ({"crlf"} if nl != "\n" else set()) | ({"survey"} if survey != p["survey"] else set()))


# -- broken ones ----------------------------------------------------------------------------------------------------
def broken(p, rng):
    """(what, configuration text, argument list editor, pattern the message has to match)"""
    c = parse(L.config(p))
    des = p["survey"] != "rubin_sim"
    keys = [(s, x[0]) for s, kv in c for x in kv]
    has = lambda k: get(c, k)[2] is not None
    B = []

    def bad(group, what, edit, pat, args=None):
        B.append((group, what, edit, pat, args))
    word = lambda k: re.escape(k.lower())
    must = ["ephemerides_type", "eph_format", "size_serial_chunk", "aux_format", "pointing_sql_query", "observing_filters", "phase_function", "camera_model", "output_format", "output_columns"]
    if p["mode"] == "ar":
        must += ["ar_ang_fov", "ar_fov_buffer", "ar_picket", "ar_obs_code", "ar_healpix_order"]
    if p["camera"] == "visits_footprint":
        must += ["visits_query"]
    if des:
        must += ["fading_function_on"]
    for k in must:
        bad("missing", k, lambda c, k=k: drop(c, k), word(k) if k != "fading_function_on" else "fading")
    for s, k in keys:
        l = k.lower()
        if l in FLOATS:
            v = rng.choice(["abc", "1,5", "", "1.2.3", "ten", "nan", "--1"])
            bad("type", f"{l}={v}", lambda c, l=l, v=v: put(c, "", l, v), word(l))
        if l in INTS:
            v = rng.choice(["abc", "1.5", "", "nan", "1e3x", "two"])
            bad("type", f"{l}={v}", lambda c, l=l, v=v: put(c, "", l, v), word(l))
        if l in BOOLS or l == "fading_function_on" and des:
            v = rng.choice(["maybe", "2", "", "on?", "Truee"])
            if l != "des_discovery_on" or v:
                bad("type", f"{l}={v}", lambda c, l=l, v=v: put(c, "", l, v), word(l))
    for k, vs in (("ephemerides_type", ["rebound", "", "none"]), ("eph_format", ["json", "", "hdf"]), ("aux_format", ["hdf5", "", "tab"]), ("phase_function", ["HG2", "", "LINEAR"]), ("camera_model", ["square", "", "rectangle"]),
                  ("output_format", ["json", "", "xml"]), ("output_columns", ["everything", "", "ObjID"]), ("lc_model", ["wobble"]), ("comet_activity", ["fizz"])):
        v = rng.choice(vs)
        pat = {"lc_model": "light ?curve", "comet_activity": "activity"}.get(k, word(k))
        if k == "lc_model" or k == "comet_activity":
            bad("value", f"{k}={v}", lambda c, k=k, v=v: put(c, "LIGHTCURVE" if k == "lc_model" else "ACTIVITY", k, v), pat)
        else:
            bad("value", f"{k}={v}", lambda c, k=k, v=v: put(c, "", k, v), pat)
    v = rng.choice(["r,q", "w", "", "ugrizy", "r;g"]) if not des else rng.choice(["r,u", "w", "", "y"])
    bad("value", f"filters={v}", lambda c, v=v: put(c, "", "observing_filters", v), "filter")
    v = rng.choice(["0", "-1", "-5000"])
    bad("range", f"chunk={v}", lambda c, v=v: put(c, "", "size_serial_chunk", v), "size_serial_chunk")
    for k, vs, pat in (("fill_factor", ["-0.1", "1.01", "-inf", "90"], "fill_factor"), ("circle_radius", ["-1.75", "-1e-9"], "circle_radius"), ("fading_function_width", ["0", "-0.1", "0.51", "5"], "fading_function_width"),
                       ("fading_function_peak_efficiency", ["-0.1", "1.1"], "fading_function_peak_efficiency"), ("ssp_detection_efficiency", ["-0.01", "1.5", "95"], "ssp_detection_efficiency"),
                       ("ssp_number_observations", ["0", "-2"], "ssp_number_observations"), ("ssp_separation_threshold", ["-0.5"], "ssp_separation_threshold"), ("ssp_number_tracklets", ["0", "-3"], "ssp_number_tracklets"),
                       ("ssp_track_window", ["0", "-15"], "ssp_track_window"), ("ssp_maximum_time", ["-0.01"], "ssp_maximum_time"), ("ssp_night_start_utc", ["-1", "24.5", "25"], "ssp_night_start_utc")):
        if has(k) and not (des and k.startswith(("ssp", "fading"))):
            v = rng.choice(vs)
            bad("range", f"{k}={v}", lambda c, k=k, v=v: put(c, "", k, v), pat)
    for k in ("position_decimals", "magnitude_decimals"):
        v = rng.choice(["-1", "-6"])
        bad("range", f"{k}={v}", lambda c, k=k, v=v: put(c, "OUTPUT", k, v), "decimal")
    for k, pat in (("snr_limit", "snr"), ("mag_limit", "magnitude limit")):
        v = rng.choice(["-2", "-0.5"])
        if not p["limit"] or p["limit"][0] == k:
            bad("range", f"{k}={v}", lambda c, k=k, v=v: put(c, "EXPERT", k, v), pat)
    bad("clash", "snr+mag", lambda c: (put(c, "EXPERT", "snr_limit", "2"), put(c, "EXPERT", "mag_limit", "24")), "mutually exclusive|snr.*magnitude")
    v = rng.choice(["16,16", "16.0, x", "bright", "16 17"])
    if len((get(c, "observing_filters")[2][1]).split(",")) != 2:
        bad("value", f"bright_limit={v}", lambda c, v=v: put(c, "SATURATION", "bright_limit", v), "bright|saturation")
    if p["camera"] == "footprint":
        k = rng.choice(["fill_factor", "circle_radius", "visits_query"])
        bad("clash", f"footprint+{k}", lambda c, k=k: put(c, "FOV", k, "0.9"), k)
    if p["camera"] == "circle":
        bad("clash", "circle+edge", lambda c: put(c, "FOV", "footprint_edge_threshold", "2"), "footprint_edge_threshold")
        bad("clash", "circle without size", lambda c: (drop(c, "fill_factor"), drop(c, "circle_radius")), "fill_factor|circle_radius")
    if p["camera"] == "visits_footprint":
        k = rng.choice(["fill_factor", "circle_radius", "footprint_edge_threshold"])
        bad("clash", f"visits+{k}", lambda c, k=k: put(c, "FOV", k, "0.9"), k)
        bad("clash", "no --vd", lambda c: None, "visits", ("drop", "--vd"))
    else:
        bad("clash", "--vd", lambda c: None, "visits", ("add", "--vd", "in/pointings.db"))
    if not des and p["camera"] != "visits_footprint":
        bad("clash", "visits_footprint with Rubin", lambda c: ([drop(c, k) for k in ("fill_factor", "circle_radius", "footprint_edge_threshold")], put(c, "", "camera_model", "visits_footprint"), put(c, "FOV", "visits_query", "SELECT 1")),
            "survey|visits")
    if p["mode"] == "ext":
        k, v = rng.choice([("ar_ang_fov", "2.06"), ("ar_fov_buffer", "0.2"), ("ar_picket", "1"), ("ar_obs_code", "X05"), ("ar_healpix_order", "6")])
        bad("clash", f"external+{k}", lambda c, k=k, v=v: put(c, "SIMULATION", k, v), k)
        bad("clash", "no --er", lambda c: None, "ephemer", ("drop", "--er"))
    if not des and p["fading"]:
        k = rng.choice(["fading_function_width", "fading_function_peak_efficiency"])
        bad("clash", f"fading without {k}", lambda c, k=k: drop(c, k), "fading_function")
    if not des and not p["fading"]:
        bad("clash", "half a fading function", lambda c: put(c, "FADINGFUNCTION", "fading_function_width", "0.1"), "fading_function")
    if des:
        bad("clash", "DES fading width", lambda c: put(c, "FADINGFUNCTION", "fading_function_width", "0.1"), "fading_function_width")
        k = rng.choice(["randomization_on", "vignetting_on", "trailing_losses_on"])
        bad("clash", f"DES {k}", lambda c, k=k: put(c, "EXPERT", k, "True"), "does not support")
        if p["cuts"]:
            k = rng.choice(sorted(p["cuts"]))
            bad("clash", f"without {k}", lambda c, k=k: drop(c, k), k)
    else:
        k = rng.choice(["distance", "motion"])
        bad("clash", f"{k} cut with Rubin", lambda c, k=k: (put(c, "LINKINGFILTER", f"{k}_cut_lower", "1"), put(c, "LINKINGFILTER", f"{k}_cut_upper", "2")), f"{k} cut")
        ssp = ["ssp_separation_threshold", "ssp_number_observations", "ssp_number_tracklets", "ssp_track_window", "ssp_detection_efficiency", "ssp_maximum_time", "ssp_night_start_utc"]
        k = rng.choice(ssp)
        if p["link"]:
            bad("clash", f"linking without {k}", lambda c, k=k: drop(c, k), "ssp")
        else:
            bad("clash", f"only {k}", lambda c, k=k: put(c, "LINKINGFILTER", k, "1"), "ssp")
    s, k = rng.choice(keys)
    n = k + rng.choice(["s", "_", "_on"])
    if n.lower() not in FLOATS | INTS | BOOLS:
        bad("unknown", n, lambda c, s=s, n=n: section(c, s).append([n, "1"]), word(n))
    bad("unknown", "twice " + k, lambda c, s=s, k=k: section(c, s).append([k, get(c, k.lower())[2][1]]), word(k))
    s = rng.choice(c)[0]
    n = rng.choice([s.lower(), s[:-1], s + "S", "MY" + s] + (["LINKING"] if s == "LINKINGFILTER" else []))
    if rng.random() < .5:
        bad("unknown", f"section {n}", lambda c, s=s, n=n: [x.__setitem__(0, n) for x in c if x[0] == s], word(n) + "|required|section")
    else:
        bad("unknown", f"extra section {n}", lambda c, n=n: c.append([n, [["x", "1"]]]), word(n))
    if p["mode"] == "ar":
        k = rng.choice(["leap_seconds", "jpl_planets", "planet_ephemeris"])
        bad("clash", k + "_url alone", lambda c, k=k: put(c, "AUXILIARY", k + "_url", "https://example.invalid/x"), k)
    s = rng.choice(["foo", "LSST", "Rubin", ""])
    bad("args", f"survey {s}", lambda c: None, "survey|LSST|DES", ("set", "-s", s))
    flags = ["-c", "--ob", "-p", "--pd"] + (["--er"] if p["mode"] == "ext" else ["--ar"]) + (["--vd"] if p["camera"] == "visits_footprint" else []) + (["--cp"] if p["lc"] else [])
    f = rng.choice(flags)
    bad("args", f"{f} missing", lambda c: None, "-" + f.lstrip("-") + r"\b", ("set", f, "in/nothing-here"))
    bad("args", "no output directory", lambda c: None, "-o", ("set", "-o", "nowhere"))
    if p["lc"]:
        bad("args", "no --cp", lambda c: None, "complex physical parameter", ("drop", "--cp"))
    bad("late", "column", lambda c: put(c, "OUTPUT", "output_columns", "ObjID,fieldMJD_TAI,nosuchcolumn"), "output_columns")
    g = pick(rng, ("missing", 2), ("type", 3), ("value", 3), ("range", 3), ("clash", 4), ("unknown", 2), ("args", 2), ("late", .4))
    B = [b for b in B if b[0] == g] or B
    g, what, edit, pat, args = rng.choice(B)
    edit(c)
    return g, what, render(c), args, pat


def edited(argv, e):
    a = list(argv)
    if e:
        if e[0] == "add":
            return a + list(e[1:])
        k = a.index(e[1])
        if e[0] == "drop":
            del a[k:k + 2]
        else:
            a[k + 1] = e[2]
    return a


def tree(w):
    out = {}
    for d, _, fs in os.walk(w.root):
        for f in fs:
            q = os.path.join(d, f)
            if not f.endswith((".log", ".err")):
                out[os.path.relpath(q, w.root)] = hashlib.sha1(open(q, "rb").read()).hexdigest()
    return out


def noise(case, k):
    return {"seed": case["env"] + k, "short": .3, "eintr": .15} if case["noise"] else None


def run_case(env, case):
    p = L.full(case["p"])
    seed = case["env"] % 2**32
    w, r, o = ref(env, p, seed=seed)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    nt, n = [], 0
    limit = 30 * sum(len(x) for x in r.ops) + 20000
    for k, s in enumerate(case["alike"]):
        text, survey, did = alike(p, random.Random(s))
        x = env.world("v")
        setup(x, p)
        with open(x.path("in/config.ini"), "w", newline="") as f:
            f.write(text)
        spec = proc(dict(p, survey=survey) if survey == p["survey"] else p, seed=seed)
        spec["argv"] = edited(spec["argv"], ("set", "-s", survey))
        t = x.phase([spec], policy=noise(case, k), max_steps=limit)
        n += 1
        if t.code != 0:
            return {"violations": [V("refused", f"an equivalent configuration ({', '.join(did)}; survey {survey}) exits {t.code}: {t.out[0].strip()[-400:]}\n{text}", sig="refused")], "nontrivial": None}
        d = diff(o, outputs(x, p))
        if d:
            return {"violations": [V("means-something-else", f"an equivalent configuration ({', '.join(did)}; survey {survey}): {d}\n{text}")], "nontrivial": None}
        nt.append("alike/" + ",".join(did))
    for k, s in enumerate(case["bad"]):
        g, what, text, args, pat = broken(p, random.Random(s))
        x = env.world("b")
        setup(x, p)
        with open(x.path("in/config.ini"), "w") as f:
            f.write(text)
        with open(x.path("out/other.csv"), "w") as f:
            f.write("ObjID\nresults of another run\n")
        spec = proc(p, seed=seed)
        spec["argv"] = edited(spec["argv"], args)
        before = tree(x)
        t = x.phase([spec], policy=noise(case, 50 + k), max_steps=limit)
        n += 1
        told = t.out[0]
        for f in sorted(os.listdir(x.path("out"))):
            if f.endswith((".log", ".err")):     # (the log quotes the configuration)
                told += "\n".join(l for l in open(x.path("out", f), errors="replace").read().splitlines() if "ERROR" in l)
        tag = f"{g}: {what}; {p['mode']}/{p['survey']}/{p['camera']}"
        if g == "late" and not (o["detections"] and o["detections"][1]):
            continue                         # nothing to write
        if t.code == 0:
            return {"violations": [V("accepted", f"exit 0 with a broken configuration ({tag})", sig=what.split("=")[0])], "nontrivial": None}
        if not re.search(pat, told, re.I):
            return {"violations": [V("reason-not-given", f"exit {t.code} without naming the reason ({tag}): {t.out[0].strip()[-400:]}", sig=what.split("=")[0])], "nontrivial": None}
        after = tree(x)
        wrote = sorted(f for f in after if f not in before and not (g == "late" and p["ew"] and "ephout" in f) and not f.startswith("cache/"))
        changed = sorted(f for f in before if after.get(f) != before[f])
        if wrote or changed:
            return {"violations": [V("wrote-before-refusing", f"refused, but wrote {wrote} and changed {changed} ({tag})", sig=what.split("=")[0])], "nontrivial": None}
        nt.append(f"{g}/{what.split('=')[0]}")
    return {"violations": [], "nontrivial": nt, "evals": n}


def shrink(case):
    for k in ("alike", "bad"):
        if len(case[k]) + len(case["bad" if k == "alike" else "alike"]) > 1:
            for i in range(len(case[k])):
                c = copy.deepcopy(case)
                del c[k][i]
                yield c
    if case["noise"]:
        yield dict(copy.deepcopy(case), noise=False)
    yield from shrink_case(case)
