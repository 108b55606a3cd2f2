"""Seeded input catalogues, pointing databases, ephemerides and configurations."""
import math, os, random, sqlite3

EPH_COLS = ("ObjID,FieldID,fieldMJD_TAI,fieldJD_TDB,Range_LTC_km,RangeRate_LTC_km_s,RA_deg,RARateCosDec_deg_day,Dec_deg,DecRate_deg_day,"
            "Obj_Sun_x_LTC_km,Obj_Sun_y_LTC_km,Obj_Sun_z_LTC_km,Obj_Sun_vx_LTC_km_s,Obj_Sun_vy_LTC_km_s,Obj_Sun_vz_LTC_km_s,"
            "Obs_Sun_x_km,Obs_Sun_y_km,Obs_Sun_z_km,Obs_Sun_vx_km_s,Obs_Sun_vy_km_s,Obs_Sun_vz_km_s,phase_deg").split(",")
AU = 149597870.7
T_START = 60200.0
OBSERVATORIES = {"X05": (289.25058, .864981, -.500958), "W84": (289.19355, .864901, -.50096), "500": (0.0, 0.0, 0.0), "000": (0.0, .62411, .77873), "Q01": (120.5, 1.0, 0.0)}

DEFAULT = dict(seed=1, mode="ext", survey="rubin_sim", nobj=6, nights=5, fields=2, visits=2, chunk=5000, fmt="csv", columns="basic",
               aux_fmt="csv", eph_fmt="csv", camera="circle", fill=1.0, edge=None, rand=True, fading=True, link=0, vign=True, trail=True,
               limit=None, bright=True, stats=True, ew=False, ids="plain", eph_order="byobj", pd_order="time", healpix=6, picket=1.0,
               nsub=101, ang_fov=2.06, buffer=0.2, spread=1.2, loglevel=True, dec=None, brute=True, posdec=None, magdec=None,
               faint=0.0, link_eff=1.0, fov_jitter=0.3, keep=0.8, motion=0.12, comment=0, intcols=False, gaps=False, step=None, hrange=(14.0, 18.5), transeff=0.95529, snrcut=True, aux=None, radius=1.75, absent=(),
               phase="HG", gband=False, mainf="r", obsf=None, brightlim="15.0", lc=False, cuts=None, stride=1, ssp=(2, 3, 15, 0.5, 0.0625), fade=(0.9, 0.3), disc=True, phase_max=25.0, obs=None, aim=0)


def full(p):
    d = dict(DEFAULT)
    d.update(p)
    return d


def obj_ids(p):
    r = random.Random(p["seed"] * 31 + 5)
    n, style = p["nobj"], p["ids"]
    if style == "plain":
        return [f"obj{k:03d}" for k in range(n)]
    if style == "num":
        return [str(1000 + 7 * k) for k in range(n)]
    if style == "zero":        # leading zeros next to other names
        return [(f"{k:04d}" if k % 4 else f"K{k:03d}") for k in range(n)]
    if style == "long":        # names that get longer further down the catalogue
        return ["S" + "x" * (2 * k) + f"{k}" for k in range(n)]
    if style == "mixed":
        out = [r.choice([f"2011_OB{k}", f"S1000{k:04d}a", str(5000 + k), f"{k}P-Halley", f"A_{k}_" + "q" * r.randrange(1, 12), f"{k:05d}", f"{k}e3"]) for k in range(n)]
        return out
    raise ValueError(style)


def pointings(p, aimed=True):
    """list of dicts; a few fields per night, each visited a few times"""
    r = random.Random(p["seed"] * 101 + 1)
    dec0 = p["dec"] if p["dec"] is not None else r.choice([-40.0, -10.0, 5.0, 20.0])
    ra0 = r.choice([10.0, 150.0, 359.7])
    out = []
    k = 0
    night = 0
    filt = ["g", "r", "i", "z"] if p["survey"] != "rubin_sim" else ["g", "r", "i", "z", "u", "y"]
    for d in range(p["nights"]):
        night += p["stride"] + (r.random() < 0.2)
        base = T_START + night + 0.1 + r.random() * 0.05
        if p["gaps"]:          # pointings at all times of day, nights skipped or visited again
            night += r.choice([-1, -1, 0, 0, 1, 3, 8])
            base = T_START + night + r.random()
        if p["step"]:          # pointings a set number of days apart, now and then going back
            base = T_START + p["nights"] / 2 + 0.5 + ((d - (p["nights"] - 1) / 2) if d % 4 != 3 else .2) * p["step"] + r.random() * .2
        for f in range(p["fields"]):
            for v in range(p["visits"]):
                t = base + 0.004 * f + 0.02 * v + r.random() * 0.001
                out.append(dict(id=k, t=t, filter=filt[r.randrange(4 if r.random() < .9 else len(filt))], geom=0.8 + r.random() * 0.4, eff=0.9 + r.random() * 0.4,
                                depth=23.3 + r.random() * 1.2, ra=(ra0 + r.uniform(-1, 1) * p["fov_jitter"]) % 360, dec=dec0 + r.uniform(-1, 1) * p["fov_jitter"],
                                rot=r.uniform(0, 360), vt=34.0, et=30.0, c=0.95 + 0.04 * r.random(), k=5.0 + r.random()))
                k += 1
    if p["pd_order"] == "shuffled":
        ids = [x["id"] for x in out]
        r.shuffle(ids)
        for x, i in zip(out, ids):
            x["id"] = i
    elif p["pd_order"] == "reverse":
        for x in out:
            x["id"] = k - 1 - x["id"]
    if p["aim"] and aimed and p["mode"] == "ar":               # pointings exactly at an object
        bodies = [state(o) for o in orbits(p)]
        for x in out:
            if r.random() < p["aim"]:
                u = apparent(*r.choice(bodies), visit_jd(x), p["obs"] or "X05")[0]
                x["ra"], x["dec"] = math.degrees(math.atan2(u[1], u[0])) % 360, math.degrees(math.asin(u[2]))
    return out, ra0, dec0


def physical(p):
    r = random.Random(p["seed"] * 57 + 3)
    rows = []
    for i in obj_ids(p):
        h = r.uniform(*p["hrange"]) + (r.random() < p["faint"]) * 8
        row = dict(ObjID=i, H_r=round(h, 3), GS=round(0.1 + 0.1 * r.random(), 3), **{c: round(r.uniform(-0.3, 0.6), 3) for c in ("g-r", "i-r", "z-r", "u-r", "y-r")})
        if p["mainf"] != "r" or p["phase"] != "HG" or p["gband"]:
            row = phase_params(p, row, r)
        if p["intcols"]:       # some objects carry whole numbers, written without a decimal point
            for c in row:
                if c != "ObjID" and c[0] not in "GS" and r.random() < 0.6:
                    row[c] = round(row[c])
        rows.append(row)
    return rows


def phase_params(p, row, r):
    """the same kind of row for another main filter and phase function"""
    m = p["mainf"]
    out = {"ObjID": row["ObjID"], "H_" + m: row["H_r"]}
    out.update({f"{f}-{m}": round(r.uniform(-0.3, 0.6), 3) for f in "grizuy" if f != m})
    names = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"], "none": []}[p["phase"]]
    lim = {"GS": (0.0, 0.4), "G1": (0.1, 0.6), "G2": (0.1, 0.35), "G12": (0.0, 0.9), "S": (0.01, 0.06)}
    for n in names:
        for f in (survey_filters(p) if p["gband"] else [""]):
            out[n + f] = round(r.uniform(*lim[n]), 3)
    return out


def survey_filters(p):
    """observing filters in the order of the configuration, the main filter first"""
    fs = list(p["obsf"] or ("rgiz" if p["survey"] != "rubin_sim" else "rgizuy"))
    return [p["mainf"]] + [f for f in fs if f != p["mainf"]]


def ephemeris(p):
    r = random.Random(p["seed"] * 131 + 9)
    pts, ra0, dec0 = pointings(p)
    rows = []
    for n, i in enumerate(obj_ids(p)):
        dra, dde = r.uniform(-1, 1) * p["spread"], r.uniform(-1, 1) * p["spread"]
        vra, vde = r.uniform(-1, 1) * p["motion"], r.uniform(-1, 1) * p["motion"]
        rng_au = r.uniform(1.2, 3.0)
        rr = []
        for q in sorted(pts, key=lambda q: q["id"]):
            dt = q["t"] - T_START - p["nights"] / 2
            ra = (ra0 + (dra + vra * dt) / math.cos(math.radians(dec0))) % 360
            de = dec0 + dde + vde * dt
            if r.random() > p["keep"]:
                continue
            sx = 2.5 * AU * (1 + 0.01 * dt)
            rr.append([i, q["id"], q["t"], q["t"] + 2400000.5 + 0.0008, rng_au * AU, r.uniform(-5, 5), ra, vra, de, vde, sx, 0.7 * AU, 0.2 * AU, 1.5, 12.0, 2.0,
                       0.98 * AU, 0.15 * AU, 0.06 * AU, -3.0, 27.0, 11.0, round(r.uniform(2.0, p["phase_max"]), 6)])
        rows.append([] if n in p["absent"] else rr)      # absent: objects that are in no field
    if p["eph_order"] == "byobj":
        return [x for rr in rows for x in rr]
    flat = [x for rr in rows for x in rr]
    if p["eph_order"] == "bytime":
        flat.sort(key=lambda x: x[2])
    else:
        r.shuffle(flat)
    return flat


# -- A+R mode: straight-line bodies seen from the stub Earth ------------------------------------------------------
OBL = math.radians(84381.448 / 3600.0)
JD_REF = 2451545.0


def earth(jd):
    a = 2 * math.pi * (jd - 2451545.0) / 365.25
    w = 2 * math.pi / 365.25
    return ([math.cos(a), math.sin(a) * 0.917, math.sin(a) * 0.398], [-w * math.sin(a), w * math.cos(a) * 0.917, w * math.cos(a) * 0.398])


def state(row):
    """equatorial position and velocity (au, au/day) of a Cartesian row"""
    s, c = math.sin(OBL), math.cos(OBL)
    eq = lambda a, b, z: [row[a], c * row[b] - s * row[z], s * row[b] + c * row[z]]
    return eq("x", "y", "z"), eq("xdot", "ydot", "zdot")


def visit_jd(x):
    """the time the generator takes for a visit (it rounds to a millionth of a day)"""
    return round(x["t"] + x["vt"] / 2 / 86400 + 2400000.5 + 32.184 / 86400, 6) + 69.184 / 86400


def observer(jd, code="X05"):
    e, _ = earth(jd)
    lon, c, s = OBSERVATORIES[code]
    a = 2 * math.pi * ((jd - 2451545.0) * 86400.0) / 86164.0905
    x, y = c * math.cos(math.radians(lon)), c * math.sin(math.radians(lon))
    k = 6378.137 / AU
    return [e[0] + k * (x * math.cos(a) - y * math.sin(a)), e[1] + k * (x * math.sin(a) + y * math.cos(a)), e[2] + k * s]


def apparent(pos, vel, jd, code="X05"):
    """astrometric direction and distance of a straight-line body (position at T_START), where it was and the observer"""
    o = observer(jd, code)
    lt = 0.0
    for _ in range(12):
        t = jd - lt - (T_START + 2400000.5)
        q = [pos[i] + vel[i] * t for i in range(3)]
        d = [q[i] - o[i] for i in range(3)]
        rho = math.sqrt(sum(x * x for x in d))
        lt = rho / (2.99792458e5 * 86400.0 / AU)
    return [x / rho for x in d], rho, q, o


def eq_to_ecl(v):
    c, s = math.cos(OBL), math.sin(OBL)
    return [v[0], c * v[1] + s * v[2], -s * v[1] + c * v[2]]


def orbits(p):
    r = random.Random(p["seed"] * 77 + 21)
    _, ra0, dec0 = pointings(p, False)
    rows = []
    for n, i in enumerate(obj_ids(p)):
        if p["mode"] != "ar":
            rows.append(dict(ObjID=i, FORMAT="KEP", a=2.5, e=0.1, inc=round(r.uniform(0, 20), 3), node=10.0, argPeri=20.0, ma=30.0, epochMJD_TDB=T_START))
            continue
        mid = T_START + p["nights"] / 2 + 0.5
        e, ve = earth(mid + 2400000.5)
        dec = dec0 + r.uniform(-1, 1) * p["spread"]
        ra = ra0 + r.uniform(-1, 1) * p["spread"] / math.cos(math.radians(dec0)) + 180.0 * (n in p["absent"])
        d = r.uniform(1.5, 4.0)
        u = [math.cos(math.radians(ra)) * math.cos(math.radians(dec)), math.sin(math.radians(ra)) * math.cos(math.radians(dec)), math.sin(math.radians(dec))]
        pos = [e[k] + d * u[k] for k in range(3)]
        vel = [ve[k] + r.uniform(-1, 1) * d * math.radians(p["motion"]) for k in range(3)]
        pos = [pos[k] + vel[k] * (T_START - mid) for k in range(3)]
        pe, vv = eq_to_ecl(pos), eq_to_ecl(vel)
        rows.append(dict(ObjID=i, FORMAT="BCART", x=pe[0], y=pe[1], z=pe[2], xdot=vv[0], ydot=vv[1], zdot=vv[2], epochMJD_TDB=T_START))
    return rows


def table(rows, sep, order=None):
    cols = list(rows[0])
    out = [sep.join(cols)]
    for x in rows:
        out.append(sep.join(repr(v) if isinstance(v, float) else str(v) for v in x.values()))
    return "\n".join(out) + "\n"


def config(p):
    des = p["survey"] != "rubin_sim"
    L = []
    A = L.append
    A("[INPUT]")
    A("ephemerides_type = " + ("ar" if p["mode"] == "ar" else "external"))
    A("eph_format = " + p["eph_fmt"])
    A(f"size_serial_chunk = {p['chunk']}")
    A("aux_format = " + p["aux_fmt"])
    if des:
        A("pointing_sql_query = SELECT observationId, observationMidpointMJD as observationMidpointMJD_TAI, visitExposureTime, filter, "
          "fiveSigmaDepth as fieldFiveSigmaDepth_mag, fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, c, k FROM observations order by observationId")
    else:
        A("pointing_sql_query = SELECT observationId, observationStartMJD as observationStartMJD_TAI, visitTime, visitExposureTime, filter, "
          "seeingFwhmGeom as seeingFwhmGeom_arcsec, seeingFwhmEff as seeingFwhmEff_arcsec, fiveSigmaDepth as fieldFiveSigmaDepth_mag, "
          "fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, rotSkyPos as fieldRotSkyPos_deg FROM observations order by observationId")
    A("[SIMULATION]")
    if p["mode"] == "ar":
        A(f"ar_ang_fov = {p['ang_fov']}\nar_fov_buffer = {p['buffer']}\nar_picket = {p['picket']:g}\nar_obs_code = {p['obs'] or ('W84' if des else 'X05')}\nar_healpix_order = {p['healpix']}")
        if p["nsub"] != 101:
            A(f"ar_n_sub_intervals = {p['nsub']}")
    A("[FILTERS]")
    A("observing_filters = " + ",".join(survey_filters(p)))
    if p["bright"]:
        A(f"[SATURATION]\nbright_limit = {p['brightlim']}")
    A(f"[PHASECURVES]\nphase_function = {p['phase']}")
    A("[FOV]")
    cam = p["camera"]
    if cam == "circle":
        A(f"camera_model = circle\nfill_factor = {p['fill']}\ncircle_radius = {p['radius']}")
    elif cam == "footprint":
        A("camera_model = footprint")
        if p["edge"]:
            A(f"footprint_edge_threshold = {p['edge']}")
    elif cam == "visits_footprint":
        A("camera_model = visits_footprint\nvisits_query = SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, "
          "detectorID, magLim as limMag_perChip FROM observations WHERE visitId = ?")
    else:
        A("camera_model = none")
    if p["fading"]:
        A("[FADINGFUNCTION]")
        A(f"fading_function_on = True\ndes_transient_efficency = {p['transeff']}" if des else "fading_function_on = True\nfading_function_width = %s\nfading_function_peak_efficiency = %s" % (p["fade"][1], p["fade"][0]))
    elif des:
        A("[FADINGFUNCTION]\nfading_function_on = False")
    if p["link"] or p["cuts"]:
        A("[LINKINGFILTER]")
    if p["link"]:
        if des:
            if p["disc"]:
                A("des_discovery_on = True")
        else:
            n, k, win, sep, dt = p["ssp"]
            A(f"SSP_detection_efficiency = {p['link_eff']}\nSSP_number_observations = {n}\nSSP_separation_threshold = {sep}\nSSP_maximum_time = {dt}\n"
              f"SSP_number_tracklets = {k}\nSSP_track_window = {win}\nSSP_night_start_utc = 16.0")
            if p["link"] == 2:
                A("drop_unlinked = False")
    for k in sorted(p["cuts"] or ()):
        A(f"{k} = {p['cuts'][k]}")
    A("[OUTPUT]")
    A(f"output_format = {p['fmt']}\noutput_columns = {p['columns']}")
    if p["posdec"] is not None:
        A(f"position_decimals = {p['posdec']}")
    if p["magdec"] is not None:
        A(f"magnitude_decimals = {p['magdec']}")
    A(f"[LIGHTCURVE]\nlc_model = {'identity' if p['lc'] else 'none'}\n[ACTIVITY]\ncomet_activity = none")
    A("[EXPERT]")
    A(f"randomization_on = {p['rand'] and not des}\nvignetting_on = {p['vign'] and not des}\ntrailing_losses_on = {p['trail'] and not des}")
    if not p["snrcut"]:
        A("default_snr_cut = False")
    if not p["brute"]:
        A("brute_force = False")
    if p["limit"]:
        A(f"{p['limit'][0]} = {p['limit'][1]}")
    if p["aux"]:
        A("[AUXILIARY]")
        for k in sorted(p["aux"]):
            A(f"{k} = {p['aux'][k]}")
    return "\n".join(L) + "\n"


def write_pointings(path, p):
    pts, ra0, dec0 = pointings(p)
    con = sqlite3.connect(path)
    if p["survey"] == "rubin_sim":
        con.execute("create table observations(observationId integer, observationStartMJD real, filter text, seeingFwhmGeom real, seeingFwhmEff real, "
                    "fiveSigmaDepth real, fieldRA real, fieldDec real, rotSkyPos real, visitTime real, visitExposureTime real)")
        con.executemany("insert into observations values(?,?,?,?,?,?,?,?,?,?,?)",
                        [(q["id"], q["t"], q["filter"], q["geom"], q["eff"], q["depth"], q["ra"], q["dec"], q["rot"], q["vt"], q["et"]) for q in pts])
    else:
        con.execute("create table observations(observationId integer, observationMidpointMJD real, visitExposureTime real, filter text, fiveSigmaDepth real, "
                    "fieldRA real, fieldDec real, c real, k real)")
        con.executemany("insert into observations values(?,?,?,?,?,?,?,?,?)",
                        [(q["id"], q["t"] + q["et"] / 2 / 86400, q["et"], q["filter"], q["depth"], q["ra"], q["dec"], q["c"], q["k"]) for q in pts])
    con.commit()
    con.close()


def write_visits(path, p):
    pts, _, _ = pointings(p)
    con = sqlite3.connect(path)
    con.execute("create table observations(visitId integer, llcra real, llcdec real, lrcra real, lrcdec real, urcra real, urcdec real, ulcra real, ulcdec real, "
                "ra real, dec real, detectorID integer, magLim real)")
    for q in pts:
        det = 0
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                det += 1
                cd = math.cos(math.radians(q["dec"]))
                ra, de, h = q["ra"] + a * 0.62 / cd, q["dec"] + b * 0.62, 0.3
                con.execute("insert into observations values(?,?,?,?,?,?,?,?,?,?,?,?,?)",
                            (q["id"], ra - h / cd, de - h, ra + h / cd, de - h, ra + h / cd, de + h, ra - h / cd, de + h, ra, de, det, q["depth"] - 0.05 * det))
    con.commit()
    con.close()


def eph_text(rows, sep):
    return "\n".join([sep.join(EPH_COLS)] + [sep.join(repr(v) if isinstance(v, float) else str(v) for v in x) for x in rows]) + "\n"


def materialise(w, p, sub="in", subset=None, order=None):
    """write the input files below w.root/sub; subset/order: object index lists"""
    p = full(p)
    d = w.path(sub)
    os.makedirs(d, exist_ok=True)
    for f in ("pointings.db", "visits.db", "eph.h5", "eph.csv"):
        if os.path.exists(os.path.join(d, f)):
            os.unlink(os.path.join(d, f))
    orb, phy = orbits(p), physical(p)
    idx = list(range(p["nobj"])) if subset is None else list(subset)
    r = random.Random(p["seed"] * 17 + 2)
    perm = idx[:]
    if order == "shuffle":
        r.shuffle(perm)
    sep = " " if p["aux_fmt"] == "whitespace" else ","
    pre = "".join(f"# generated catalogue line {k}\n" for k in range(p["comment"]))
    with open(os.path.join(d, "orbits.csv"), "w") as f:
        f.write(pre + table([orb[k] for k in idx], sep))
    with open(os.path.join(d, "params.csv"), "w") as f:
        f.write(table([phy[k] for k in perm], sep))
    if p["lc"]:
        with open(os.path.join(d, "complex.csv"), "w") as f:
            f.write(table([dict(ObjID=phy[k]["ObjID"], period=round(r.uniform(1, 20), 3), amplitude=round(r.uniform(0, 1), 3)) for k in reversed(perm)], sep))
    with open(os.path.join(d, "config.ini"), "w") as f:
        f.write(config(p))
    write_pointings(os.path.join(d, "pointings.db"), p)
    if p["camera"] == "visits_footprint":
        write_visits(os.path.join(d, "visits.db"), p)
    if p["mode"] == "ext":
        ids = obj_ids(p)
        keep = set(ids[k] for k in idx)
        rows = [x for x in ephemeris(p) if x[0] in keep]
        if p["eph_fmt"] == "hdf5":
            import pandas as pd, warnings
            warnings.simplefilter("ignore")
            if not rows:       # pandas writes no table without rows: the ephemeris of some other object
                rows = [["nobody", 0, pointings(p)[0][0]["t"]] + [1.5] * (len(EPH_COLS) - 3)]
            df = pd.DataFrame(rows, columns=EPH_COLS)
            df["ObjID"] = df["ObjID"].astype(object)
            df.to_hdf(os.path.join(d, "eph.h5"), key="sorcha_ephemeris", format="table", data_columns=True)
        else:
            with open(os.path.join(d, "eph.csv"), "w") as f:
                f.write(eph_text(rows, " " if p["eph_fmt"] == "whitespace" else ","))


def argv(p, sub="in", out="out", stem="run", force=False, ar="cache", stats="stats", ew="ephout", pre=""):
    p = full(p)
    j = lambda *a: pre + os.path.join(*a)
    a = ["-c", j(sub, "config.ini"), "-o", j(out), "--ob", j(sub, "orbits.csv"), "-p", j(sub, "params.csv"), "--pd", j(sub, "pointings.db"), "-t", stem, "-s", p["survey"]]
    if p["mode"] == "ext":
        a += ["--er", j(sub, "eph.h5" if p["eph_fmt"] == "hdf5" else "eph.csv")]
    else:
        a += ["--ar", j(ar)]
        if p["ew"]:
            a += ["--ew", ew]
    if p["stats"]:
        a += ["--st", stats]
    if p["camera"] == "visits_footprint":
        a += ["--vd", j(sub, "visits.db")]
    if p["lc"]:
        a += ["--cp", j(sub, "complex.csv")]
    if force:
        a += ["-f"]
    if not p["loglevel"]:
        a += ["-l"]
    return a


OUT_EXT = {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5", "h5": ".h5"}


def fill_cache(d, meta=True, only=None, drop=()):
    """a completely bootstrapped cache directory (contents as the servers would deliver them)"""
    import targets_data as td
    os.makedirs(d, exist_ok=True)
    for n in td.FILES:
        if only is None or n in only:
            if n in drop:
                continue
            with open(os.path.join(d, n), "wb") as f:
                f.write(td.data_file(td.SERVED[n]))
