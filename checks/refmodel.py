"""A small executable reference model of the survey simulator with the random modules switched off.

Written from the documentation and the published formulas, row by row in plain Python; shares no code with src/sorcha."""
import csv, math, os

import workload as L

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
KM_AU = 149597870.7


class Ambiguous(Exception):
    """a decision too close to a threshold to be judged"""


def above(x, limit, scale=1.0):
    if abs(x - limit) < 1e-9 * max(scale, abs(limit)):
        raise Ambiguous(f"{x} vs {limit}")
    return x > limit


# -- photometry ---------------------------------------------------------------------------------------------------
def phase_shift(fn, a, alpha_deg):
    """magnitudes added to H at this phase angle"""
    al = math.radians(alpha_deg)
    if fn == "none":
        return 0.0
    if fn == "linear":
        return a["S"] * alpha_deg
    if fn == "HG":
        W = math.exp(-90.56 * math.tan(al / 2) ** 2)
        def phi(A, B, C):
            s = math.sin(al)
            return W * (1 - C * s / (0.119 + 1.341 * s - 0.754 * s * s)) + (1 - W) * math.exp(-A * math.tan(al / 2) ** B)
        g = a["GS"]
        return -2.5 * math.log10((1 - g) * phi(3.332, 0.631, 0.986) + g * phi(1.862, 1.218, 0.238))
    if fn in ("HG1G2", "HG12"):
        if fn == "HG1G2":
            g1, g2 = a["G1"], a["G2"]
        else:                        # Penttila et al. (2016)
            g12 = a["G12"]
            g1, g2 = 0.84293649 * g12, 0.53513350 * (1 - g12)
        x = max(0.0, muinonen(1, al)), max(0.0, muinonen(2, al)), max(0.0, muinonen(3, al))
    if g1 * x[0] + g2 * x[1] + (1 - g1 - g2) * x[2] <= 0:
        raise ValueError(f"{fn} {a} {alpha_deg}")
    return -2.5 * math.log10(g1 * x[0] + g2 * x[1] + (1 - g1 - g2) * x[2])


def spline(xs, ys, d0, d1, x):
    """clamped cubic spline"""
    n = len(xs)
    a = [[0.0] * n for _ in range(n)]
    b = [0.0] * n
    h = [xs[i + 1] - xs[i] for i in range(n - 1)]
    a[0][0], a[0][1], b[0] = 2 * h[0], h[0], 6 * ((ys[1] - ys[0]) / h[0] - d0)
    a[-1][-1], a[-1][-2], b[-1] = 2 * h[-1], h[-1], 6 * (d1 - (ys[-1] - ys[-2]) / h[-1])
    for i in range(1, n - 1):
        a[i][i - 1], a[i][i], a[i][i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        b[i] = 6 * ((ys[i + 1] - ys[i]) / h[i] - (ys[i] - ys[i - 1]) / h[i - 1])
    for i in range(1, n):
        f = a[i][i - 1] / a[i - 1][i - 1]
        for j in range(n):
            a[i][j] -= f * a[i - 1][j]
        b[i] -= f * b[i - 1]
    m = [0.0] * n
    for i in range(n - 1, -1, -1):
        m[i] = (b[i] - (a[i][i + 1] * m[i + 1] if i + 1 < n else 0.0)) / a[i][i]
    i = max(k for k in range(n - 1) if xs[k] <= x or k == 0)
    u, v = xs[i + 1] - x, x - xs[i]
    return (m[i] * u ** 3 + m[i + 1] * v ** 3) / (6 * h[i]) + (ys[i] / h[i] - m[i] * h[i] / 6) * u + (ys[i + 1] / h[i] - m[i + 1] * h[i] / 6) * v


def muinonen(k, al):
    """basis functions of Muinonen et al. (2010)"""
    r = math.radians
    if k == 3:
        if al > r(30):
            return 0.0
        return spline([r(x) for x in (0, 0.3, 1, 2, 4, 8, 12, 20, 30)], [1, 8.3381185e-1, 5.7735424e-1, 4.2144772e-1, 2.3174230e-1, 1.0348178e-1, 6.1733473e-2, 1.6107006e-2, 0],
                      -1.0630097, 0.0, al)        # the derivative sbpy uses
    if k == 1 and al < r(7.5):
        return 1 - 6 / math.pi * al
    if k == 2 and al < r(7.5):
        return 1 - 9 / (5 * math.pi) * al
    ys = {1: [7.5e-1, 3.3486016e-1, 1.3410560e-1, 5.1104756e-2, 2.1465687e-2, 3.6396989e-3], 2: [9.25e-1, 6.2884169e-1, 3.1755495e-1, 1.2716367e-1, 2.2373903e-2, 1.6505689e-4]}[k]
    d = {1: (-1.9098593, -9.1328612e-2), 2: (-5.7295780e-1, -8.6573138e-8)}[k]
    return spline([r(x) for x in (7.5, 30, 60, 90, 120, 150)], ys, d[0], d[1], al)


def trail_x(rra, rde, seeing, texp):
    return math.hypot(rra, rde) / 24.0 * texp / seeing


def separation(ra1, de1, ra2, de2):
    ra1, de1, ra2, de2 = map(math.radians, (ra1, de1, ra2, de2))
    s = math.sin((de2 - de1) / 2) ** 2 + math.cos(de1) * math.cos(de2) * math.sin((ra2 - ra1) / 2) ** 2
    return math.degrees(2 * math.asin(min(1.0, math.sqrt(s))))


_VIG = []


def vignetting(theta):
    if not _VIG:
        v = [float(x) for x in open(os.path.join(D, "vignetting.txt"))]
        _VIG.extend(x / v[0] for x in v)
    if theta >= 2.0:
        f = _VIG[-1]
    else:
        k = int(theta / 0.02)
        k = min(k, len(_VIG) - 2)
        t = theta / 0.02 - k
        f = _VIG[k] * (1 - t) + _VIG[k + 1] * t
    return -2.5 * math.log10(f)


def snr_of(mag, m5):
    x = 10 ** (0.4 * (mag - m5))
    return 1 / math.sqrt((0.04 - 0.039) * x + 0.039 * x * x)


# -- camera -------------------------------------------------------------------------------------------------------
_CAM = {}


def corners(survey):
    if survey not in _CAM:
        f = "LSST_detector_corners_100123.csv" if survey == "rubin_sim" else "DES_ccd_corners.csv"
        k = 1.0 if survey == "rubin_sim" else math.pi / 180
        det = {}
        for r in csv.DictReader(open(os.path.join(D, f))):
            x, y = float(r["x"]) * k, float(r["y"]) * k
            det.setdefault(r["detector"], []).append((math.tan(x), math.tan(y) / math.cos(x)))
        out = []
        for d, pts in det.items():
            cx, cy = sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)
            pts.sort(key=lambda p: math.atan2(p[1] - cy, p[0] - cx))
            out.append((d, pts))
        _CAM[survey] = out
    return _CAM[survey]


def focal_plane(ra, de, fra, fde, rot):
    ra, de, fra, fde, rot = map(math.radians, (ra, de, fra, fde, rot))
    c = math.sin(fde) * math.sin(de) + math.cos(fde) * math.cos(de) * math.cos(ra - fra)
    x = math.cos(de) * math.sin(ra - fra) / c
    y = (math.cos(fde) * math.sin(de) - math.sin(fde) * math.cos(de) * math.cos(ra - fra)) / c
    return x * math.cos(rot) - y * math.sin(rot), x * math.sin(rot) + y * math.cos(rot)


def segment(px, py, a, b):
    vx, vy = b[0] - a[0], b[1] - a[1]
    t = max(0.0, min(1.0, ((px - a[0]) * vx + (py - a[1]) * vy) / (vx * vx + vy * vy)))
    return math.hypot(px - a[0] - t * vx, py - a[1] - t * vy)


def detectors_at(survey, xy, edge):
    """indices of the detectors whose interior, by more than the edge margin, contains the point"""
    px, py = xy
    m = 0.0 if edge is None else math.radians(edge / 3600.0)
    hit = []
    for k, (_, pts) in enumerate(corners(survey)):
        if abs(px - pts[0][0]) > 0.03 or abs(py - pts[0][1]) > 0.03:
            continue
        sides = list(zip(pts, pts[1:] + pts[:1]))
        inside = all((b[0] - a[0]) * (py - a[1]) - (b[1] - a[1]) * (px - a[0]) > 0 for a, b in sides)
        d = min(segment(px, py, a, b) for a, b in sides)
        if abs(d - m) < 1e-8 or d < 1e-8:
            raise Ambiguous("detector edge")
        if inside and d > m:
            hit.append(k)
    return hit


# -- linking ------------------------------------------------------------------------------------------------------
def tracklet_nights(obs, nobs, sep, maxt, start=16.0):
    """obs: (mjd, ra, dec); the nights with a tracklet"""
    nights = {}
    for t, ra, de in sorted(obs):
        nights.setdefault(math.floor(t - start / 24.0), []).append((t, ra, de))
    good = []
    for n, o in sorted(nights.items()):
        ok = nobs == 1
        if not ok and len(o) >= nobs:
            for i in range(len(o)):
                for j in range(i):
                    dt = o[i][0] - o[j][0]
                    if abs(dt - maxt) < 1e-8:
                        raise Ambiguous("tracklet time")
                    s = separation(o[i][1], o[i][2], o[j][1], o[j][2]) * 3600
                    if abs(s - sep) < 1e-5:
                        raise Ambiguous("tracklet separation")
                    if 0 < dt < maxt and s > sep and i - j + 1 >= nobs:
                        ok = True
        if ok:
            good.append(n)
    return good


def linked_night(obs, nobs, ntrk, window, sep, maxt):
    """the night on which the object is first submitted as linked, or None"""
    good = tracklet_nights(obs, nobs, sep, maxt)
    for n in good:
        if sum(1 for g in good if n - window < g <= n) >= ntrk:
            return n
    return None


def opportunities(obs, nobs, ntrk, window, sep, maxt):
    """how many chances of a discovery there are: the different sets of tracklets that suffice, met by a trailing window"""
    good = tracklet_nights(obs, nobs, sep, maxt)
    if not good or ntrk < 2:
        return len(good)
    n, last = 0, None
    for t in range(min(good), max(good) + window + 1):
        w = [g for g in good if t - window < g <= t]
        if len(w) >= ntrk:
            n += w != last
            last = w
    return n


def des_found(obs, r2min):
    """obs: times; DES discovery criteria of Bernardinelli et al. (2022)"""
    ts = sorted(obs)
    nun = sum(1 for i in range(len(ts)) if all(ts[i] - ts[j] >= 0.4 for j in range(i)))
    if any(abs(ts[i] - ts[j] - 0.4) < 1e-7 for i in range(len(ts)) for j in range(i)):
        raise Ambiguous("nights")
    if nun >= 9:
        return True
    if nun < 7:
        return False
    t1, t2 = ts[0], ts[-1]
    t1a = min([t for t in ts if t - t1 > 0.7] + [t2])
    t2a = max([t for t in ts if t2 - t > 0.7] + [t1])
    if not min(t2 - t1a, t2a - t1) > 0.5 * 365.25:
        return False
    det = [ts[0]] + [b for a, b in zip(ts, ts[1:]) if b - a > 0.4]
    first = second = 999.0
    for a, b, c in zip(det, det[1:], det[2:]):
        if c - b < first and b - a < second:
            first, second = c - b, b - a
    w = 90 if r2min >= (50 * KM_AU) ** 2 else 60
    return first < w and second < w


# -- the survey ---------------------------------------------------------------------------------------------------
def survey(p, eph=None):
    """{(ObjID, FieldID): row}: what a run of p without random modules has to deliver"""
    p = L.full(p)
    des = p["survey"] != "rubin_sim"
    pts = {q["id"]: q for q in L.pointings(p)[0]}
    phy = {str(x["ObjID"]): x for x in L.physical(p)}
    filters = L.survey_filters(p)
    if eph is None:
        eph = [dict(zip(L.EPH_COLS, x)) for x in L.ephemeris(p)]
    rows = {}
    for e in eph:
        q, a = pts[int(float(e["FieldID"]))], phy[str(e["ObjID"])]
        f = q["filter"]
        if f not in filters:
            continue
        m = p["mainf"]
        H = float(a["H_" + m]) + (float(a[f"{f}-{m}"]) if f != m else 0.0)
        pp = {n: float(a.get(n, a.get(n + f, 0))) for n in ("GS", "G1", "G2", "G12", "S")}
        r = math.sqrt(sum(float(e[f"Obj_Sun_{c}_LTC_km"]) ** 2 for c in "xyz"))
        mag = H + phase_shift(p["phase"], pp, float(e["phase_deg"])) + 5 * math.log10(r / KM_AU * float(e["Range_LTC_km"]) / KM_AU)
        rra, rde, ra, de = (float(e[k]) for k in ("RARateCosDec_deg_day", "DecRate_deg_day", "RA_deg", "Dec_deg"))
        row = dict(ObjID=str(e["ObjID"]), FieldID=q["id"], fieldMJD_TAI=float(e["fieldMJD_TAI"]), optFilter=f, fieldRA_deg=q["ra"], fieldDec_deg=q["dec"], fieldFiveSigmaDepth_mag=q["depth"],
                   RA_deg=ra, Dec_deg=de, H_filter=H, trailedSourceMagTrue=mag, trailedSourceMag=mag, RATrue_deg=ra, DecTrue_deg=de, Obj_Sun_LTC_km=r,
                   Range_LTC_km=float(e["Range_LTC_km"]), RangeRate_LTC_km_s=float(e["RangeRate_LTC_km_s"]), phase_deg=float(e["phase_deg"]), RARateCosDec_deg_day=rra, DecRate_deg_day=rde)
        row["H_" + m] = float(a["H_" + m])
        psf = mag
        if p["trail"] and not des:
            x = trail_x(rra, rde, q["eff"], q["et"])
            psf += 1.25 * math.log10(1 + 0.42 * x * x / (1 + 0.003 * x))
        row["PSFMag"] = row["PSFMagTrue"] = psf
        m5 = q["depth"] - (vignetting(separation(ra, de, q["ra"], q["dec"])) if p["vign"] and not des else 0.0)
        row["fiveSigmaDepth_mag"] = m5
        if not des:
            t = 0.0
            if p["trail"]:
                x = trail_x(rra, rde, q["geom"], q["et"])
                t = 1.25 * math.log10(1 + 0.761 * x * x / (1 + 1.162 * x))
            s = snr_of(mag + t, m5)
            row["SNRTrailedSourceMag"], row["SNRPSFMag"] = s, snr_of(psf, m5)
            row["astrometricSigma_deg"] = math.hypot(10.0, 0.6 * q["geom"] * 1000 / s) / 3.6e6
            row["trailedSourceMagSigma"] = 2.5 * math.log10(1 + 1 / s)
            row["PSFMagSigma"] = 2.5 * math.log10(1 + 1 / row["SNRPSFMag"])
            row.update(seeingFwhmGeom_arcsec=q["geom"], seeingFwhmEff_arcsec=q["eff"], visitTime=q["vt"], fieldRotSkyPos_deg=q["rot"])
        row["visitExposureTime"] = q["et"]
        # filters
        if p["camera"] == "circle" and (not p["fill"] or not p["radius"]):
            continue
        if p["camera"] == "circle" and not above(p["radius"], separation(ra, de, q["ra"], q["dec"])):
            continue
        if p["camera"] == "footprint":
            hit = detectors_at(p["survey"], focal_plane(ra, de, q["ra"], q["dec"], q["rot"] if not des else 0.0), p["edge"])
            if not hit:
                continue
            row["detectorID"] = hit[0]
        if p["camera"] == "visits_footprint":
            hit = visit_detectors(q, ra, de)
            if not hit:
                continue
            row["detectorID"], row["limMag_perChip"] = hit[0], q["depth"] - 0.05 * hit[0]
        if p["limit"] and p["limit"][0] == "snr_limit" and not above(row["SNRPSFMag"], p["limit"][1]):
            continue
        if p["limit"] and p["limit"][0] == "mag_limit" and not above(p["limit"][1], mag):
            continue
        if p["bright"]:
            b = [float(x) for x in str(p["brightlim"]).split(",")]
            b = b[0] if len(b) == 1 else b[filters.index(f)]
            if not above(psf, b):
                continue
        rows[row["ObjID"], q["id"]] = row
    by = {}
    for k in rows:
        by.setdefault(k[0], []).append(k)
    c = p["cuts"] or {}
    if "distance_cut_upper" in c:
        for o, ks in by.items():
            if not any(above(c["distance_cut_upper"], rows[k]["Obj_Sun_LTC_km"] / KM_AU) and above(rows[k]["Obj_Sun_LTC_km"] / KM_AU, c["distance_cut_lower"]) for k in ks):
                for k in ks:
                    del rows[k]
    if "motion_cut_upper" in c:
        for k in list(rows):
            v = math.hypot(rows[k]["RARateCosDec_deg_day"], rows[k]["DecRate_deg_day"])
            if not (above(c["motion_cut_upper"], v) and above(v, c["motion_cut_lower"])):
                del rows[k]
    by = {}
    for k in rows:
        by.setdefault(k[0], []).append(k)
    for o, ks in by.items():
        if p["link"] and not des:
            n = linked_night([(rows[k]["fieldMJD_TAI"], rows[k]["RA_deg"], rows[k]["Dec_deg"]) for k in ks], *p["ssp"])
            for k in ks:
                rows[k]["object_linked"] = n is not None
                rows[k]["date_linked_MJD"] = float("nan") if n is None else float(n)
                if n is None and p["link"] == 1:
                    del rows[k]
        if p["link"] and des and p["disc"]:
            if not des_found([rows[k]["fieldMJD_TAI"] for k in ks], min(rows[k]["Obj_Sun_LTC_km"] ** 2 for k in ks)):
                for k in ks:
                    del rows[k]
    return rows


def visit_detectors(q, ra, de):
    """the detectors of write_visits"""
    det, hit, cd = 0, [], math.cos(math.radians(q["dec"]))
    dra = (ra - q["ra"] + 180) % 360 - 180
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            det += 1
            u, v = abs(dra - a * 0.62 / cd) - 0.3 / cd, abs(de - q["dec"] - b * 0.62) - 0.3
            if abs(u) < 1e-8 or abs(v) < 1e-8:
                raise Ambiguous("detector edge")
            if u < 0 and v < 0:
                hit.append(det)
    return hit
