"""Scenarios for the import of MAD tables (I01)."""
KW = ["DRIFT", "DRIFT", "DRIFT", "QUADRUPOLE", "QUADRUPOLE", "SBEND", "RBEND", "SKEWQUAD", "SEXTUPOLE", "SKEWSEXT", "OCTUPOLE", "YCOR", "XCOR", "VKICKER", "HKICKER",
      "SOLENOID", "RFCAVITY", "LCAV", "CRABMARKER", "CRABRF", "COLLIMATOR", "RCOLLIMATOR", "ECOLLIMATOR", "HEL", "MONITOR", "MONITOR", "MARKER", "MARKER",
      "INSTRUMENT", "PLACEHOLDER", "VMONITOR", "HMONITOR", "KICKER", "TKICKER", "MATRIX", "MULTIPOLE", "ELSEPARATOR", "NLLENS", "drift"]
ZERO = ["DRIFT", "VKICKER", "HKICKER", "COLLIMATOR", "RCOLLIMATOR", "ECOLLIMATOR", "MONITOR", "MARKER", "INSTRUMENT", "KICKER", "YCOR", "XCOR", "MULTIPOLE", "PLACEHOLDER", "HMONITOR"]
COLS = ["NAME", "KEYWORD", "L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "E1", "E2", "TILT", "KS", "VKICK", "HKICK", "VOLT", "FREQ", "LAG", "MUX", "MUY"]
ST = ["ANGLE", "K0L", "K1L", "K2L", "K3L", "E1", "E2", "TILT", "VKICK", "HKICK", "MUX", "MUY"]

def row(r, kw=None, single=False, noangle=False):
    kw = kw or r.choice(KW); s = dict(kw=kw, pfx="", nm=r.choice(["q", "b", "m", "d", "BPM.", "x."]) + str(r.randint(1, 30)), len=r.choice([1, 2, 4, 8, 8, 12, 20, 33, 80]), freq=1, lag=0, volt=0, ws=False)
    for k in ST: s[k] = r.choice([0, 0, r.randint(-40, 40)])
    if kw in ZERO and r.random() < .4: s["len"] = 0
    if kw == "MARKER": s["len"] = 0
    if kw == "MONITOR" and r.random() < .4: s["nm"] = "WS" + s["nm"]; s["ws"] = True
    if kw in ("RFCAVITY", "LCAV"):
        s["freq"], s["lag"], s["volt"] = r.choice([1, 1, 2]), r.randint(0, 8), r.choice([0, 1, 5, 16]); s["len"] = 4 * r.randint(2, 8)
    if kw in ("SBEND", "RBEND"):
        s["ANGLE"] = r.choice([-1, 1]) * r.randint(1, 30) * 2; s["K0L"] = r.choice([0, s["ANGLE"], s["ANGLE"] + 1])
        if noangle: s["K0L"] = s["ANGLE"] or 1
        if r.random() < .5: s["TILT"] = 0
    return s

def cfg(r):
    z = lambda p: r.random() < p
    return dict(drifts=r.sample(sorted(set(KW)), r.choice([0, 0, 1, 3])), zeros=r.sample(ZERO, r.choice([0, 0, 1, 3])), single=z(.3), flat=z(.3), honour=z(.5), log=z(.2))

def cols(r):
    c = list(COLS)
    if r.random() < .5: r.shuffle(c)
    noangle = r.random() < .15
    if noangle: c.remove("ANGLE")
    if r.random() < .3: c.insert(r.randint(0, len(c)), r.choice(["PARENT", "S", "BETX"]))
    return c, noangle

def lattice(r, n, noangle, depth=0, frames=True, fn=None):
    fn = fn if fn is not None else [0]; rows = []; i = 0
    while i < n:
        k = r.random()
        if frames and depth < 3 and k < .1:
            fn[0] += 1; nm = "f%d" % fn[0]; pfx = r.choice(["F", "S", "G", "M", "", ""]); ln = dict(row(r, "DRIFT"), kw="LINE", pfx=pfx, nm=nm, len=0)
            inner = lattice(r, r.randint(1, 4), noangle, depth + 1, True, fn)
            rows += [ln] + inner + [dict(ln)]; i += len(inner)
        elif frames and k < .14: rows.append(dict(row(r, "DRIFT"), kw="SROT", nm="rot%d" % r.randint(1, 5), len=r.choice([0, 1, 2]))); i += 1
        else: rows.append(row(r, None, noangle=noangle)); i += 1
    # without the ANGLE column a bend of no K0L cannot be read
    return rows

def imp(r, th=False):
    c, na = cols(r); ops = []
    rows = lattice(r, r.randint(1, 40 if th else 20), na)
    e = dict(op="import", rows=rows, cols=c, cfg=cfg(r), P=r.choice([1, 2, 7, 100]), how=r.choice(["stream", "file", "momentum"]))
    ops.append(e)
    if r.random() < .3: ops.append(dict(e, how="stream", cfg=r.choice([e["cfg"], cfg(r)])))
    return ops

def app(r, th=False):
    g = cfg(r); P = r.choice([1, 3]); ops = [dict(op="begin", cfg=g)]; fn = [0]
    for _ in range(r.choice([1, 1, 2])):
        c, na = cols(r)
        rows = lattice(r, r.randint(2, 24), na, fn=fn)
        k = r.randint(1, 3); cut = sorted(r.randint(0, len(rows)) for _ in range(k - 1))
        for a, b in zip([0] + cut, cut + [len(rows)]):
            ops.append(dict(op="append", rows=rows[a:b], cols=c, P=r.choice([P, P, 1, 2, 7])))
        ops.append(dict(op="get"))
    return ops
