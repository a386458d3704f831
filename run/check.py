#!/usr/bin/env python3
"""Decide one property: check.py <ID> quick|thorough"""
import os, sys, traceback, importlib, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), "gen"))
import lib
R = {"op": "reset"}
PROPS = {}
def prop(pid):
    def d(f): PROPS[pid] = f; return f
    return d

# ------------------------------------------------------------------ accelerator model
import model as gm
def gen_model(c, thorough):
    c.model("MCModel", "MCModelT.cfg" if thorough else "MCModel.cfg")
    return c.model("MCModel", "GenModelT.cfg" if thorough else "GenModel.cfg")

@prop("M01")
def m01(c, th):
    scr = gen_model(c, th)
    c.replay("d_model", "TraceModel", [[R] + s for s in scr], "tlc")
    r = c.rng(); sc = []
    for i in range(1500 if th else 300):
        ops, comps = gm.build(r, r.randint(1, 40 if th else 20)); sc.append([R] + ops)
        if i % 3 == 0: # the same constructor again
            o2, _ = gm.build(r, r.randint(1, 10)); sc[-1] += [{"op": "newmodel"}] + o2
    c.replay("d_model", "TraceModel", sc, "random")

@prop("M02")
def m02(c, th):
    scr = gen_model(c, th); r = c.rng()
    sc = [[R] + s + gm.queries(r, gm.script_comps(s), 8) for s in scr]
    c.replay("d_model", "TraceModel", sc, "tlc")
    sc = []
    for i in range(600 if th else 150):
        ops, comps = gm.build(r, r.randint(1, 25)); sc.append([R] + ops + gm.queries(r, comps, 40))
    c.replay("d_model", "TraceModel", sc, "random")

@prop("M03")
def m03(c, th):
    scr = c.model("MCPatterns", "MCPatternsT.cfg" if th else "MCPatterns.cfg")
    c.replay("d_model", "TraceModel", [[R] + scr[i:i + 20] for i in range(0, len(scr), 20)], "all_patterns")
    r = c.rng()
    c.replay("d_model", "TraceModel", [[R] + gm.match_random(r, 20) for _ in range(300 if th else 60)], "random")
    sc = []
    for i in range(200 if th else 40):
        ops, comps = gm.build(r, r.randint(5, 25)); sc.append([R] + ops + gm.queries(r, comps, 20) + gm.patranges(r, comps, 5))
    c.replay("d_model", "TraceModel", sc, "in_queries")

@prop("M04")
def m04(c, th):
    scr = gen_model(c, th); r = c.rng()
    sc = [[R] + s + gm.all_ranges(gm.script_comps(s), r, 30) + gm.rings(gm.script_comps(s), r, 3) + gm.patranges(r, gm.script_comps(s), 4)
          for s in (scr if th else scr[::2])]
    c.replay("d_model", "TraceModel", sc, "tlc")
    sc = []
    for i in range(300 if th else 80):
        ops, comps = gm.build(r, r.randint(1, 25))
        sc.append([R] + ops + gm.all_ranges(comps, r, 60) + gm.rings(comps, r, 4) + gm.patranges(r, comps, 30))
    c.replay("d_model", "TraceModel", sc, "random")

@prop("M05")
def m05(c, th):
    scr = c.model("MCInstall", "MCInstallT.cfg" if th else "MCInstall.cfg"); r = c.rng()
    c.replay("d_model", "TraceModel", [[R] + s for s in scr], "tlc")
    sc = []
    for i in range(600 if th else 200):
        ops, comps = gm.build(r, r.randint(1, 15), frames=False); ins = gm.installs(r, comps, r.randint(1, 8))
        if ins:
            n = len(comps) + 2 * len(ins)
            sc.append([R] + ops + ins + gm.all_ranges([0] * n, r, 15) + gm.rings([0] * n, r, 2)
                      + [dict(op="idx", pat=p, reuse=False) for p in ("*", "*ins*", "Marker*|BPM*")] + [dict(op="ext", pat="*ins1", reuse=False)])
    c.replay("d_model", "TraceModel", sc, "installs")

# ------------------------------------------------------------------ geometry and misalignment
import geom as gg
def geom_scripts(c, th, cfg):
    if th: c.model("MCGeom", "MCGeomT.cfg", timeout=5000)
    return [(gg.from_nodes(s["nodes"]), s) for s in c.model("MCGeom", cfg)]

@prop("G01")
def g01(c, th):
    r = c.rng(); seen, sc = set(), []
    for t, s in geom_scripts(c, th, "MCGeom.cfg"):
        k = json.dumps(t.nodes)
        if k in seen: continue
        seen.add(k); sc.append([R, gg.mk(t)] + gg.geo_queries(r, t, 4) + gg.copies(r, t, 2))
    c.replay("d_geom", "TraceGeom", sc, "tlc")
    sc = []
    for i in range(4000 if th else 500):
        t = gg.tree(r, depth=4 if th else 3, maxn=40 if th else 25); sc.append([R, gg.mk(t)] + gg.geo_queries(r, t, 6) + gg.copies(r, t, 2) + [gg.rots(r, 6)])
    c.replay("d_geom", "TraceGeom", sc, "random")

@prop("G02")
def g02(c, th):
    r = c.rng(); sc = []
    for t, s in geom_scripts(c, th, "GenGeom.cfg"):
        if not th and r.random() > .35: continue
        sc.append([R, gg.mk(t)] + gg.script_ops(t, s) + [dict(op="all")] + gg.queries(r, t, 2) + ([gg.misalign(r, t, False)] + gg.undo(t) + [dict(op="all")] if r.random() < .2 else []))
    c.replay("d_geom", "TraceGeom", sc, "tlc")
    sc = []
    for i in range(4000 if th else 500):
        t = gg.tree(r, depth=4 if th else 3, maxn=40 if th else 25)
        sc.append([R, gg.mk(t)] + gg.misaligned(r, t, r.randint(1, 12), lambda: gg.queries(r, t, 3)) + [dict(op="all")] + (gg.undo(t) + [dict(op="all")] + gg.queries(r, t, 3) if r.random() < .6 else []))
    c.replay("d_geom", "TraceGeom", sc, "random")

@prop("G03")
def g03(c, th):
    r = c.rng(); sc = []
    for t, s in geom_scripts(c, th, "MCGeom.cfg") + [(gg.from_nodes(s["nodes"]), s) for s in c.model("MCGeom", "GenGeom.cfg")]:
        if not th and r.random() > .3: continue
        sc.append([R, gg.mk(t)] + gg.script_ops(t, s) + [dict(op="walk")] + gg.edges(r, t, 3))
    c.replay("d_geom", "TraceGeom", sc, "tlc")
    sc = []
    for i in range(4000 if th else 500):
        t = gg.tree(r, depth=4 if th else 3, maxn=40 if th else 25)
        sup = (lambda: gg.support(r, t) if gg.mounts(t) and r.random() < .3 else [])
        sc.append([R, gg.mk(t), dict(op="walk")] + gg.misaligned(r, t, r.randint(1, 8), lambda: sup() + gg.edges(r, t, 3) + [dict(op="walk")]))
    c.replay("d_geom", "TraceGeom", sc, "random")

@prop("G04")
def g04(c, th):
    r = c.rng(); sc = []
    for t, s in geom_scripts(c, th, "GenGeom.cfg"):
        if gg.mounts(t) and any(o["op"] == "support" for o in s["ops"]):
            sc.append([R, gg.mk(t)] + gg.script_ops(t, s) + [dict(op="all"), dict(op="all"), dict(op="supports"), dict(op="walk")])
    c.replay("d_geom", "TraceGeom", sc, "tlc")
    sc = []
    for i in range(4000 if th else 500):
        t = gg.tree(r, depth=4 if th else 3, maxn=40 if th else 25, need=lambda t: gg.mounts(t)); ops = []
        for _ in range(r.randint(1, 6)): ops += gg.support(r, t) + gg.queries(r, t, 3) + [dict(op="all"), dict(op="walk")]
        sc.append([R, gg.mk(t)] + ops + gg.tilts(r, t) + gg.ground(r, t) + [dict(op="all")])
    c.replay("d_geom", "TraceGeom", sc, "random")

# ------------------------------------------------------------------ tracking
import track as gt
def track_scripts(c, th):
    return c.model("MCTrack", "MCTrackT.cfg" if th else "MCTrack.cfg", timeout=5000)

def mc_track(s, r, extra):
    t = gg.from_nodes(s["nodes"]); n = len(t.atoms(1))
    return [R, gg.mk(t)] + s["ops"] + [gt.sim(r, t, ring=False, a=0, b=n - 1, how="ctor", handle=False)] + [dict(op="addp", p={k: v for k, v in p.items() if k != "ini"}) for p in s["procs"]] + extra(t, n)

@prop("T01")
def t01(c, th):
    r = c.rng(); scr = track_scripts(c, th)
    if not th: scr = r.sample(scr, len(scr) // 4)
    c.replay("d_track", "TraceTrack", [mc_track(s, r, lambda t, n: [dict(op="run"), dict(op="cont")]) for s in scr], "tlc")
    c.replay("d_track", "TraceTrack", [[R] + gt.run01(r, th) for _ in range(6000 if th else 1000)], "random")

@prop("T02")
def t02(c, th):
    r = c.rng(); scr = c.model("MCProc", "MCProcT.cfg" if th else "MCProc.cfg")
    if th: scr = r.sample(scr, min(len(scr), 6000))
    c.replay("d_track", "TraceTrack", [[R] + gt.mk02(s["comps"], s["ops"] + [dict(op="pinit")] + [dict(op="ptrack", c=i) for i in (1, 2, 3)]) for s in scr], "tlc")
    c.replay("d_track", "TraceTrack", [[R] + gt.procs02(r, th) for _ in range(8000 if th else 1500)], "random")

@prop("T03")
def t03(c, th):
    r = c.rng(); scr = track_scripts(c, th)
    if not th: scr = r.sample(scr, len(scr) // 6)
    step = lambda t, n: [dict(op="run"), dict(op="initstep", fresh=True)] + [dict(op="step")] * n + [dict(op="cont"), dict(op="initstep", fresh=False)] + [dict(op="step")] * n
    c.replay("d_track", "TraceTrack", [mc_track(s, r, step) for s in scr], "tlc")
    c.replay("d_track", "TraceTrack", [[R] + gt.split03(r) for _ in range(2000 if th else 300)], "parts")
    c.replay("d_track", "TraceTrack", [[R] + gt.hist03(r, th) for _ in range(6000 if th else 700)], "random")

@prop("T04")
def t04(c, th):
    r = c.rng(); scr = c.model("MCCTracker", "MCCTrackerT.cfg" if th else "MCCTracker.cfg")
    if len(scr) > 20000: scr = r.sample(scr, 20000)
    c.replay("d_track", "TraceTrack", [[R, dict(op="tnew")] + s for s in scr], "tlc")
    c.replay("d_track", "TraceTrack", [[R] + gt.tracker04(r, 10) for _ in range(2000 if th else 300)], "random")
    c.replay("d_track", "TraceTrack", [[R] + gt.subdivs(r, 12) for _ in range(2000 if th else 250)], "subdivide")

# ------------------------------------------------------------------ maps of the components
import maps as gm2
def maps_all(c, th, set_, n):
    r = c.rng(); N = "MCMaps" + dict(trans="Trans", thin="Thin", symp="Symp", smp="Smp")[set_]
    scr = c.model("MCMaps", N + ".cfg")
    if th: c.model("MCMaps", N + "T.cfg", timeout=5000)
    c.replay("d_maps", "TraceMaps", [[R] + s for s in scr], "tlc")
    c.replay("d_maps", "TraceMaps", [[R] + (gm2.smp(r, th) if set_ == "smp" else gm2.maps(r, th, set_)) for _ in range(n)], "random")

@prop("T05")
def t05(c, th): maps_all(c, th, "trans", 4000 if th else 300)

@prop("T06")
def t06(c, th): maps_all(c, th, "thin", 4000 if th else 300)

@prop("T07")
def t07(c, th): maps_all(c, th, "symp", 4000 if th else 300)

@prop("T08")
def t08(c, th): maps_all(c, th, "smp", 4000 if th else 300)

@prop("T09")
def t09(c, th):
    r = c.rng(); scr = c.model("MCMaps", "MCMapsCav.cfg")
    if th: c.model("MCMaps", "MCMapsCavT.cfg", timeout=5000)
    c.replay("d_maps", "TraceMaps", [[R] + s for s in scr], "tlc")
    for s in ("trans", "thin", "symp"): c.replay("d_maps", "TraceMaps", [[R] + gm2.cavs(r, th, s) for _ in range(3000 if th else 120)], s)
    c.replay("d_maps", "TraceMaps", [[R] + gm2.smp(r, th, "cav") for _ in range(3000 if th else 120)], "smp")

# ------------------------------------------------------------------ optics of rings
import ring as go
@prop("P01")
def p01(c, th):
    r = c.rng(); T = "T" if th else ""
    c.model("MCRing", "MCRing%s.cfg" % T, timeout=3000)
    c.replay("d_ring", "TraceRing", [[R] + s for s in c.model("MCRing", "MCRingO%s.cfg" % T, timeout=3000)], "tlc")
    K = ["orbit", "tm", "part", "between", "disp", "rms", "rmsorbit", "orbits"]
    c.replay("d_ring", "TraceRing", [[R] + go.scenario(r, th, w, k) for w in ("flat", "coupled", "kicked") for k in K for _ in range(60 if th else 4)], "random")

@prop("P02")
def p02(c, th):
    r = c.rng(); scr = c.model("MCRing", "MCRingTw%s.cfg" % ("T" if th else ""), timeout=3000)
    c.replay("d_ring", "TraceRing", [[R] + s for s in scr], "tlc")
    c.replay("d_ring", "TraceRing", [[R] + go.scenario(r, th, w, "twiss") for w in ("flat", "coupled", "kicked") for _ in range(400 if th else 30)], "random")

@prop("P03")
def p03(c, th):
    r = c.rng(); c.model("MCRing", "MCRing%s.cfg" % ("T" if th else "S"), timeout=3000)
    c.replay("d_ring", "TraceRing", [[R] + go.scenario(r, th, "flat", "tunes") for _ in range(1500 if th else 100)], "random")

# ------------------------------------------------------------------ collimation and loss reports
import coll as gc
def coll_mc(s, r):
    return [R, dict(op="machine", elems=s["el"], place=True), dict(op="sim", src=s["ps"], off=0, ring=False),
            dict(op="proc", pr=s["pr"], prio=2, six=r.random() < .5, own=r.random() < .5, limit=r.choice([0, 0, 1, 3])), dict(op="run"), dict(op="cont")]

def coll_all(c, th, n):
    r = c.rng(); scr = c.model("MCColl", "GenCollT.cfg" if th else "MCColl.cfg")
    if th: c.model("MCColl", "MCCollT.cfg", timeout=5000)
    c.replay("d_coll", "TraceColl", [coll_mc(s, r) for s in r.sample(scr, 15000 if th else 1500)], "tlc")
    c.replay("d_coll", "TraceColl", [[R] + gc.hist(r, th) for _ in range(n)], "random")

@prop("L01")
def l01(c, th): coll_all(c, th, 12000 if th else 1500)

@prop("L02")
def l02(c, th):
    coll_all(c, th, 8000 if th else 1000); r = c.rng("p")
    c.replay("d_coll", "TraceColl", [[R] + gc.protons(r) for _ in range(3000 if th else 300)], "protons")

@prop("L03")
def l03(c, th):
    r = c.rng(); scr = c.model("MCLoss", "MCLossT.cfg" if th else "MCLoss.cfg")
    c.replay("d_coll", "TraceColl", [[R, dict(op="lmap", elems=s["el"], mode=s["mode"])] + s["ops"] + [dict(op="final")] for s in scr], "tlc")
    c.replay("d_coll", "TraceColl", [[R] + gc.lossmap(r, th) for _ in range(20000 if th else 2500)], "random")

@prop("L04")
def l04(c, th):
    r = c.rng(); scr = c.model("MCNan", "MCNanT.cfg" if th else "MCNan.cfg")
    scr = r.sample(scr, 25000 if th else 3000)
    c.replay("d_coll", "TraceColl", [[R, dict(op="nproc", cull=s["cull"], detailed=r.random() < .3), dict(op="nbunch", ids=s["ids"])] + [dict(o, how="again") if o["op"] == "ncheck" and i and any(q["op"] == "ncheck" for q in s["ops"][:i]) and r.random() < .5 else o for i, o in enumerate(s["ops"])] + [dict(op="ncheck", how="direct", e=1, q=[], g=0)] for s in scr], "tlc")
    c.replay("d_coll", "TraceColl", [[R] + gc.nans(r, th) for _ in range(15000 if th else 2000)], "random")

# ------------------------------------------------------------------ apertures
import aper as ga
def ap_scripts(c, th): return c.model("MCAper", "MCAperT.cfg" if th else "MCAper.cfg", timeout=2000)
def grid(m, zs): return [[x, y, z] for x in range(-m, m + 1) for y in range(-m, m + 1) for z in zs]

@prop("A01")
def a01(c, th):
    r = c.rng(); scr = [s for s in ap_scripts(c, th) if len(s["ks"]) == 1]; sc = []
    for s in scr:
        how = r.choice(["ctor", "row"]); p = s["ks"][0]["p"]; row = (p + [0, 0, 0])[:4] if how == "row" else p
        sc.append([R, dict(op="new", how=how, k=s["k"], p=row, s=r.randint(0, 99), pos=r.randint(0, 1)), dict(op="pts", q=grid(5, [r.choice([0, 0, 7])]))])
    c.replay("d_aper", "TraceAper", sc, "tlc")
    c.replay("d_aper", "TraceAper", [[R] + ga.shape(r, th) for _ in range(30000 if th else 4000)], "random")
    c.replay("d_aper", "TraceAper", [[R] + ga.coll(r, True) for _ in range(20000 if th else 2000)], "collimators")

@prop("A02")
def a02(c, th):
    r = c.rng(); scr = [s for s in ap_scripts(c, th) if len(s["ks"]) > 1]; sc = []
    for s in scr:
        L = s["ks"][-1]["s"]; ks = [dict(s=k["s"], p=(k["p"] + [0, 0, 0])[:4]) for k in s["ks"]]
        sc.append([R, dict(op="prof", k=s["k"], ks=ks), dict(op="pts", q=grid(4, [-1] + list(range(L + 1))) if not th else r.sample(grid(5, list(range(L + 1))), 80))])
    c.replay("d_aper", "TraceAper", sc, "tlc")
    c.replay("d_aper", "TraceAper", [[R] + ga.prof(r, th) for _ in range(40000 if th else 4000)], "random")
    c.replay("d_aper", "TraceAper", [[R] + ga.coll(r) for _ in range(30000 if th else 4000)], "collimators")

def ap_conf(c, th):
    return c.model("MCApConf", "MCApConfT.cfg" if th else "MCApConf.cfg", timeout=2000)
def ap_machine(s):
    els = [dict(ty=e["ty"], len=e["len"], nm="e%d" % (i + 1), own=e["ap"]) for i, e in enumerate(s["els"])]
    return els, [dict(op="machine", elems=els), dict(op="table", rows=s["rows"]), dict(op="conf", log=False)]
PTS = [[0, 0], [3, 0], [0, 3], [4, 2], [2, 4], [4, 4], [5, 0], [0, 5], [3, 3], [-4, 1], [1, -4]]

@prop("A03")
def a03(c, th):
    r = c.rng(); scr = ap_conf(c, th); sc = []
    for s in r.sample(scr, min(len(scr), 40000 if th else 6000)):
        els, ops = ap_machine(s)
        sc.append([R] + ops + [dict(op="types"), dict(op="apts", q=[[i + 1] + q + [z] for i, e in enumerate(els) for q in PTS for z in range(e["len"] + 1)])])
    c.replay("d_aper", "TraceAper", sc, "tlc")
    c.replay("d_aper", "TraceAper", [[R] + ga.config(r, th) for _ in range(40000 if th else 5000)], "random")

@prop("A04")
def a04(c, th):
    r = c.rng(); scr = ap_conf(c, th); sc = []
    for s in r.sample(scr, min(len(scr), 20000 if th else 3000)):
        els, ops = ap_machine(s)
        sc.append([R] + ops + [dict(op="survey", mode=m, step=n, file=r.random() < .2) for m, n in r.sample([("points", 1), ("points", 2), ("points", 3), ("dist", 1), ("dist", 3), ("abs", 1), ("abs", 2), ("abs", 3), ("abs", 5)], 2)])
    c.replay("d_aper", "TraceAper", sc, "tlc")
    c.replay("d_aper", "TraceAper", [[R] + ga.survey(r, th) for _ in range(30000 if th else 4000)], "random")

# ------------------------------------------------------------------ data tables
import table as gd, mad as gi, ctl as gk, instr as gx
@prop("D01")
def d01(c, th):
    r = c.rng()
    if th: c.model("MCTable", "MCTableT.cfg", timeout=2000)
    scr = c.model("MCTable", "MCTable.cfg")
    c.replay("d_table", "TraceTable", [[R] + s for s in (scr if th else r.sample(scr, 8000))], "tlc")
    tx = [s["num"] for s in c.model("MCText", "MCTextT.cfg" if th else "MCText.cfg", timeout=2000) if "num" in s]
    sc = []
    for i in range(0, len(tx), 25):
        ops = [R] + [dict(op="addcol", n=[t], t=t) for t in "dis"] + [dict(op="hadd", n=[t], t=t) for t in "di"] + [dict(op="addrow")]
        for x in tx[i:i + 25]:
            ops += [dict(op="setstr", n=[t], i=0, x=x, how="table") for t in "di"] + [dict(op="get", n=["d"], i=0, t="x", how="crow"), dict(op="hsetstr", n=[r.choice("di")], x=x)]
        sc.append(ops)
    c.replay("d_table", "TraceTable", sc, "texts")
    c.replay("d_table", "TraceTable", [[R] + gd.history(r, th) for _ in range(40000 if th else 5000)], "random")
    c.replay("d_table", "TraceTable", [[R] + gd.history(r, th, long=r.choice([70, 140, 257, 260, 300, 300])) for _ in range(240 if th else 40)], "long")
    c.replay("d_table", "TraceTable", [[R] + gd.aprow(r, th) for _ in range(8000 if th else 800)], "aprows")

@prop("D02")
def d02(c, th):
    r = c.rng()
    scr = c.model("MCTfs", "MCTfsT.cfg" if th else "MCTfs.cfg", timeout=2000)
    c.replay("d_table", "TraceTable", [[R] + [dict(op="read", lines=s, nl=r.random() < .8 or s[-1:] == [[]], how="stream")] for s in (r.sample(scr, min(len(scr), 100000)) if th else r.sample(scr, 12000))], "files")
    ln = [s for s in c.model("MCText", "MCTextT.cfg" if th else "MCText.cfg", timeout=2000) if "line" in s]; sc = []
    for i in range(0, len(ln), 20):
        ops = [R]
        for s in ln[i:i + 20]:
            n = max(1, s["n"] - (r.random() < .2)); sp = list("%s ") * n
            ops.append(dict(op="read", lines=[["*", " "] + [c2 for k in range(n) for c2 in ["c", str(k), " "]], ["$", " "] + sp, s["line"]], nl=r.random() < .8, how="stream"))
        sc.append(ops)
    c.replay("d_table", "TraceTable", sc, "lines")
    c.replay("d_table", "TraceTable", [[R] + gd.tables(r, th) for _ in range(30000 if th else 3000)], "tables")
    c.replay("d_table", "TraceTable", [[R] + gd.files(r, th) for _ in range(60000 if th else 6000)], "texts")
    c.replay("d_table", "TraceTable", [[R] + gd.history(r, th, gd.FNAMES, True, False) for _ in range(10000 if th else 1000)], "histories")

def _ctl(r, scr):
    b = lambda ty, nm, bl, m, mod=1: dict(ty=ty, nm=nm, len=[1, 2], how="grad", v=[2, 1] if ty == "Quadrupole" else [1, 1], r=[1, 1], mod=mod, bl=bl, m=m, k=[1, 1], phi=[0, 1], roll=[0, 1])
    pre = [dict(op="build", el=[b("Quadrupole", "q", 0, 0), b("CorrectorWinding", "q", -1, 1), b("SectorBend", "b", 1, 0), b("TWRFStructure", "t", 2, 0), b("CorrectorWinding", "q", -1, 1, 0)])]
    for tp, nm, key in [("Quadrupole", "q", "B1"), ("CorrectorWinding", "q", "X"), ("CorrectorWinding", "q", "Y"), ("SectorBend", "b", "B0"), ("SectorBend", "b", "B1"), ("TWRFStructure", "t", "Lambda")]:
        pre.append(dict(op="get", tp=tp, id=nm, key=key, rw=True, line=tp[0] != "C" and r.random() < .5, a=-1, b=-1, late=False))
    return [[R] + pre + s + [dict(op="read", k=k, how=r.choice(["all", "conv", "n", "op"])) for k in range(1, 7)] for s in scr]

@prop("K01")
def k01(c, th):
    r = c.rng()
    scr = c.model("MCCtl", "MCCtl.cfg"); r.shuffle(scr)
    c.replay("d_ctl", "TraceCtl", _ctl(r, [s for s in scr if any(o["op"] == "write1" for o in s)][:30000 if th else 4000]), "views")
    c.replay("d_ctl", "TraceCtl", [[R] + gk.channels(r, th) for _ in range(60000 if th else 7000)], "channels")

@prop("K05")
def k05(c, th):
    r = c.rng()
    if th: c.model("MCCtl", "MCCtlT.cfg", timeout=3000)
    scr = c.model("MCCtl", "MCCtl.cfg"); r.shuffle(scr)
    c.replay("d_ctl", "TraceCtl", _ctl(r, scr[:74000 if th else 6000]), "settings")
    c.replay("d_ctl", "TraceCtl", [[R] + gk.fields(r, th) for _ in range(60000 if th else 7000)], "fields")

@prop("K02")
def k02(c, th):
    r = c.rng()
    if th: c.model("MCKly", "MCKlyT.cfg", timeout=3000)
    scr = c.model("MCKly", "MCKly.cfg"); r.shuffle(scr)
    c.replay("d_instr", "TraceKly", [[R] + s for s in scr], "settings")
    c.replay("d_instr", "TraceKly", [[R] + gx.klystrons(r, th) for _ in range(80000 if th else 8000)], "random")

@prop("K03")
def k03(c, th):
    r = c.rng()
    if th: c.model("MCFb", "MCFbT.cfg", timeout=3000)
    scr = c.model("MCFb", "MCFb.cfg"); r.shuffle(scr)
    c.replay("d_instr", "TraceFb", [[R] + s for s in (scr if th else scr[:12000])], "histories")
    c.replay("d_instr", "TraceFb", [[R] + gx.feedback(r, th) for _ in range(30000 if th else 3500)], "random")

@prop("K04")
def k04(c, th):
    r = c.rng()
    if th: c.model("MCDiag", "MCDiagT.cfg", timeout=3000)
    scr = c.model("MCDiag", "MCDiag.cfg"); r.shuffle(scr)
    c.replay("d_instr", "TraceDiag", [[R] + s for s in (scr if th else scr[:12000])], "histories")
    c.replay("d_instr", "TraceDiag", [[R] + gx.monitors(r, th) for _ in range(80000 if th else 10000)], "random")
    c.replay("d_instr", "TraceDiag", [[R] + gx.noises(r, th) for _ in range(20000 if th else 3000)], "noise")

@prop("I01")
def i01(c, th):
    r = c.rng()
    scr = c.model("MCImp", "MCImp.cfg", timeout=900); r.shuffle(scr); scr = scr[:60000 if th else 10000]
    if th: c.model("MCImp", "MCImpT.cfg", timeout=3000)
    sc = []
    for i in range(0, len(scr), 20):
        ops = [R]
        for s in scr[i:i + 20]:
            P = r.choice([1, 5])
            if r.random() < .7: ops.append(dict(op="import", rows=s["rows"], cols=gi.COLS, cfg=dict(s["cfg"], log=False), P=P, how=r.choice(["stream", "momentum"])))
            else:
                k = r.randint(0, len(s["rows"]))
                ops += [dict(op="begin", cfg=dict(s["cfg"], log=False))] + [dict(op="append", rows=x, cols=gi.COLS, P=r.choice([P, 2])) for x in (s["rows"][:k], s["rows"][k:])] + [dict(op="get")]
        sc.append(ops)
    c.replay("d_mad", "TraceImp", sc, "model")
    c.replay("d_mad", "TraceImp", [[R] + gi.imp(r, th) for _ in range(20000 if th else 2000)], "imports")
    c.replay("d_mad", "TraceImp", [[R] + gi.app(r, th) for _ in range(8000 if th else 800)], "appends")

# ------------------------------------------------------------------ bunches
import bunch as gb, rand as gr
def exact(s): # no slices after what leaves thirds and the like, which are on bounds only up to rounding
    d = False
    for o in s:
        if o["op"] in ("adjust", "centre"): d = True
        if d and o["op"] in ("slices", "histogram"): return False
    return True
def bunch_histories(c, th, keep, n):
    r = c.rng()
    if th: c.model("MCBunch", "MCBunchT.cfg", timeout=3000)
    scr = [s for s in c.model("MCBunch", "MCBunch.cfg") if exact(s) and any(o["op"] in keep for o in s)]; r.shuffle(scr)
    c.replay("d_bunch", "TraceBunch", [[R] + s for s in (scr if th else scr[:n])], "histories")
    return r

@prop("B01")
def b01(c, th):
    r = bunch_histories(c, th, ("add", "erase", "swap", "assign", "clear", "sort", "charge", "adjust", "centre"), 3000)
    c.replay("d_bunch", "TraceBunch", [[R] + gb.ops(r, th) for _ in range(40000 if th else 4000)], "random")

@prop("B04")
def b04(c, th):
    r = bunch_histories(c, th, ("slices", "histogram"), 3000)
    c.replay("d_bunch", "TraceBunch", [[R] + gb.ops(r, th, True) for _ in range(40000 if th else 4000)], "random")

@prop("B02")
def b02(c, th):
    r = c.rng()
    if th: c.model("MCBfile", "MCBfileT.cfg", timeout=3000)
    c.replay("d_bunch", "TraceBfile", [[R] + s for s in c.model("MCBfile", "MCBfile.cfg")], "histories")
    c.replay("d_bunch", "TraceBfile", [[R] + gb.files(r, th) for _ in range(60000 if th else 6000)], "random")

@prop("B03")
def b03(c, th):
    r = c.rng()
    c.replay("d_bunch", "TraceBeam", [[R] + s for s in c.model("MCBeam", "MCBeamT.cfg" if th else "MCBeam.cfg")], "grid")
    c.replay("d_bunch", "TraceBeam", [[R] + gb.beams(r, th) for _ in range(20000 if th else 2500)], "random")

@prop("B05")
def b05(c, th):
    r = c.rng()
    if th: c.model("MCSmp", "MCSmpT.cfg", timeout=3000)
    c.replay("d_bunch", "TraceSmp", [[R] + s for s in c.model("MCSmp", "MCSmp.cfg")], "histories")
    c.replay("d_bunch", "TraceSmp", [[R] + gb.macros(r, th) for _ in range(40000 if th else 4000)], "random")

@prop("R01")
def r01(c, th):
    r = c.rng()
    if th: c.model("MCRand", "MCRandT.cfg", timeout=3000)
    scr = c.model("MCRand", "MCRand.cfg"); r.shuffle(scr)
    c.replay("d_random", "TraceRand", [[R] + s for s in (scr if th else scr[:4000])], "histories")
    c.replay("d_random", "TraceRand", [[R] + gr.streams(r, th) for _ in range(40000 if th else 4000)], "random")

@prop("R02")
def r02(c, th):
    r = c.rng()
    if th: c.model("MCGround", "MCGroundT.cfg", timeout=3000)
    scr = c.model("MCGround", "MCGround.cfg"); r.shuffle(scr)
    c.replay("d_random", "TraceRand", [[R] + s for s in (scr if th else scr[:4000])], "histories")
    c.replay("d_random", "TraceRand", [[R] + gr.ground(r, th) for _ in range(40000 if th else 4000)], "random")

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if pid == "build":
        drivers = [f[:-4] for f in sorted(os.listdir(os.path.join(lib.VERIF, "harness"))) if f.endswith(".cpp")]
        lib.build(drivers); print("built", drivers); return 0
    if pid == "replay":
        return lib.replay_file(sys.argv[2])
    c = lib.Check(pid, tier)
    try:
        PROPS[pid](c, tier == "thorough")
        c.known_findings()
        return c.finish()
    except lib.Broken as x:
        if c.violations:
            c.finish(); return 1
        print("BROKEN:", x); return 2
if __name__ == "__main__":
    try: rc = main()
    except Exception: traceback.print_exc(); rc = 2
    sys.exit(rc)
