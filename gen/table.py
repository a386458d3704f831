"""Scenarios for data tables and TFS files (D01, D02)."""
NAMES = ["a", "b", "NAME", "S", "K1L", "a_b", "x", "KEYWORD", "", "two words", "é", "*", "$", "@", "A" * 20]
FNAMES = [n for n in NAMES if n and " " not in n] # names that a file can hold
AP = [("APERTYPE", "s"), ("S", "d"), ("APER_1", "d"), ("APER_2", "d"), ("APER_3", "d"), ("APER_4", "d")]
STRS = ["", "x", "QUADRUPOLE", "two words", " lead", "trail ", "1", "-2.5", "*", "@", "%s", "#", "nan", "a\tb", "end\\", "'q'", "é"]

def ch(s):
    """characters as the driver gives them: bytes are single characters"""
    return list(s) if s.isascii() else list("e" if c == "é" else c for c in s)

def num(t, neg, d, e):
    d = list(d)
    while d and d[0] == 0: d.pop(0); e -= 1
    while d and d[-1] == 0: d.pop()
    return dict(t=t, neg=bool(neg and (d or t == "d")), d=d, e=e if d else 0, s=[])

def real(r, small=False):
    if r.random() < .06: return num("d", r.random() < .3, [], 0)
    if r.random() < .05:
        w = r.choice(["inf", "nan"]); return dict(t="d", neg=w == "inf" and r.random() < .5, d=[], e=0, s=list(w))
    n = r.choice([1, 1, 2, 3, 5, 9, 10, 11, 12, 14]); d = [r.randint(0, 9) for _ in range(n)]
    if r.random() < .3: d[r.randrange(n):] = [9] * r.randint(1, 9)
    d = d[:14]
    if not any(d): d[0] = 1
    d[-1] = r.choice([1, 2, 3, 4, 6, 7, 8, 9])
    while d[0] == 0: d.pop(0)
    e = r.choice([0, 1, 1, 2, 3, 5, -1, -3, -5, -6]) if small or r.random() < .6 else r.randint(-300, 300) if r.random() < .5 else r.randint(-12, 12)
    # halves at the digit where a number is cut are not decided
    if len(d) == 11 and d[10] == 5: d[10] = 6
    if len(d) == e + 7 and d[-1] == 5: d[-1] = 6
    return num("d", r.random() < .4, d, e)

def integer(r):
    v = r.choice([0, 1, -1, 7, 10, 120, 2147483647, -2147483648, r.randint(-10**9, 10**9), r.randint(-99, 99)])
    t = str(abs(v)); return num("i", v < 0, [int(c) for c in t], len(t)) if v else num("i", False, [], 0)

def value(r, t, small=True, strs=STRS):
    return real(r, small) if t == "d" else integer(r) if t == "i" else dict(t="s", neg=False, d=[], e=0, s=ch(r.choice(strs)))

def ntext(r):
    """texts that are numbers, nearly numbers, or not"""
    k = r.random()
    if k < .12: return r.choice(["", " ", "x", "-", "+", ".", "e5", "1x", "12abc", "1.5.2", "1..2", "--1", "+-1", "1 2", "1e", "1e+", "1D5", "1,5", "- 1", "1.5 x", "infx", "nanx", "in", "0 0"])
    if k < .2: return r.choice(["inf", "-INF", "nan", "NaN", "+inf", "Infinity", "-infinity", "1e999", "-1e400", "1e-400", "1e99999999999", "1e-99999999999", "99999999999", "2147483648", "-2147483649", "2147483647", "-2147483648", "00000000000000001", "1e-310", "000.000"])
    s = r.choice(["", "", "", "-", "+"]) + "".join(r.choice("0123456789") for _ in range(r.randint(0, 6)))
    if r.random() < .6: s += "." + "".join(r.choice("012346789") for _ in range(r.randint(0, 6)))
    if r.random() < .3: s += r.choice("eE") + r.choice(["", "-", "+"]) + str(r.randint(0, 30))
    if r.random() < .2: s = r.choice([" ", "\t", "  "]) + s
    if r.random() < .2: s = s + r.choice([" ", "\t", "\r"])
    if r.random() < .06: s += r.choice(["x", "5x", ".", "e", "-", ","])
    return s

class Mirror:
    def __init__(s): s.c = []; s.h = []; s.n = 0
    def copy(s): m = Mirror(); m.c, m.h, m.n = list(s.c), list(s.h), s.n; return m

def history(r, th=False, names=NAMES, rw=False, small=True, strs=STRS, long=0):
    m, o = Mirror(), Mirror(); ops = []
    if long:
        for n in r.sample([a for a in names if a != ""], r.randint(1, 3)):
            t = r.choice("dis"); ops.append(dict(op="addcol", n=ch(n), t=t)); m.c.append((n, t))
        ops.append(dict(op="addrows", k=long)); m.n = long
    def name(cs, p=.92): return ch(r.choice(cs)[0]) if cs and r.random() < p else ch(r.choice(names))
    def typ(cs, n):
        t = dict((tuple(ch(a)), b) for a, b in cs).get(tuple(n), "d")
        return t if r.random() < .9 else r.choice("dis")
    def row():
        if long and m.n and r.random() < .7: return max(0, m.n - 1 - r.randint(0, 3)) if r.random() < .5 else r.randrange(m.n)
        return r.randrange(m.n) if m.n and r.random() < .93 else m.n + r.choice([0, 0, 1, 5])
    for _ in range(r.randint(4, 60 if th or long else 30)):
        k = r.random()
        if k < .16 or not m.c:
            n, t = r.choice(names), r.choice("ddiissd" + "x")
            ops.append(dict(op="addcol", n=ch(n), t=t))
            if t != "x" and ch(n) not in [ch(a) for a, _ in m.c]: m.c.append((n, t))
        elif k < .22:
            n, t = r.choice(names), r.choice("diis" + "f")
            ops.append(dict(op="hadd", n=ch(n), t=t))
            if t != "f" and ch(n) not in [ch(a) for a, _ in m.h]: m.h.append((n, t))
        elif k < .30: ops.append(dict(op="addrow")); m.n += 1
        elif k < .38:
            w = min(4, len(m.c)) if r.random() < .8 else r.randint(1, 4)
            v = [value(r, (m.c[i][1] if i < len(m.c) and r.random() < .93 else r.choice("dis")), small, strs) for i in range(w)]
            if not v: continue
            ops.append(dict(op="addvals", v=v))
            if len(v) <= len(m.c) and all(a["t"] == b[1] for a, b in zip(v, m.c)): m.n += 1
        elif k < .54:
            n = name(m.c); ops.append(dict(op="set", n=n, i=row(), v=value(r, typ(m.c, n), small, strs), how=r.choice(["table", "typed", "row", "iter", "idx"])))
        elif k < .62:
            n = name(m.c); ops.append(dict(op="setstr", n=n, i=row(), x=ch(r.choice(strs) if typ(m.c, n) == "s" else ntext(r)), how=r.choice(["table", "row"])))
        elif k < .67:
            n = name(m.h); ops.append(dict(op="hset", n=n, v=value(r, typ(m.h, n), small, strs), how=r.choice(["table", "typed"])))
        elif k < .70:
            n = name(m.h); ops.append(dict(op="hsetstr", n=n, x=ch(ntext(r) if r.random() < .8 else r.choice(strs))))
        elif k < .82:
            n = name(m.c); i = row(); ops.append(dict(op="get", n=n, i=i, t=r.choice([typ(m.c, n), "x"]), how=r.choice(["table", "row", "crow", "iter", "citer", "idx"] + (["end"] if i <= m.n else []))))
        elif k < .85: n = name(m.h); ops.append(dict(op="hget", n=n, t=r.choice([typ(m.h, n), "x"])))
        elif k < .87: ops.append(dict(op="has", n=name(m.c + m.h, .7), t=r.choice("dis")))
        elif k < .90: ops.append(dict(op="walk", n=name(m.c, 1), how=r.choice(["for", "cfor", "post", "cpost", "back", "cback", "two", "last"])))
        elif k < .92: ops.append(dict(op="iter", a=r.randint(0, m.n), b=r.randint(0, m.n)))
        elif k < .94: ops.append(dict(op="copy", how=r.choice(["ctor", "assign"]))); o = m.copy()
        elif k < .96: ops.append(dict(op="switch")); m, o = o, m
        elif k < .975: ops.append(dict(op="ascii"))
        elif rw: ops.append(dict(op="write", fmt=r.choice(FMT)))
    return ops
FMT = ["std", "file", "hex", "fixed", "sci", "fill", "pos", "twice"]

def aprow(r, th=False):
    ops = []; cs = list(AP); r.shuffle(cs)
    if r.random() < .12: cs.pop()
    if r.random() < .1: cs[0] = (cs[0][0], "i")
    if r.random() < .5: cs.insert(r.randint(0, len(cs)), ("NAME", "s"))
    for n, t in cs: ops.append(dict(op="addcol", n=ch(n), t=t))
    for i in range(r.randint(1, 4)):
        ops.append(dict(op="addrow"))
        for n, t in cs: ops.append(dict(op="set", n=ch(n), i=i, v=value(r, t, True), how=r.choice(["table", "row"])))
    n = i + 1
    if r.random() < .8: ops += [dict(op="copy", how="ctor"), dict(op="switch")]
    else: ops += [dict(op="switch")] + [dict(op="addcol", n=ch(a), t=b) for a, b in AP]
    if r.random() < .2: ops.append(dict(op="addcol", n=ch("L"), t=r.choice("dis")))
    for _ in range(r.randint(1, 5)): ops.append(dict(op="aprow", i=r.randrange(n) if n and r.random() < .9 else n))
    return ops

def tables(r, th=False):
    """any table a file can hold, written and read back"""
    strs = [s for s in STRS if "\"" not in s]; ops = []; cs = []
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        n, t = r.choice(FNAMES), r.choice("dis")
        ops += [dict(op="hadd", n=ch(n), t=t), dict(op="hset", n=ch(n), v=value(r, t, False, strs), how="table")]
    for n in r.sample(FNAMES, r.choice([1, 1, 2, 3, 4, 7])):
        t = r.choice("dis"); cs.append((n, t)); ops.append(dict(op="addcol", n=ch(n), t=t))
    if len(set(tuple(ch(n)) for n, _ in cs)) < len(cs): return tables(r, th)
    for i in range(r.choice([0, 1, 2, 3, 6, 12 if th else 4])):
        ops.append(dict(op="addrow"))
        for n, t in cs:
            if r.random() < .85: ops.append(dict(op="set", n=ch(n), i=i, v=value(r, t, False, strs), how="table"))
    # setting a header twice reports an error and keeps the last value of its type
    ops.append(dict(op="write", fmt=r.choice(FMT)))
    if r.random() < .5: ops += [dict(op="addrow"), dict(op="write", fmt=r.choice(FMT))]
    return ops

def layout(r, ws, quoteall=False):
    """a line of these words with any spacing and quoting"""
    def gap(): return "".join(r.choice(" \t") for _ in range(r.choice([1, 1, 1, 2, 5])))
    def qt(w):
        if w == "" or any(c in " \t\r\f" for c in w): return '"%s"' % w
        k = r.random()
        if k < .2: return '"%s"' % w
        if k < .25: i = r.randint(0, len(w)); return w[:i] + '"' + w[i:] + '"'
        return w
    s = gap() if r.random() < .3 else ""
    for i, w in enumerate(ws): s += (gap() if i else "") + qt(w)
    if r.random() < .4: s += r.choice([" ", "\t", "\r", "   "])
    return s

def files(r, th=False):
    """texts: well formed with any layout, or damaged in one place"""
    ls = []; names = [n for n in FNAMES if n.isascii()]
    for n in r.sample(names, r.choice([0, 1, 2, 4])):
        t = r.choice("dis"); ls.append(["@", n, {"d": r.choice(["%le", "%e"]), "i": "%d", "s": r.choice(["%s", "%05s", "%3s", "%0s"])}[t], cell(r, t)])
    cs = r.sample(names, r.choice([1, 1, 2, 3, 5])); ts = [r.choice("dis") for _ in cs]
    ls.append(["*"] + cs); ls.append(["$"] + [{"d": r.choice(["%le", "%e"]), "i": "%d", "s": r.choice(["%s", "%07s"])}[t] for t in ts])
    star = len(ls) - 2
    for _ in range(r.choice([0, 1, 2, 5])): ls.append([cell(r, t) for t in ts])
    if r.random() < .45: # damage
        k = r.random(); i = r.randrange(len(ls))
        if k < .2: ls.pop(i)
        elif k < .35: ls.insert(r.randint(0, len(ls)), list(ls[i]))
        elif k < .55:
            if len(ls[i]) > 1: ls[i].pop(r.randrange(len(ls[i])))
        elif k < .7: ls[i].insert(r.randint(0, len(ls[i])), r.choice(["1", "x", "%d", "%le", ""]))
        elif k < .85: ls[i][r.randrange(len(ls[i]))] = r.choice(["x1", "%f", "%i", "%hd", "*", "@", "$", "", "1.5", "7", "1e5x", "%s", "%", "s"])
        elif k < .92: del ls[r.randint(0, len(ls) - 1):]
        else: ls[i], ls[i - 1] = ls[i - 1], ls[i]
    out = []
    for i, ws in enumerate(ls):
        if r.random() < .12 and i != star + 1: out.append(r.choice(["", " ", "\t", "\r"]))
        out.append(layout(r, ws))
    if r.random() < .02: out.insert(star + 1, "")
    if out and r.random() < .2: out.append("")
    nl = r.random() < .7 or not out or out[-1] == ""
    ops = [dict(op="read", lines=[list(s) for s in out], nl=nl, how=r.choice(["stream", "stream", "file"]))]
    if r.random() < .4: ops += [dict(op="read", lines=[list(s) for s in out], nl=nl, how="stream")]
    return ops

def cell(r, t):
    if t == "s": return r.choice([s for s in STRS if s.isascii()])
    while True:
        s = ntext(r).strip()
        if r.random() < .03: return s
        try:
            if t == "i": int(s); s2 = s.replace("+", "")
            else: float(s)
            return s
        except ValueError: pass
