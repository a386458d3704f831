---------------------------- MODULE TraceModel ----------------------------
EXTENDS Model, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
AsSet(s) == {s[i] : i \in 1..Len(s)}
Query == phase = "built" /\ UNCHANGED mvars
List(e, exp) == Chk("list", exp, e.list) /\ Chk("count", Len(exp), e.n)
BagOf(e, names) == Chk("elements", Bag(names), AsSet(e.list)) /\ Chk("count", Len(names), e.n)
Step(e) ==
  CASE e.op = "reset" -> phase' = "open" /\ lat' = <<>> /\ frs' = <<>> /\ stack' = <<>>
    [] e.op = "newmodel" -> phase' = "open" /\ lat' = <<>> /\ frs' = <<>> /\ stack' = <<>>
    [] e.op = "comp" -> AppendComp(e.type, e.name, e.len, e.gap)
    [] e.op = "drift" -> AppendDrift(e.len)
    [] e.op = "newframe" -> NewFrame(e.name)
    [] e.op = "endframe" -> EndFrame /\ Chk("depth", Len(stack'), e.depth)
    [] e.op = "appendframe" -> AppendTree(e.tree)
    [] e.op = "build" -> /\ Build
         /\ Chk("lattice", LatView(lat), e.lat)
         /\ Chk("frames", [k \in 1..Len(frs) |-> FrameView(k)], e.frames)
         /\ Chk("total", Total(lat), e.total)
         /\ Chk("global", [i \in 1..Len(lat) |-> i - 1], e.gidx)
         /\ Chk("counts", <<Len(lat), Len(lat) + Len(Comps(lat)) + Len(frs)>>, <<e.nc, e.ne>>)
    [] e.op = "beamline" -> Query /\ Chk("beamline", BeamView(0, Len(lat) - 1), e.res)
    [] e.op = "reversed" -> Query /\ Chk("reversed", <<Len(lat) - 1, 0, Len(lat) - 1, 0, Len(lat) > 1>>,
                                 <<e.res.fi, e.res.li, e.res.first, e.res.last, e.res.rev>>)
    [] e.op = "range" -> Query /\ Chk("range", RangeView(e.a, e.b), e.res)
    [] e.op = "rangepat" -> Query /\ Chk("rangepat", PatView(e.p1, e.p2, e.n1, e.n2), e.res)
    [] e.op = "ring" -> Query /\ Chk("ring", RingFwd(e.n, e.k), e.fwd) /\ Chk("ring back", RingBack(e.n, e.k), e.back)
                              /\ Chk("ring home", RingHome(e.n, e.k), e.home)
    [] e.op = "ext" -> Query /\ List(e, Sel(LAMBDA c : Match(e.pat, QName(c))))
    [] e.op = "idx" -> Query /\ List(e, Sel(LAMBDA c : ~IsPatch(c) /\ Match(e.pat, QName(c)))) /\ Chk("list2", e.list, e.list2)
    [] e.op = "idxsub" -> Query /\ List(e, SelectSeq(Sel(LAMBDA c : ~IsPatch(c) /\ Match(e.pat, QName(c))), LAMBDA i : e.a <= i /\ i <= e.b))
    [] e.op = "elems" -> Query /\ BagOf(e, SelectSeq(AllElements, LAMBDA n : Match(e.pat, n)))
    [] e.op = "exttyped" -> Query /\ List(e, Sel(LAMBDA c : c.type = e.type /\ Match(e.pat, QName(c))))
    [] e.op = "eltyped" -> Query /\ BagOf(e, LET s == SelectSeq(lat, LAMBDA c : IsA(c, e.type) /\ Match(e.pat, c.name))
                                              IN [i \in 1..Len(s) |-> QName(s[i])])
    [] e.op = "install" ->
         /\ CanInstall(e.at)
         /\ LET h == Host(e.at) IN
            /\ Chk("size", Len(lat) + 2, Len(e.lat))
            /\ Install(e.type, e.name, e.at, e.lat[h].name, e.lat[h + 2].name)
            /\ Chk("lattice", LatView(lat'), e.lat)
            /\ Chk("design positions", <<StartOf(lat, h), e.at, e.at>>, e.lpos)
    [] e.op = "match" -> UNCHANGED mvars
         /\ Chk("match", [i \in 1..Len(e.strs) |-> Match(e.pat, e.strs[i])], e.res)
         /\ Chk("match copy", e.res, e.res2) /\ Chk("pattern text", e.pat, e.back)
    [] OTHER -> FALSE
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
