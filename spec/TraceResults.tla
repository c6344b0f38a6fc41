---------------------------- MODULE TraceResults ----------------------------
(* Recorded histories of the real result objects.  Objects are numbered; an operation makes a new object out
   of an older one (which must not change: all of them are looked at again later). *)
EXTENDS Results, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Ev(t, i) == Traces[t].ev[i]

FromJson(e) == [sites |-> [i \in DOMAIN e.sites |-> LET s == e.sites[i] IN [x |-> s[1], y |-> s[2], z |-> s[3], sub |-> s[4], data |-> s[5]]],
                hops |-> ToSet(e.hops), bounds |-> [b \in DOMAIN e.bounds |-> [shift |-> e.bounds[b][1], hops |-> ToSet(e.bounds[b][2])]],
                kind |-> e.kind]

\* st: sequence of [type, v, names, hopnames]
Obj(t, v, of) == [type |-> t, v |-> v, names |-> of.names, hopnames |-> of.hopnames]
Src(s, e) == s[e.of + 1]
NewObject(s, e) ==
  CASE e.op = "map" -> <<[type |-> "map", v |-> FromJson(e), names |-> e.names, hopnames |-> e.hopnames]>>
    [] e.op = "select" -> <<Obj("map", Select(Src(s, e).v, IndexOf(Len(Src(s, e).v.sites), e.idx)), Src(s, e))>>
    [] e.op = "named" -> LET o == Src(s, e)
                             ids == IdsOf(o.names, e.name)
                         IN <<Obj("map", Select(o.v, Where(Len(o.v.sites), LAMBDA i : (o.v.sites[i + 1].sub \in ids) = e.equal)), o)>>
    [] e.op = "crop" -> <<Obj("map", Select(Src(s, e).v, Within(Src(s, e).v, e.limits)), Src(s, e))>>
    [] e.op = "data" -> <<Obj("map", [WithData(Src(s, e).v, e.data) EXCEPT !.kind = IF @ = "structure" THEN "structuremap" ELSE @], Src(s, e))>>
    [] e.op = "clip" -> <<Obj("map", Clipped(Src(s, e).v, e.lo, e.hi), Src(s, e))>>
    [] e.op = "spatial" -> <<Obj("map", SpatialOnly(Src(s, e).v), Src(s, e))>>
    [] e.op = "copy" -> <<Src(s, e)>>
    [] e.op = "sweep" -> <<[type |-> "sweep", v |-> [x |-> e.x, y |-> e.y, data |-> e.data], names |-> <<>>, hopnames |-> <<>>]>>
    [] e.op = "get" -> LET v == Src(s, e).v
                       IN <<Obj("sweep", TakeSweep(v, IndexOf(Len(v.x), e.ix), IF e.both THEN IndexOf(Len(v.y), e.iy) ELSE Where(Len(v.y), LAMBDA i : TRUE)), Src(s, e))>>
    [] e.op = "limits" -> LET v == Src(s, e).v IN <<Obj("sweep", TakeSweep(v, InLimits(v.x, e.x), InLimits(v.y, e.y)), Src(s, e))>>
    [] e.op = "mirror" /\ e.axis = "x" -> <<Obj("sweep", MirroredX(Src(s, e).v), Src(s, e))>>
    [] e.op = "mirror" /\ e.axis = "y" -> <<Obj("sweep", MirroredY(Src(s, e).v), Src(s, e))>>
    [] OTHER -> <<>>
After(s, e) == IF e.op = "reset" THEN <<>> ELSE s \o NewObject(s, e)
Refused(s, e) == (e.op = "mirror" /\ e.axis \notin {"x", "y"}) \/ (e.op = "path" /\ \E k \in DOMAIN e.points : Len(e.points[k]) # Len(e.points[1]))
   \/ (e.op = "map" /\ e.missing)

SitesSeen(m, o) == [i \in DOMAIN m.sites |-> LET s == m.sites[i] IN <<s.x, s.y, s.z, s.sub, IF m.kind = "structure" THEN 0 ELSE s.data>>]
Same(bag, set) == ToSet(bag) = set /\ Len(bag) = Cardinality(set)
MapMismatch(ob, o) ==
  LET m == ob.v IN
  CASE o.kind # m.kind -> "kind of the result"
    [] o.n # Len(m.sites) -> "number of sites"
    [] o.sites # SitesSeen(m, o) -> "sites and their data"
    [] o.xyz # [i \in DOMAIN m.sites |-> <<m.sites[i].x, m.sites[i].y, m.sites[i].z>>] -> "positions"
    [] m.kind # "spatial" /\ ~Same(o.hops, m.hops) -> "hoppings"
    [] m.kind # "spatial" /\ o.nnz # Cardinality(m.hops) -> "number of hoppings"
    [] m.kind # "spatial" /\ (Len(o.bounds) # Len(m.bounds) \/ \E b \in DOMAIN m.bounds : o.bounds[b][1] # m.bounds[b].shift \/ ~Same(o.bounds[b][2], m.bounds[b].hops)) -> "boundaries"
    [] \E k \in DOMAIN o.subnames : o.subnames[k][2] # [i \in DOMAIN m.sites |-> m.sites[i].sub \in IdsOf(ob.names, o.subnames[k][1])]
                                    \/ o.subnames[k][3] # [i \in DOMAIN m.sites |-> m.sites[i].sub \notin IdsOf(ob.names, o.subnames[k][1])] -> "names of sublattices"
    [] m.kind # "spatial" /\ \E k \in DOMAIN o.hopnames : ~Same(o.hopnames[k][2], {h \in m.hops : h[3] \in IdsOf(ob.hopnames, o.hopnames[k][1])}) -> "names of hoppings"
    [] OTHER -> ""
SweepMismatch(w, o) ==
  CASE o.x # w.x -> "first axis"
    [] o.y # w.y -> "second axis"
    [] o.data # w.data -> "data of the sweep"
    [] ~o.kept -> "labels and tags"
    [] o.text # FlattenSeq([i \in DOMAIN w.x |-> [j \in DOMAIN w.y |-> <<w.x[i], w.y[j], w.data[i][j]>>]]) -> "saved text"
    [] OTHER -> ""

NearestMismatch(m, e) ==
  LET fam == {i \in 0..(Len(m.sites) - 1) : e.sub < 0 \/ m.sites[i + 1].sub = e.sub}
      d(i) == Distance2(m.sites[i + 1], e.at)
      o == e.obs
      first == SubSeq(o.sorted, 1, Cardinality(fam))
  IN CASE fam = {} -> ""
       [] o.nearest \notin fam \/ (\E i \in fam : d(i) < d(o.nearest)) -> "nearest site"
       [] o.distances # [i \in DOMAIN m.sites |-> d(i - 1)] -> "distances"
       [] ToSet(first) # fam \/ ToSet(o.sorted) # 0..(Len(m.sites) - 1) \/ Len(o.sorted) # Len(m.sites) -> "sites sorted by distance"
       [] \E k \in 1..(Len(first) - 1) : d(first[k]) > d(first[k + 1]) -> "order of distances"
       [] OTHER -> ""
PathMismatch(e) ==
  LET o == e.obs
      path == PathOf(e.points, e.step)
      axis == LET a == e.points[1]  b == e.points[2] IN SetMin({k \in DOMAIN a : a[k] # b[k]})
  IN CASE o.path # path -> "points of the path"
       [] o.indices # PointIndices(e.points, e.step) -> "indices of the given points"
       [] o.points # [k \in DOMAIN e.points |-> [c \in DOMAIN e.points[k] |-> 60 * e.points[k][c]]] -> "given points"
       [] o.simple # (Len(e.points) = 2) -> "simple path"
       [] Len(e.points) = 2 /\ o.flat # [k \in DOMAIN path |-> path[k][axis]] -> "path in one dimension"
       [] Len(e.points) > 2 /\ o.flat # [k \in DOMAIN path |-> 60 * (k - 1)] -> "path in one dimension"
       [] ~o.same -> "path which was saved or used for bands"
       [] OTHER -> ""
\* (scaled by the number of steps)
Resampled(d, n) == IF n = Len(d) THEN d ELSE [i \in 1..n |->
  LET t == (Len(d) - 1) * (i - 1)
      k == IF t \div (n - 1) > Len(d) - 2 THEN Len(d) - 2 ELSE t \div (n - 1)
  IN d[k + 1] * (n - 1) + (d[k + 2] - d[k + 1]) * (t - k * (n - 1))]
StepsOf(d, n) == IF n = Len(d) THEN 1 ELSE n - 1
RefineMismatch(w, e) ==
  LET columns == TLCEval([j \in DOMAIN w.y |-> Resampled([i \in DOMAIN w.x |-> w.data[i][j]], e.nx)])
      a == [i \in 1..e.nx |-> Resampled([j \in DOMAIN w.y |-> columns[j][i]], e.ny)]
      sx == StepsOf(w.x, e.nx)  sy == StepsOf(w.y, e.ny)
      x == Resampled(w.x, e.nx)  y == Resampled(w.y, e.ny)
      o == e.obs
  IN IF o.x # [i \in DOMAIN x |-> sy * x[i]] \/ o.y # [j \in DOMAIN y |-> sx * y[j]] \/ o.data # a THEN "interpolated sweep" ELSE ""
NearSliceMismatch(w, e) ==
  LET o == e.obs IN
  IF \/ ~\E i \in NearestOf(w.x, e.x) : o.x = w.x[i] /\ o.row = w.data[i]
     \/ ~\E j \in NearestOf(w.y, e.y) : o.y = w.y[j] /\ o.col = [i \in DOMAIN w.x |-> w.data[i][j]]
  THEN "slice nearest to a value" ELSE ""

Mismatch(s, t, e) ==
  IF Refused(s, e) /\ e.res # "error" THEN "accepted an invalid call"
  ELSE IF ~Refused(s, e) /\ e.res # "ok" THEN "rejected a valid call"
  ELSE IF e.res = "error" THEN ""
  ELSE IF e.op = "look" THEN (IF Src(s, e).type = "map" THEN MapMismatch(Src(s, e), e.obs) ELSE SweepMismatch(Src(s, e).v, e.obs))
  ELSE IF e.op = "nearest" THEN NearestMismatch(Src(s, e).v, e)
  ELSE IF e.op = "path" THEN PathMismatch(e)
  ELSE IF e.op = "refine" THEN RefineMismatch(Src(s, e).v, e)
  ELSE IF e.op = "txt" THEN (IF e.obs # [i \in DOMAIN Src(s, e).v.sites |-> LET q == Src(s, e).v.sites[i] IN <<q.x, q.y, q.data>>] THEN "saved text" ELSE "")
  ELSE IF e.op = "slices" THEN NearSliceMismatch(Src(s, e).v, e)
  ELSE IF e.op = "nd" THEN (IF e.obs # Nest(e.flat, e.lens) THEN "data of the sweep" ELSE "")
  ELSE IF e.op = "series" THEN (IF e.obs.reduced # [r \in DOMAIN e.data |-> SumSeq(e.data[r])] \/ e.obs.data # e.data \/ e.obs.variable # e.variable THEN "reduced series" ELSE "")
  ELSE ""

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         s == IF Refused(st, e) THEN st ELSE After(st, e)
         why == Mismatch(st, s, e)
     IN IF why = "" THEN
           /\ st' = s /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
