----------------------------- MODULE TraceShapes -----------------------------
EXTENDS Shapes, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st       \* the shapes, in the order of their creation
Ev(t, i) == Traces[t].ev[i]

Rectangle(w, h) == <<<<w, h>>, <<w, -h>>, <<-w, -h>>, <<-w, h>>>>         \* in quarters
Quarter(n) == <<<<0, 1>>, <<1, 0>>, <<0, -1>>, <<-1, 0>>>>[(n % 4) + 1]
Made(s, e) ==
  CASE e.op = "polygon" -> [kind |-> "polygon", vertices |-> e.vertices]
    [] e.op = "rectangle" -> [kind |-> "polygon", vertices |-> LET h == IF Len(e.sides) = 1 THEN e.sides[1] ELSE e.sides[2] IN
                              [i \in 1..4 |-> LET q == Rectangle(e.sides[1], h)[i] IN <<q[1] \div 2, q[2] \div 2>>]]
    [] e.op = "regular" -> [kind |-> "polygon", vertices |-> [i \in 1..4 |-> <<e.radius * Quarter(i - 1 + e.quarters)[1], e.radius * Quarter(i - 1 + e.quarters)[2]>>]]
    [] e.op = "circle" -> [kind |-> "disc", center |-> e.center, radius |-> e.radius]
    [] e.op = "box" -> [kind |-> "box", ranges |-> e.box, flat |-> Len(e.width) < 3 /\ Pad3(e.center)[3] = 0]
    [] e.op = "compose" -> [kind |-> "compose", how |-> e.how, a |-> s[e.a + 1], b |-> s[e.b + 1]]
    [] e.op = "offset" -> [kind |-> "shift", of |-> s[e.of + 1], by |-> Pad3(e.by)]
Makes == {"polygon", "rectangle", "regular", "circle", "box", "compose", "offset"}

FirstTwo(v) == <<v[1], v[2]>>
LookMismatch(s, e) ==
  LET o == e.obs
      at(i) == Pad3(e.points[i])
      inside == [i \in DOMAIN e.points |-> Covers(s, at(i))]
  IN CASE \E i \in DOMAIN e.points : o.in[i] # inside[i] /\ ~OnEdge(s, at(i)) -> "points of the shape"
       [] \E i \in DOMAIN e.points : o.in[i] /\ inside[i] /\ ~OnEdge(s, at(i)) /\ InPlane(s, at(i)) /\ ~Enclosed(o.vertices, at(i)) -> "points outside of the vertices"
       [] s.kind = "polygon" /\ o.vertices # [i \in DOMAIN s.vertices |-> Pad3(s.vertices[i])] -> "vertices"
       [] OTHER -> ""
\* shapes which are drawn by their outline: polygons, also when they are moved
RECURSIVE IsFlatShape(_)
IsFlatShape(s) == CASE s.kind \in {"polygon", "disc"} -> TRUE
                    [] s.kind = "box" -> s.flat
                    [] s.kind = "compose" -> IsFlatShape(s.a) /\ IsFlatShape(s.b)
                    [] s.kind = "shift" -> s.by[3] = 0 /\ IsFlatShape(s.of)
RECURSIVE IsOutlined(_)
IsOutlined(s) == s.kind = "polygon" \/ (s.kind = "shift" /\ IsOutlined(s.of))
DrawMismatch(s, e) ==
  LET o == e.obs
      vs == o.vertices
      f == Frame(vs)
      k == e.fine
      large == Larger(s, k)
      right(i, j) == LET p == Pad3(PixelAt(f, k, i, j)) IN OnEdge(large, p) \/ o.area[i][j] = Covers(large, p)
  IN CASE IsOutlined(s) -> IF o.outline # [i \in 1..(Len(vs) + 1) |-> FirstTwo(vs[IF i > Len(vs) THEN 1 ELSE i])] THEN "outline" ELSE ""
       [] o.extent # f -> "borders of the drawing"
       [] Len(o.area) # Rows(f, k) \/ Len(o.area[1]) # Columns(f, k) -> "size of the drawing"
       [] \E i \in DOMAIN o.area : \E j \in DOMAIN o.area[i] : ~right(i, j) -> "drawn area"
       [] OTHER -> ""
LineMismatch(e) ==
  LET by == Pad3(e.by)
      end(p) == <<Pad3(p)[1] + by[1], Pad3(p)[2] + by[2]>>
  IN IF e.obs.outline # <<end(e.a), end(e.b)>> THEN "drawn line"
     ELSE IF e.obs.ends # <<end(e.a), end(e.b)>> \/ e.obs.vertices # <<Pad3(end(e.a)), Pad3(end(e.b))>> THEN "ends of the line" ELSE ""
SymmetryMismatch(e) == IF e.obs.lengths # e.expected THEN "lengths of the symmetry" ELSE ""
LatticeMismatch(e) ==
  CASE e.det # Determinant(e.vectors) -> "(driver)"
    [] e.obs.reciprocal # Reciprocal(e.vectors) -> "reciprocal vectors"
    [] Len(e.vectors) < 3 /\ ~IsZone(e.vectors, e.obs.zone, e.reach) -> "Brillouin zone"
    [] OTHER -> ""
Mismatch(s, e) ==
  IF e.op = "polygon" /\ Len(e.vertices) < 3 THEN (IF e.res = "error" THEN "" ELSE "accepted a polygon without area")
  ELSE IF e.op = "draw" THEN
    LET sh == s[e.look + 1]
        flat == IsOutlined(sh) \/ IsFlatShape(sh)
    IN IF e.res # "ok" THEN (IF flat THEN "a flat shape isn't drawn" ELSE "")
       ELSE IF ~IsOutlined(sh) /\ ~IsFlat(e.obs.vertices) THEN "a shape which isn't flat is drawn" ELSE DrawMismatch(sh, e)
  ELSE IF e.res # "ok" THEN "rejected a valid call"
  ELSE IF e.op \in Makes THEN LookMismatch(Made(s, e), e)
  ELSE IF e.op = "look" THEN LookMismatch(s[e.look + 1], e)
  ELSE IF e.op = "line" THEN LineMismatch(e)
  ELSE IF e.op = "symmetry" THEN SymmetryMismatch(e)
  ELSE LatticeMismatch(e)

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == Mismatch(st, e)
     IN IF why = "" THEN
           /\ st' = (IF e.op \in Makes /\ e.res = "ok" THEN Append(st, Made(st, e)) ELSE st) /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
