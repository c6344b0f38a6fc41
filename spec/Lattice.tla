------------------------------ MODULE Lattice ------------------------------
(* The crystal lattice definition: sublattices (and aliases), hopping        *)
(* families and their terms.  The state of a lattice is a record; every      *)
(* public mutation is an operator  Do<Op>(lat, e)  from the state and the    *)
(* arguments `e` to  [ok, lat] : the new state and whether it was accepted.  *)
(* A rejected call never changes the state.                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

\* ---------------------------------------------------------------- vectors
Zero3 == <<0, 0, 0>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VNeg(a) == <<0 - a[1], 0 - a[2], 0 - a[3]>>
VMul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
VDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]

\* ---------------------------------------- complex numbers are <<re, im>>
CZero == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], 0 - a[2]>>
IPow(n) == LET r == n % 4 IN
           IF r = 0 THEN <<1, 0>> ELSE IF r = 1 THEN <<0, 1>>
           ELSE IF r = 2 THEN <<-1, 0>> ELSE <<0, -1>>

\* ------------------------------------------- matrices are sequences of rows
Rows(m) == Len(m)
Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
MAt(m, r, c) == m[r][c]
Adjoint(m) == [c \in 1..Cols(m) |-> [r \in 1..Rows(m) |-> CConj(m[r][c])]]
IsUpper(m) == \A r \in 1..Rows(m), c \in 1..Cols(m) : c < r => m[r][c] = CZero
IsHermitian(m) == Rows(m) = Cols(m) /\ \A r \in 1..Rows(m), c \in 1..Cols(m) : m[r][c] = CConj(m[c][r])
\* the Hermitian matrix of which only the upper triangle is given
HermitianCompletion(m) == [r \in 1..Rows(m) |-> [c \in 1..Cols(m) |->
                              IF c >= r THEN m[r][c] ELSE CConj(m[c][r])]]
IsZeroM(m) == \A r \in 1..Rows(m), c \in 1..Cols(m) : m[r][c] = CZero
IsRealM(m) == \A r \in 1..Rows(m), c \in 1..Cols(m) : m[r][c][2] = 0

\* ------------------------------------------------------------------ state
EmptyLattice(vecs) == [vecs |-> vecs, subs |-> <<>>, hops |-> <<>>,
                       offset |-> Zero3, minnb |-> 1]
Ndim(lat) == Len(lat.vecs)

SubIdx(lat, name) == CHOOSE i \in 1..Len(lat.subs) : lat.subs[i].name = name
HasSub(lat, name) == \E i \in 1..Len(lat.subs) : lat.subs[i].name = name
FamIdx(lat, name) == CHOOSE i \in 1..Len(lat.hops) : lat.hops[i].name = name
HasFam(lat, name) == \E i \in 1..Len(lat.hops) : lat.hops[i].name = name
Sub(lat, name) == lat.subs[SubIdx(lat, name)]
NOrb(lat, i) == Rows(lat.subs[i].e)
\* the name under which the sites of sublattice i appear in a system
PublicName(lat, i) == lat.subs[i].orig

Accept(lat) == [ok |-> TRUE, lat |-> lat]
Reject(lat) == [ok |-> FALSE, lat |-> lat]

ValidOnsite(e) == /\ Rows(e) > 0
                  /\ Rows(e) = Cols(e)
                  /\ \A i \in 1..Rows(e) : e[i][i][2] = 0
                  /\ IsUpper(e) \/ IsHermitian(e)

DoAddSub(lat, e) ==
  IF e.name = "" \/ HasSub(lat, e.name) \/ ~ValidOnsite(e.e) THEN Reject(lat)
  ELSE Accept([lat EXCEPT !.subs = Append(@, [name |-> e.name, pos |-> e.pos,
                 e |-> HermitianCompletion(e.e), orig |-> e.name])])

\* An alias shares the energy and the public name of the original (also of an alias)
DoAddAlias(lat, e) ==
  IF e.name = "" \/ HasSub(lat, e.name) \/ ~HasSub(lat, e.orig) THEN Reject(lat)
  ELSE LET o == Sub(lat, e.orig) IN
       Accept([lat EXCEPT !.subs = Append(@, [name |-> e.name, pos |-> e.pos,
                 e |-> o.e, orig |-> o.orig])])

DoRegisterHop(lat, e) ==
  IF e.name = "" \/ HasFam(lat, e.name) \/ Rows(e.e) = 0 \/ Cols(e.e) = 0 THEN Reject(lat)
  ELSE Accept([lat EXCEPT !.hops = Append(@, [name |-> e.name, e |-> e.e, terms |-> <<>>])])

SameTerm(a, b) == \/ a = b
                  \/ a = [rel |-> VNeg(b.rel), from |-> b.to, to |-> b.from]

DoAddTerm(lat, fam, rel, from, to) ==
  LET t == [rel |-> rel, from |-> from, to |-> to] IN
  IF \/ from = to /\ rel = Zero3
     \/ ~HasSub(lat, from) \/ ~HasSub(lat, to) \/ ~HasFam(lat, fam) THEN Reject(lat)
  ELSE LET f == lat.hops[FamIdx(lat, fam)] IN
       IF \/ Rows(f.e) # Rows(Sub(lat, from).e)
          \/ Cols(f.e) # Cols(Sub(lat, to).e)
          \/ \E i \in 1..Len(lat.hops) : \E k \in 1..Len(lat.hops[i].terms) :
                SameTerm(t, lat.hops[i].terms[k])
       THEN Reject(lat)
       ELSE Accept([lat EXCEPT !.hops[FamIdx(lat, fam)].terms = Append(@, t)])

DoAddHop(lat, e) == DoAddTerm(lat, e.hop, e.rel, e.from, e.to)

\* A hopping given by its energy goes to a family of exactly that energy, a new one if
\* there is none.  A rejected call does not leave a new family behind.
SameEnergyFams(lat, en) == {i \in 1..Len(lat.hops) : lat.hops[i].e = en}
AnonName(lat) == "__anonymous__" \o ToString(Len(lat.hops))
DoAddHopE(lat, e, fam) ==       \* `fam`: the family which is used when several match
  IF SameEnergyFams(lat, e.e) # {} THEN DoAddTerm(lat, fam, e.rel, e.from, e.to)
  ELSE LET r == DoRegisterHop(lat, [name |-> AnonName(lat), e |-> e.e])
           t == DoAddTerm(r.lat, AnonName(lat), e.rel, e.from, e.to)
       IN IF r.ok /\ t.ok THEN t ELSE Reject(lat)

\* |lattice coordinate| <= 0.55 in every direction, by Cramer's rule on integers
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1])
                 + a[3] * (b[1] * c[2] - b[2] * c[1])
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* numerators and denominator of the lattice coordinates of p
LatticeCoord(vecs, p) ==
  IF Len(vecs) = 1 THEN [num |-> <<p[1]>>, den |-> vecs[1][1]]
  ELSE IF Len(vecs) = 2 THEN [num |-> <<Det2(p, vecs[2]), Det2(vecs[1], p)>>, den |-> Det2(vecs[1], vecs[2])]
  ELSE [num |-> <<Det3(p, vecs[2], vecs[3]), Det3(vecs[1], p, vecs[3]), Det3(vecs[1], vecs[2], p)>>,
        den |-> Det3(vecs[1], vecs[2], vecs[3])]
OffsetAllowed(lat, p) ==
  LET c == LatticeCoord(lat.vecs, p) IN
  \A i \in 1..Len(c.num) : 100 * Abs(c.num[i]) <= 55 * Abs(c.den)

DoSetOffset(lat, e) == IF OffsetAllowed(lat, e.pos) THEN Accept([lat EXCEPT !.offset = e.pos]) ELSE Reject(lat)
DoMinNb(lat, e) == Accept([lat EXCEPT !.minnb = e.n])

\* ------------------------------------------------------------- derived views
CellPos(lat, c) ==
  LET p1 == VMul(c[1], lat.vecs[1])
      p2 == IF Ndim(lat) > 1 THEN VAdd(p1, VMul(c[2], lat.vecs[2])) ELSE p1
  IN IF Ndim(lat) > 2 THEN VAdd(p2, VMul(c[3], lat.vecs[3])) ELSE p2
CalcPosition(lat, c, name) ==
  LET b == VAdd(lat.offset, CellPos(lat, c)) IN
  IF name = "" THEN b ELSE VAdd(b, Sub(lat, name).pos)

\* all terms of the lattice, in both directions, as seen from sublattice `name`
Neighbors(lat, name) ==
  UNION {UNION {LET t == lat.hops[f].terms[k] IN
           (IF t.from = name THEN {[rel |-> t.rel, to |-> t.to, fam |-> f, conj |-> FALSE]} ELSE {})
           \cup (IF t.to = name THEN {[rel |-> VNeg(t.rel), to |-> t.from, fam |-> f, conj |-> TRUE]} ELSE {})
         : k \in 1..Len(lat.hops[f].terms)} : f \in 1..Len(lat.hops)}

Max0(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
\* number of off-diagonal matrix elements in a row of a site of the sublattice
RowHoppings(lat, i) ==
  Rows(lat.subs[i].e) - 1
  + MapThenSumSet(LAMBDA n : IF n.conj THEN Rows(lat.hops[n.fam].e) ELSE Cols(lat.hops[n.fam].e),
                  Neighbors(lat, lat.subs[i].name))
MaxHoppings(lat) == Max0({RowHoppings(lat, i) : i \in 1..Len(lat.subs)})
HasDiagonal(lat) == \E i \in 1..Len(lat.subs) : \E k \in 1..NOrb(lat, i) : lat.subs[i].e[k][k] # CZero
HasOnsite(lat) == \E i \in 1..Len(lat.subs) : ~IsZeroM(lat.subs[i].e)

\* ---------------------------------------------------- properties of a definition
NoDuplicateNames(lat) ==
  /\ \A i, j \in 1..Len(lat.subs) : lat.subs[i].name = lat.subs[j].name => i = j
  /\ \A i, j \in 1..Len(lat.hops) : lat.hops[i].name = lat.hops[j].name => i = j
  /\ \A i \in 1..Len(lat.subs) : lat.subs[i].name # ""
AliasesResolve(lat) ==
  \A i \in 1..Len(lat.subs) : LET o == lat.subs[i].orig IN
     HasSub(lat, o) /\ Sub(lat, o).orig = o /\ Sub(lat, o).e = lat.subs[i].e
EnergiesHermitian(lat) == \A i \in 1..Len(lat.subs) : IsHermitian(lat.subs[i].e)
TermsWellFormed(lat) ==
  \A f \in 1..Len(lat.hops) : \A k \in 1..Len(lat.hops[f].terms) :
    LET t == lat.hops[f].terms[k] IN
    /\ HasSub(lat, t.from) /\ HasSub(lat, t.to)
    /\ ~(t.from = t.to /\ t.rel = Zero3)
    /\ Rows(lat.hops[f].e) = Rows(Sub(lat, t.from).e)
    /\ Cols(lat.hops[f].e) = Cols(Sub(lat, t.to).e)
NoDuplicateTerms(lat) ==
  \A f, g \in 1..Len(lat.hops) : \A k \in 1..Len(lat.hops[f].terms), l \in 1..Len(lat.hops[g].terms) :
    SameTerm(lat.hops[f].terms[k], lat.hops[g].terms[l]) => f = g /\ k = l
\* each term is seen from both of its ends
NeighborsSymmetric(lat) ==
  \A i \in 1..Len(lat.subs) : \A n \in Neighbors(lat, lat.subs[i].name) :
    [rel |-> VNeg(n.rel), to |-> lat.subs[i].name, fam |-> n.fam, conj |-> ~n.conj] \in Neighbors(lat, n.to)
=============================================================================
