----------------------------- MODULE Containers -----------------------------
(* The containers in which a finished system is held:
     hopping blocks          [n |-> sites, blocks |-> sequence (one per family) of sequences of <<row, col>>]
     compressed sublattices  sequence of [id, num, norb], consecutive groups of sites
     registry                sequence of [name, energy]     (energy: matrix of <<re, im>>)
   and the sparse matrices of their Hamiltonians: sequence (one per row) of sequences of <<col, value>>.
   Site indices start at 0. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Idx(s) == [i \in 1..Len(s) |-> i]
SumOver(s, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, s)
Ran(s) == {s[i] : i \in DOMAIN s}
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in Ran(a) : Count(a, LAMBDA y : y = x) = Count(b, LAMBDA y : y = x)

(* ---- hopping blocks ---- *)
NewBlocks(n, k) == [n |-> n, blocks |-> [f \in 1..k |-> <<>>]]
AddHop(hb, f, r, c) == [hb EXCEPT !.blocks[f] = Append(@, <<r, c>>)]
\* (the order within a block has no meaning)
Unique(s) == SetToSeq(Ran(s))
Oriented(r, c, hermitian) == IF hermitian /\ r > c THEN <<c, r>> ELSE <<r, c>>
AppendHops(hb, f, rows, cols, hermitian) ==
  [hb EXCEPT !.blocks[f] = Unique(@ \o [i \in 1..Len(rows) |-> Oriented(rows[i], cols[i], hermitian)])]
\* the new index of a site: the number of kept ones before it
NewIndex(keep, i) == Cardinality({k \in 1..i : keep[k]})
FilterHops(hb, keep) ==
  [n |-> Cardinality({k \in 1..Len(keep) : keep[k]}),
   blocks |-> [f \in DOMAIN hb.blocks |->
       LET kept == SelectSeq(hb.blocks[f], LAMBDA h : keep[h[1] + 1] /\ keep[h[2] + 1])
       IN [i \in 1..Len(kept) |-> <<NewIndex(keep, kept[i][1]), NewIndex(keep, kept[i][2])>>]]]
AddSites(hb, k) == [hb EXCEPT !.n = @ + k]
Nnz(hb) == SumOver(hb.blocks, Len)
Neighbors(hb, site) == SumOver(hb.blocks, LAMBDA b : SumOver(b, LAMBDA h : (IF h[1] = site THEN 1 ELSE 0) + (IF h[2] = site THEN 1 ELSE 0)))
AllHops(hb) == FlattenSeq(hb.blocks)
UniqueHops(hb) == Cardinality(Ran(AllHops(hb))) = Len(AllHops(hb))
\* all elements of the matrix of family ids
HopMatrix(hb) == UNION {{<<h[1], h[2], f - 1>> : h \in Ran(hb.blocks[f])} : f \in DOMAIN hb.blocks}

(* ---- compressed sublattices ---- *)
AddGroup(cs, id, norb, k) ==
  IF cs # <<>> /\ cs[Len(cs)].id = id THEN [cs EXCEPT ![Len(cs)].num = @ + k]
  ELSE Append(cs, [id |-> id, num |-> k, norb |-> norb])
SysStart(cs, g) == SumOver(SubSeq(cs, 1, g - 1), LAMBDA x : x.num)
HamStart(cs, g) == SumOver(SubSeq(cs, 1, g - 1), LAMBDA x : x.num * x.norb)
Size(cs) == SysStart(cs, Len(cs) + 1)
HamSize(cs) == HamStart(cs, Len(cs) + 1)
FilterGroups(cs, keep) ==
  [g \in DOMAIN cs |-> [cs[g] EXCEPT !.num = Cardinality({k \in 1..Len(keep) :
      SysStart(cs, g) < k /\ k <= SysStart(cs, g) + cs[g].num /\ keep[k]})]]
Decompressed(cs) == FlattenSeq([g \in DOMAIN cs |-> [k \in 1..cs[g].num |-> cs[g].id]])
\* groups without sites are allowed but mean nothing
Occupied(cs) == SelectSeq(cs, LAMBDA x : x.num > 0)
Verified(cs, n) == /\ Size(cs) = n
                   /\ \A a, b \in DOMAIN cs : a # b => cs[a].id # cs[b].id
                   /\ \A a, b \in DOMAIN cs : a < b => cs[a].norb <= cs[b].norb
FirstWith(cs, norb) == SysStart(cs, CHOOSE g \in DOMAIN cs : cs[g].norb = norb /\ \A f \in DOMAIN cs : cs[f].norb = norb => g <= f)

(* ---- registry ---- *)
Re(z) == z[1]
Im(z) == z[2]
Rows(m) == Len(m)
Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Square(m) == Rows(m) = Cols(m)
Conj(z) == <<z[1], -z[2]>>
Upper(m) == \A r, c \in 1..Rows(m) : r > c => m[r][c] = <<0, 0>>
Hermitian(m) == \A r, c \in 1..Rows(m) : m[r][c] = Conj(m[c][r])
ValidEnergy(kind, m) ==
  /\ Rows(m) > 0 /\ Cols(m) > 0
  /\ kind = "site" => /\ Square(m)
                      /\ \A i \in 1..Rows(m) : Im(m[i][i]) = 0
                      /\ Upper(m) \/ Hermitian(m)
\* an onsite energy may be given as the upper triangle only
Full(kind, m) == IF kind = "site" THEN [r \in 1..Rows(m) |-> [c \in 1..Rows(m) |-> IF r <= c THEN m[r][c] ELSE Conj(m[c][r])]] ELSE m
Names(reg) == {reg[i].name : i \in DOMAIN reg}
CanRegister(kind, reg, name, m) == name # "" /\ name \notin Names(reg) /\ ValidEnergy(kind, m)
Register(kind, reg, name, m) == Append(reg, [name |-> name, energy |-> Full(kind, m)])
Elements(m) == UNION {Ran(m[r]) : r \in 1..Rows(m)}
AnyNonzero(reg) == \E i \in DOMAIN reg : \E z \in Elements(reg[i].energy) : z # <<0, 0>>
AnyComplex(reg) == \E i \in DOMAIN reg : \E z \in Elements(reg[i].energy) : Im(z) # 0
AnyOrbitals(reg) == \E i \in DOMAIN reg : Rows(reg[i].energy) * Cols(reg[i].energy) # 1

(* ---- sparse matrices ---- *)
\* all elements as <<row, col, value>> in the order of storage
Stored(rows) == FlattenSeq([r \in DOMAIN rows |-> [k \in 1..Len(rows[r]) |-> <<r - 1, rows[r][k][1], rows[r][k][2]>>]])
SortedRow(row) == SortSeq(row, LAMBDA a, b : a[1] < b[1])
MaxPerRow(rows) == FoldLeft(LAMBDA acc, r : IF Len(r) > acc THEN Len(r) ELSE acc, 0, rows)
\* elements [first, first + size) of the storage, cut at the end
Part(s, first, size) == SubSeq(s, first, IF first + size - 1 > Len(s) THEN Len(s) ELSE first + size - 1)
\* nonempty pieces of the given size
Pieces(s, size) == [k \in 1..((Len(s) + size - 1) \div size) |-> Part(s, (k - 1) * size + 1, size)]
=============================================================================
