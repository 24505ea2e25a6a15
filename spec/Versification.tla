----------------------------- MODULE Versification -----------------------------
(***************************************************************************)
(* Books, chapters and verses.                                             *)
(*                                                                         *)
(* A Bible B is a record built by MkBible from the three things a user can *)
(* configure: the book order, the last verse of every chapter, and the     *)
(* chapters that may begin with a verse 0.  A verse is <<book, chapter,    *)
(* verse>>.  Flags are 0..3: bit 1 = multi-book ranges allowed, bit 2 =    *)
(* verse 0 allowed.  z = 1 or 2 selects the numbering without/with verse 0.*)
(*                                                                         *)
(* All arithmetic is explained by Ord, the position (1-based) of a verse   *)
(* in the reading order of the whole Bible.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Multi(f) == f \in {1, 3}
Zero(f)  == f \in {2, 3}
Z(f)     == IF Zero(f) THEN 2 ELSE 1
WithMulti(f) == IF Multi(f) THEN f ELSE f + 1
WithZero(f)  == IF Zero(f) THEN f ELSE f + 2

\* The flags in force for a call: an explicit argument (0..3) wins, -1 (None) means the global setting.
Eff(arg, glob) == IF arg = -1 THEN glob ELSE arg

Cumul(s) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, s)

NB == 66

MkBible(order, mx, v0) ==
  LET n    == Len(order)
      bpos == [b \in 1..NB |-> IF \E i \in 1..n : order[i] = b
                               THEN CHOOSE i \in 1..n : order[i] = b ELSE 0]
      size(b, c, z) == mx[b][c] + (IF z = 2 /\ c \in v0[b] THEN 1 ELSE 0)
      cum  == [z \in {1, 2} |-> [b \in 1..NB |->
                 IF bpos[b] = 0 THEN <<0>>
                 ELSE Cumul([c \in 1..Len(mx[b]) |-> size(b, c, z)])]]
      base == [z \in {1, 2} |->
                 Cumul([i \in 1..n |-> cum[z][order[i]][Len(cum[z][order[i]])]])]
      cbase == Cumul([i \in 1..n |-> Len(mx[order[i]])])
  IN [order |-> order, n |-> n, mx |-> mx, v0 |-> v0, bpos |-> bpos, cum |-> cum, base |-> base,
      cbase |-> cbase]

IsBook(B, b)     == b \in 1..NB /\ B.bpos[b] > 0
NChap(B, b)      == Len(B.mx[b])
IsChap(B, b, c)  == IsBook(B, b) /\ c >= 1 /\ c <= NChap(B, b)
MaxV(B, b, c)    == B.mx[b][c]
MinV(B, b, c, z) == IF z = 2 /\ c \in B.v0[b] THEN 0 ELSE 1

IsVerse(B, z, x) == /\ Len(x) = 3
                    /\ IsChap(B, x[1], x[2])
                    /\ x[3] >= MinV(B, x[1], x[2], z) /\ x[3] <= MaxV(B, x[1], x[2])

Ord(B, z, x) == B.base[z][B.bpos[x[1]]] + B.cum[z][x[1]][x[2]] + x[3] - MinV(B, x[1], x[2], z) + 1

Total(B, z)        == B.base[z][B.n + 1]
BookLo(B, z, b)    == B.base[z][B.bpos[b]] + 1
BookHi(B, z, b)    == B.base[z][B.bpos[b] + 1]
ChapLo(B, z, b, c) == B.base[z][B.bpos[b]] + B.cum[z][b][c] + 1
ChapHi(B, z, b, c) == B.base[z][B.bpos[b]] + B.cum[z][b][c + 1]

\* Position of a chapter among all chapters.
ChapNo(B, b, c)    == B.cbase[B.bpos[b]] + c

FirstOf(B, z, b, c) == <<b, c, MinV(B, b, c, z)>>
LastOf(B, b, c)     == <<b, c, MaxV(B, b, c)>>
BookFirst(B, z, b)  == FirstOf(B, z, b, 1)
BookLast(B, b)      == LastOf(B, b, NChap(B, b))

\* Inverse of Ord.
FromOrd(B, z, k) ==
  LET i == CHOOSE j \in 1..B.n : B.base[z][j] < k /\ k <= B.base[z][j + 1]
      b == B.order[i]
      m == k - B.base[z][i]
      c == CHOOSE d \in 1..NChap(B, b) : B.cum[z][b][d] < m /\ m <= B.cum[z][b][d + 1]
  IN <<b, c, m - B.cum[z][b][c] - 1 + MinV(B, b, c, z)>>

\* Verse arithmetic.  Result <<>> stands for "no such verse" (None).
AddV(B, f, x, k) ==
  LET z == Z(f)
      t == Ord(B, z, x) + k
  IN IF Multi(f) THEN IF t >= 1 /\ t <= Total(B, z) THEN FromOrd(B, z, t) ELSE <<>>
     ELSE IF t >= BookLo(B, z, x[1]) /\ t <= BookHi(B, z, x[1]) THEN FromOrd(B, z, t) ELSE <<>>

\* The order of verses (valid also for verses that differ in whether verse 0 is allowed).
VerseLT(B, x, y) == \/ B.bpos[x[1]] < B.bpos[y[1]]
                    \/ x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))
VerseLE(B, x, y) == x = y \/ VerseLT(B, x, y)
================================================================================
