---------------------------------- MODULE Ops ----------------------------------
(***************************************************************************)
(* The contract of every public operation, as a checker of one recorded    *)
(* call: Bad(B, T, f, e) is the set of clauses that the call e breaks in    *)
(* Bible B with names/separators T under effective flags f.  e.o is the    *)
(* operation, e.k/e.v the kind and value of what it returned or raised.    *)
(***************************************************************************)
EXTENDS RangeSets, Render, Parse, Names

Exp(e, k, v)   == IF e.k # k THEN {"kind"} ELSE IF e.v # v THEN {"value"} ELSE {}
ExpBool(e, p)  == Exp(e, "bool", p)
ExpErr(e, S)   == IF e.k = "err" /\ e.v \in S THEN {} ELSE {"error"}
ExpAny(e, x)   == IF x.k = "err" THEN ExpErr(e, x.v) ELSE Exp(e, x.k, x.v)
Clause(name, p) == IF p THEN {} ELSE {name}
ExpVerseOrNone(e, x) == IF x = <<>> THEN (IF e.k = "none" THEN {} ELSE {"none"}) ELSE Exp(e, "verse", x)

\* A list result whose ranges all exist.
IsListResult(B, z, e) == e.k = "list" /\ WellGrouped(e.v) /\ IsRangeSeq(B, z, Flat(e.v))

-----------------------------------------------------------------------------
(* Books and verses *)
BadVersification(B, f, e) ==
  LET z == Z(f) o == e.o b == e.b c == e.c IN
  CASE o = "b.nchap"  -> Exp(e, "int", NChap(B, b))
    [] o = "b.minchap" -> Exp(e, "int", 1)
    [] o = "b.maxchap" -> Exp(e, "int", NChap(B, b))
    [] o = "b.nverse" -> Exp(e, "int", BookHi(B, z, b) - BookLo(B, z, b) + 1)
    [] o = "b.minv"   -> IF IsChap(B, b, c) THEN Exp(e, "int", MinV(B, b, c, z)) ELSE ExpErr(e, {"inv"})
    [] o = "b.maxv"   -> IF IsChap(B, b, c) THEN Exp(e, "int", MaxV(B, b, c)) ELSE ExpErr(e, {"inv"})
    [] o = "b.first"  -> IF c = -1 THEN Exp(e, "verse", BookFirst(B, z, b))
                         ELSE IF IsChap(B, b, c) THEN Exp(e, "verse", FirstOf(B, z, b, c)) ELSE ExpErr(e, {"inv"})
    [] o = "b.last"   -> IF c = -1 THEN Exp(e, "verse", BookLast(B, b))
                         ELSE IF IsChap(B, b, c) THEN Exp(e, "verse", LastOf(B, b, c)) ELSE ExpErr(e, {"inv"})
    [] o = "b.next"   -> IF B.bpos[b] \in {0, B.n} THEN (IF e.k = "none" THEN {} ELSE {"none"})
                         ELSE Exp(e, "book", B.order[B.bpos[b] + 1])
    [] o = "b.prev"   -> IF B.bpos[b] \in {0, 1} THEN (IF e.k = "none" THEN {} ELSE {"none"})
                         ELSE Exp(e, "book", B.order[B.bpos[b] - 1])
    [] o = "b.order"  -> IF B.bpos[b] = 0 THEN (IF e.k = "none" THEN {} ELSE {"none"}) ELSE Exp(e, "int", B.bpos[b] - 1)
    [] o = "v.new"    -> IF IsVerse(B, z, <<b, c, e.n>>) THEN Exp(e, "verse", <<b, c, e.n>>) ELSE ExpErr(e, {"inv"})

\* Methods of an existing verse x about its own (or another) chapter or book.
BadVerseMethods(B, f, e) ==
  LET z == Z(f) o == e.o x == e.x c == IF e.c = -1 THEN x[2] ELSE e.c ok == IsChap(B, x[1], c)
      other == IF e.b = -1 THEN x[1] ELSE e.b IN
  CASE o = "v.copy" -> Exp(e, "verse", x)
    [] o = "v.minchap" -> Exp(e, "int", 1)
    [] o = "v.maxchap" -> Exp(e, "int", NChap(B, x[1]))
    [] o = "v.minv"  -> IF ok THEN Exp(e, "int", MinV(B, x[1], c, z)) ELSE ExpErr(e, {"inv"})
    [] o = "v.maxv"  -> IF ok THEN Exp(e, "int", MaxV(B, x[1], c)) ELSE ExpErr(e, {"inv"})
    [] o = "v.first" -> IF ok THEN Exp(e, "verse", FirstOf(B, z, x[1], c)) ELSE ExpErr(e, {"inv"})
    [] o = "v.last"  -> IF ok THEN Exp(e, "verse", LastOf(B, x[1], c)) ELSE ExpErr(e, {"inv"})
    [] o = "v.isfirstc" -> IF ok THEN ExpBool(e, x = FirstOf(B, z, x[1], c)) ELSE ExpErr(e, {"inv"})
    [] o = "v.islastc"  -> IF ok THEN ExpBool(e, x = LastOf(B, x[1], c)) ELSE ExpErr(e, {"inv"})
    [] o = "v.isfirstb" -> ExpBool(e, x = BookFirst(B, z, other))
    [] o = "v.islastb"  -> ExpBool(e, x = BookLast(B, other))

-----------------------------------------------------------------------------
(* Verse arithmetic *)
BadArith(B, f0, e) ==
  LET o == e.o x == e.x f == IF x[3] = 0 THEN WithZero(f0) ELSE f0 IN
  CASE o = "v.add" -> ExpVerseOrNone(e, AddV(B, f, x, e.n))
    [] o = "v.sub" -> ExpVerseOrNone(e, AddV(B, f, x, -e.n))
    [] o = "v.diff" -> LET z == IF x[3] = 0 \/ e.y[3] = 0 THEN 2 ELSE Z(f0) IN
                       IF x[1] # e.y[1] /\ ~Multi(f0) THEN ExpErr(e, {"mb"})
                       ELSE Exp(e, "int", Ord(B, z, x) - Ord(B, z, e.y))

-----------------------------------------------------------------------------
(* Comparison: e.v is the string of results of < <= > >= == != and of "equal hash" *)
CmpString(lt, eq) == << lt, lt \/ eq, ~(lt \/ eq), ~lt, eq, ~eq >>
BadCompare(B, e) ==
  LET o == e.o
      lt == CASE o = "cmp.book"  -> B.bpos[e.x] < B.bpos[e.y]
              [] o = "cmp.verse" -> VerseLT(B, e.x, e.y)
              [] o = "cmp.range" -> VerseLT(B, e.x[1], e.y[1]) \/ (e.x[1] = e.y[1] /\ VerseLT(B, e.x[2], e.y[2]))
  IN Exp(e, "bools", CmpString(lt, e.x = e.y)) \cup Clause("hash", e.x = e.y => e.h)

\* List equality: the same ranges in the same groups; e.n = 1 ignores the groups.
BadListEq(e) == ExpBool(e, IF e.n = 1 THEN Flat(e.x) = Flat(e.y) ELSE e.x = e.y)

-----------------------------------------------------------------------------
(* Range construction *)
BadNewRange(B, f, e) ==
  CASE e.o = "r.parts" -> ExpAny(e, FromParts(B, f, e.a))
    [] e.o = "r.kw"    -> ExpAny(e, FromVerses(B, f, e.x, e.y))
    [] e.o = "r.copy"  -> Exp(e, "range", <<e.x, e.y>>)
    [] e.o = "r.arity" -> ExpErr(e, {"value"})

-----------------------------------------------------------------------------
(* Expansion to chapters and books; shape predicates *)
MinStart(B, s) == LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : VerseLE(B, s[i][1], s[j][1]) IN s[i][1]
MaxEnd(B, s)   == LET i == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : VerseLE(B, s[j][2], s[i][2]) IN s[i][2]

BadExpand(B, f, e) ==
  LET z == Z(f) o == e.o IN
  CASE o = "x.vchap"  -> Exp(e, "range", ChapExpand(B, z, e.x, e.x))
    [] o = "x.vbook"  -> Exp(e, "range", BookExpand(B, z, e.x, e.x))
    [] o = "x.bbook"  -> Exp(e, "range", BookExpand(B, z, <<e.b, 1, 1>>, <<e.b, 1, 1>>))
    [] o = "x.bchap"  -> IF IsChap(B, e.b, e.c) THEN Exp(e, "range", ChapExpand(B, z, <<e.b, e.c, 1>>, <<e.b, e.c, 1>>))
                         ELSE ExpErr(e, {"inv"})
    [] o = "x.bchaps" -> IF e.k # "list" THEN {"kind"}
                         ELSE Clause("value", Flat(e.v) = [c \in 1..NChap(B, e.b) |->
                                                            ChapExpand(B, z, <<e.b, c, 1>>, <<e.b, c, 1>>)])
                              \cup Clause("groups", Len(e.v) = (IF e.n = 1 THEN NChap(B, e.b) ELSE 1))
    [] o = "x.rchap"  -> Exp(e, "range", ChapExpand(B, z, e.r[1], e.r[2]))
    [] o = "x.rbook"  -> Exp(e, "range", BookExpand(B, z, e.r[1], e.r[2]))
    [] o = "x.lrange" -> Exp(e, "range", <<MinStart(B, e.xs), MaxEnd(B, e.xs)>>)
    [] o = "x.lchap"  -> Exp(e, "range", ChapExpand(B, z, MinStart(B, e.xs), MaxEnd(B, e.xs)))
    [] o = "x.lbook"  -> Exp(e, "range", BookExpand(B, z, MinStart(B, e.xs), MaxEnd(B, e.xs)))
    [] o = "x.whole"  -> Exp(e, "range", WholeBible(B, z))
    [] o = "x.shape"  -> Exp(e, "bools", << e.r[1] = e.r[2], IsWholeChap(B, z, e.r), SpansStartChap(B, z, e.r),
                                            SpansEndChap(B, z, e.r), IsWholeBook(B, z, e.r),
                                            SpansStartBook(B, z, e.r), SpansEndBook(B, z, e.r) >>)

-----------------------------------------------------------------------------
(* Iteration and counting *)
BadCount(B, f, e) ==
  LET o == e.o r == e.r z == Z(Honour(f, r)) IN
  CASE o = "c.verses" -> Exp(e, "int", VerseCount(B, z, r))
    [] o = "c.chaps"  -> Exp(e, "int", IF e.n = 1 THEN WholeChaps(B, z, r) ELSE ChapCount(B, r))
    [] o = "c.books"  -> Exp(e, "int", IF e.n = 1 THEN WholeBooks(B, z, r) ELSE BookCount(B, r))
    [] o = "c.iter"   -> IF e.k # "verses" THEN {"kind"}
                         ELSE Clause("length", Len(e.v) = VerseCount(B, z, r))
                              \cup Clause("verses", \A i \in 1..Len(e.v) : /\ IsVerse(B, z, e.v[i])
                                                          /\ Ord(B, z, e.v[i]) = Ord(B, z, r[1]) + i - 1)

\* The same over lists: the sum over the ranges (one honoured range at a time).
BadListCount(B, f, e) ==
  LET z(r) == Z(Honour(f, r)) s == e.xs IN
  CASE e.o = "c.lverses" -> Exp(e, "int", SumSeq([i \in 1..Len(s) |-> VerseCount(B, z(s[i]), s[i])]))
    [] e.o = "c.lchaps"  -> Exp(e, "int", SumSeq([i \in 1..Len(s) |->
                                IF e.n = 1 THEN WholeChaps(B, z(s[i]), s[i]) ELSE ChapCount(B, s[i])]))
    [] e.o = "c.lbooks"  -> Exp(e, "int", SumSeq([i \in 1..Len(s) |->
                                IF e.n = 1 THEN WholeBooks(B, z(s[i]), s[i]) ELSE BookCount(B, s[i])]))

-----------------------------------------------------------------------------
(* Splitting *)
BadSplit(B, f, e) ==
  LET z == Z(Honour(f, e.r)) IN
  IF e.n # -1 /\ e.n < 1 THEN ExpErr(e, {"value"})
  ELSE IF e.k # "list" THEN {"kind"}
  ELSE IF ~WellGrouped(e.v) \/ ~IsRangeSeq(B, z, Flat(e.v)) THEN {"invalid range"}
  ELSE Clause("partition", SplitOk(B, z, e.r, e.bb, e.bc, e.n, Flat(e.v)))
       \cup Clause("groups", IF e.rg THEN Regrouped(B, z, e.v) ELSE Len(e.v) = 1)

-----------------------------------------------------------------------------
(* Predicates between references; xs, ys are the flat operands *)
BadPredicate(B, f, e) ==
  LET z == Z(f) a == ROs(B, z, e.xs) b == ROs(B, z, e.ys) IN
  CASE e.o = "p.disjoint"  -> ExpBool(e, Disjoint(a, b))
    [] e.o = "p.contains"  -> ExpBool(e, Includes(a, b))
    [] e.o = "p.surrounds" -> ExpBool(e, Surrounds(a[1], b))
    [] e.o = "p.adjacent"  -> ExpBool(e, AdjacentTo(B, z, f, a[1], b))

-----------------------------------------------------------------------------
(* Set operations; xb, xa / yb, ya: the operands (in groups) before and after the call *)
OpOf(o) == CASE o \in {"s.or", "u.or", "u.merge"} -> "or" [] o \in {"s.and", "u.and"} -> "and"
             [] o \in {"s.sub", "u.sub"} -> "sub" [] o \in {"s.xor", "u.xor"} -> "xor"

BadSetOp(B, f, e) ==
  LET z == Z(f) IN
  Clause("operand modified", e.xa = e.xb /\ e.ya = e.yb)
  \cup (IF ~IsListResult(B, z, e) THEN {"result"}
        ELSE SetOpBad(B, z, f, OpOf(e.o), ROs(B, z, e.xs), ROs(B, z, e.ys), ROs(B, z, Flat(e.v))))

\* In-place: e.v is the list afterwards, e.same says that it is still the same object, e.pure is the list
\* returned by the pure form of the operation for the same operands.
BadUpdate(B, f, e) ==
  LET z == Z(f) IN
  Clause("other operand modified", e.ya = e.yb)
  \cup Clause("not the same object", e.same)
  \cup (IF ~IsListResult(B, z, e) THEN {"result"}
        ELSE SetOpBad(B, z, f, OpOf(e.o), ROs(B, z, e.xs), ROs(B, z, e.ys), ROs(B, z, Flat(e.v)))
             \cup Clause("groups", Regrouped(B, z, e.v))
             \cup Clause("pure form differs", e.pure = e.v))

-----------------------------------------------------------------------------
(* Regrouping and sorting of lists of ranges: e.xb before, e.v after *)
RangeLE(B, r, s) == VerseLT(B, r[1], s[1]) \/ (r[1] = s[1] /\ VerseLE(B, r[2], s[2]))
BadRegroup(B, f, e) ==
  LET z == Z(f) IN
  IF ~IsListResult(B, z, e) THEN {"result"}
  ELSE CASE e.o = "g.regroup" -> Clause("items changed", Flat(e.v) = Flat(e.xb)) \cup Clause("groups", Regrouped(B, z, e.v))
         [] e.o = "g.sort" ->
              LET s == Flat(e.v) t == Flat(e.xb) IN
              Clause("sorted", \A i \in 1..(Len(s) - 1) : RangeLE(B, s[i], s[i + 1]))
              \cup Clause("permutation", Len(s) = Len(t) /\ \A i \in 1..Len(s) :
                     Cardinality({j \in 1..Len(s) : s[j] = s[i]}) = Cardinality({j \in 1..Len(t) : t[j] = s[i]}))
              \cup Clause("groups", IF e.n = 1 THEN Regrouped(B, z, e.v) ELSE Len(e.v) <= 1)

-----------------------------------------------------------------------------
(* Sorting and reversing lists of any length.  e.ks are the keys before, by position; e.v the (original) positions
   of the items afterwards, in order; e.bk the same read backwards; e.gl the sizes of the groups.  e.v2, e.gl2: the
   same after the first item was popped, an item (position n + 1) was appended in a new group and a new group was
   started at index 1. *)
AfterUse(n, v, v2, gl2) ==
  /\ v2 = Append(SubSeq(v, 2, n), n + 1)
  /\ gl2 = IF n <= 1 THEN <<1>> ELSE IF n = 2 THEN <<1, 1>> ELSE <<1, n - 2, 1>>

BadLongSort(e) ==
  LET n == Len(e.ks) v == e.v ks == e.ks IN
  IF e.k # "perm" \/ Len(v) # n \/ \E i \in 1..n : v[i] \notin 1..n THEN {"not a permutation"}
  ELSE (CASE e.o = "l.sort" ->
               Clause("not sorted", \A i \in 1..(n - 1) : ks[v[i]] <= ks[v[i + 1]])
               \cup Clause("not stable or not a permutation", \A i \in 1..(n - 1) : ks[v[i]] = ks[v[i + 1]] => v[i] < v[i + 1])
          [] e.o = "l.rev" -> Clause("not reversed", \A i \in 1..n : v[i] = n + 1 - i))
       \cup Clause("backwards", e.bk = Reverse(v))
       \cup Clause("groups", e.gl = IF n = 0 THEN <<>> ELSE <<n>>)
       \cup Clause("use afterwards", AfterUse(n, v, e.v2, e.gl2))

\* Lists of equal and unequal ranges: e.v are the keys (1..9) afterwards.
BadLongSortKeys(e) ==
  LET n == Len(e.ks) IN
  IF e.k # "perm" \/ Len(e.v) # n THEN {"not a permutation"}
  ELSE Clause("not sorted", \A i \in 1..(n - 1) : e.v[i] <= e.v[i + 1])
       \cup Clause("not a permutation", \A x \in 1..9 : Len(SelectSeq(e.v, LAMBDA y : y = x)) = Len(SelectSeq(e.ks, LAMBDA y : y = x)))
       \cup Clause("backwards", e.bk = Reverse(e.v))
       \cup Clause("groups", e.gl = IF n = 0 THEN <<>> ELSE <<n>>)

-----------------------------------------------------------------------------
(* Verse 0 <-> verse 1 *)
To1(B, x) == IF x[3] = 0 THEN <<x[1], x[2], 1>> ELSE x
To0(B, x) == IF x[3] = 1 /\ x[2] \in B.v0[x[1]] THEN <<x[1], x[2], 0>> ELSE x
BadZero(B, e) ==
  LET cv(x) == IF e.n = 1 THEN To1(B, x) ELSE To0(B, x)
      cr(r) == <<cv(r[1]), cv(r[2])>> IN
  CASE e.o = "z.verse" -> Exp(e, "verse", cv(e.x))
    [] e.o = "z.range" -> Exp(e, "range", cr(e.r))
    [] e.o = "z.list"  -> Exp(e, "list", [g \in 1..Len(e.xb) |-> [i \in 1..Len(e.xb[g]) |-> cr(e.xb[g][i])]])

-----------------------------------------------------------------------------
(* Text *)
OptsOf(e) == [ab |-> e.ab, alt |-> e.alt, ns |-> e.ns, pg |-> e.pg, fs |-> e.fs]

\* The text of a group view names the ranges in it one by one.
GroupText(B, T, o, z, g) ==
  "[" \o FoldSeq(LAMBDA x, y : y \o x, "", [i \in 1..Len(g) |->
             (IF i = 1 THEN "" ELSE ", ") \o "BibleRange(" \o RangeText(B, T, o, z, g[i]) \o ")"]) \o "]"

\* The exact text.
BadText(B, T, f, e) ==
  LET z == Z(f) o == OptsOf(e) IN
  CASE e.o = "t.verse" -> Exp(e, "str", VerseText(B, T, o, e.x, FullV))
    [] e.o = "t.parts" -> Exp(e, "str", VerseText(B, T, o, e.x, {e.ps[i] : i \in 1..Len(e.ps)}))
    [] e.o = "t.range" -> Exp(e, "str", RangeText(B, T, o, z, e.r))
    [] e.o = "t.list"  -> Exp(e, "str", ListText(B, T, o, z, e.xb))
    [] e.o = "t.repr"  ->
         Exp(e, "str", CASE e.w = "v" -> "BibleVerse(" \o VerseText(B, T, [o EXCEPT !.ab = TRUE], e.x, FullV) \o ")"
                         [] e.w = "r" -> "BibleRange(" \o RangeText(B, T, o, z, e.r) \o ")"
                         [] e.w = "l" -> "BibleRangeList(\"" \o ListText(B, T, o, z, e.xb) \o "\")"
                         [] e.w = "g" -> "GroupView(" \o GroupText(B, T, o, z, e.xb[1]) \o ")"
                         [] e.w = "gs" -> GroupText(B, T, o, z, e.xb[1]))

\* Round trip: the text, parsed again, gives the same reference (e.k/e.v is the parsed one).
\* sp, hva, hvs: whether the text contains white space / the alternate / the standard verse separator.
BadRoundTrip(B, e) ==
  Clause("white space", e.ns => ~e.sp)
  \cup Clause("verse separator", IF e.alt THEN ~e.hvs ELSE ~e.hva)
  \cup (CASE e.o = "rt.verse" -> Exp(e, "verse", e.x)
          [] e.o = "rt.range" -> Exp(e, "range", e.r)
          [] e.o = "rt.list"  -> IF e.k # "list" THEN {"kind"}
                                 ELSE IF e.pg THEN Clause("ranges and groups", e.v = e.xb)
                                 ELSE Clause("ranges", Flat(e.v) = Flat(e.xb)))

\* Conventional text groups the ranges exactly as regrouping does.
BadConventional(B, f, e) == IF e.k # "list" THEN {"kind"}
                            ELSE Clause("groups", Regrouped(B, Z(f), e.v)) \cup Clause("ranges", Flat(e.v) = Flat(e.xb))

-----------------------------------------------------------------------------
(* Parsing: e.s is the sentence; e.span[i][j] = <<start, end>> is where part j (1, 2, 3 = whole item) of item i
   is in the text; e.p the reported error position; e.len the length of the text. *)
BadParse(B, f, e) ==
  LET m == Meaning(B, f, e.s)
      one == Len(m.groups) = 1 /\ Len(m.groups[1]) = 1
      r == m.groups[1][1] IN
  IF m.bad = 0
  THEN CASE e.o = "parse" -> Exp(e, "list", m.groups)
         \* the constructors of a single verse and of a single range
         [] e.o = "parse.v" -> IF one /\ r[1] = r[2] THEN Exp(e, "verse", r[1]) ELSE ExpErr(e, {"inv"})
         [] e.o = "parse.r" -> IF one THEN Exp(e, "range", r) ELSE ExpErr(e, {"inv"})
  ELSE IF e.k # "err" \/ e.v # "parse" THEN {"error"}
  ELSE Clause("error position", e.p = e.span[m.at][m.bad])

\* Any string at all: a list of ranges that exist, or a parsing error that points into the string.
BadTotal(B, f, e) ==
  IF e.k = "list" THEN Clause("invalid range", IsListResult(B, Z(f), e) /\ Len(e.v) > 0)
                       \cup Clause("multi-book", Multi(f) \/ \A i \in 1..Len(Flat(e.v)) : ~IsMultibook(Flat(e.v)[i]))
  ELSE IF e.k = "err" /\ e.v = "parse" THEN Clause("error position", 0 <= e.p[1] /\ e.p[1] <= e.p[2] /\ e.p[2] <= e.len)
  ELSE {"wrong exception"}

-----------------------------------------------------------------------------
(* Book names: e.s the characters; the result is a book or none *)
BadName(T, e) ==
  LET bs == DenotedBooks(T.names, e.s) IN
  IF bs = {} THEN (IF e.n = 1 THEN ExpErr(e, {"inv"}) ELSE IF e.k = "none" THEN {} ELSE {"recognised"})
  ELSE IF e.k # "book" THEN {"not recognised"} ELSE Clause("book", e.v \in bs)

-----------------------------------------------------------------------------
(* Refused calls.  e.w says what is wrong with the call; e.xb and e.xa are everything that the call was given (receiver,
   good operands, lists being built from), looked at before and after.  A refused call raises the error for its
   fault, and what it was given is as before.  (That the global state is as before is the Call step of Trace, seen by
   the "@see" and the ordinary calls that follow.) *)
RefusalErrors(w) ==
  CASE w = "operand" -> {"type", "value"}          \* a set operation or predicate on something that is no reference
    [] w = "order"   -> {"type"}                   \* <, <=, >, >= between different kinds
    [] w = "arith"   -> {"type", "value"}          \* verse plus or minus something that is neither number nor verse
    [] w = "item"    -> {"type", "value"}          \* something that is no range as an item of a list
    [] w = "index"   -> {"type", "index", "value"} \* an index that is no number
    [] w = "new"     -> {"type", "value", "inv"}   \* arguments of the wrong number or kind to a constructor
    [] w = "number"  -> {"type", "value", "inv"}   \* something that is no number as a chapter, verse or count
    [] w = "parse"   -> {"parse"}                  \* text that is no reference
    [] w = "caller"  -> {"other:Boom"}             \* the caller's own iterator raises
BadRefusal(e) ==
  Clause("changed", e.xa = e.xb)
  \cup (CASE e.o = "e.eq" -> Exp(e, "bools", <<FALSE, TRUE>>)         \* ==, != between different kinds
          [] e.o = "e.set" -> IF e.k = "err" THEN {} ELSE {"error"}   \* a setting that cannot work
          [] e.o = "e.call" -> ExpErr(e, RefusalErrors(e.w)))

-----------------------------------------------------------------------------
Family(o) ==
  CASE o \in {"b.nchap", "b.minchap", "b.maxchap", "b.nverse", "b.minv", "b.maxv", "b.first", "b.last", "b.next",
              "b.prev", "b.order", "v.new"} -> "vers"
    [] o \in {"v.copy", "v.minchap", "v.maxchap", "v.minv", "v.maxv", "v.first", "v.last", "v.isfirstc", "v.islastc",
              "v.isfirstb", "v.islastb"} -> "verse"
    [] o \in {"v.add", "v.sub", "v.diff"} -> "arith"
    [] o \in {"cmp.book", "cmp.verse", "cmp.range"} -> "cmp"
    [] o = "cmp.list" -> "listeq"
    [] o = "cmp.imm" -> "imm"
    [] o \in {"r.parts", "r.kw", "r.copy", "r.arity"} -> "new"
    [] o \in {"x.vchap", "x.vbook", "x.bbook", "x.bchap", "x.bchaps", "x.rchap", "x.rbook", "x.lrange", "x.lchap",
              "x.lbook", "x.whole", "x.shape"} -> "expand"
    [] o \in {"c.verses", "c.chaps", "c.books", "c.iter"} -> "count"
    [] o \in {"c.lverses", "c.lchaps", "c.lbooks"} -> "lcount"
    [] o = "split" -> "split"
    [] o \in {"p.disjoint", "p.contains", "p.surrounds", "p.adjacent"} -> "pred"
    [] o \in {"s.or", "s.and", "s.sub", "s.xor"} -> "set"
    [] o \in {"u.or", "u.and", "u.sub", "u.xor", "u.merge"} -> "update"
    [] o \in {"g.regroup", "g.sort"} -> "group"
    [] o \in {"l.sort", "l.rev"} -> "lsort"
    [] o = "l.keys" -> "lkeys"
    [] o \in {"z.verse", "z.range", "z.list"} -> "zero"
    [] o \in {"t.verse", "t.parts", "t.range", "t.list", "t.repr"} -> "text"
    [] o \in {"rt.verse", "rt.range", "rt.list"} -> "rt"
    [] o = "rt.conv" -> "conv"
    [] o \in {"parse", "parse.v", "parse.r"} -> "parse"
    [] o = "total" -> "total"
    [] o = "name" -> "name"
    [] o \in {"e.call", "e.eq", "e.set"} -> "refuse"

Bad(B, T, f, e) ==
  LET fam == Family(e.o) IN
  CASE fam = "vers"   -> BadVersification(B, f, e)
    [] fam = "verse"  -> BadVerseMethods(B, f, e)
    [] fam = "arith"  -> BadArith(B, f, e)
    [] fam = "cmp"    -> BadCompare(B, e)
    [] fam = "listeq" -> BadListEq(e)
    [] fam = "imm"    -> ExpBool(e, TRUE)
    [] fam = "new"    -> BadNewRange(B, f, e)
    [] fam = "expand" -> BadExpand(B, f, e)
    [] fam = "count"  -> BadCount(B, f, e)
    [] fam = "lcount" -> BadListCount(B, f, e)
    [] fam = "split"  -> BadSplit(B, f, e)
    [] fam = "pred"   -> BadPredicate(B, f, e)
    [] fam = "set"    -> BadSetOp(B, f, e)
    [] fam = "update" -> BadUpdate(B, f, e)
    [] fam = "group"  -> BadRegroup(B, f, e)
    [] fam = "lsort"  -> BadLongSort(e)
    [] fam = "lkeys"  -> BadLongSortKeys(e)
    [] fam = "zero"   -> BadZero(B, e)
    [] fam = "text"   -> BadText(B, T, f, e)
    [] fam = "rt"     -> BadRoundTrip(B, e)
    [] fam = "conv"   -> BadConventional(B, f, e)
    [] fam = "parse"  -> BadParse(B, f, e)
    [] fam = "total"  -> BadTotal(B, f, e)
    [] fam = "name"   -> BadName(T, e)
    [] fam = "refuse" -> BadRefusal(e)
================================================================================
