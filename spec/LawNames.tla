-------------------------------- MODULE LawNames -------------------------------
(***************************************************************************)
(* Laws of book names: with the default names (and four other namings), every *)
(* accepted spelling denotes exactly one book, so the order in which books *)
(* are tried cannot matter; names are accepted from the minimum length on  *)
(* and not before, unless an extra abbreviation says so.                   *)
(***************************************************************************)
EXTENDS Names, Configs
VARIABLES t, b, s
vars == <<t, b, s>>
N == NameTables[t].names
Named(tt) == {x \in 1..NB : NameTables[tt].names.min[x] > 0}
Written(k) == IF k = 0 THEN {<<>>} ELSE {<<Numeral(k)>>, <<Numeral(k), " ">>, Roman(k) \o <<" ">>, Roman(k) \o <<" ", " ">>}
Spellings(tt, x) == LET M == NameTables[tt].names IN
  {p \o SubSeq(M.title[x], 1, k) : p \in Written(M.prefix[x]), k \in M.min[x]..Len(M.title[x])}
  \cup {M.extra[x][i] : i \in 1..Len(M.extra[x])}
Init == t \in 1..Len(NameTables) /\ b = 0 /\ s = <<>>
Next == b = 0 /\ b' \in Named(t) /\ s' \in Spellings(t, b') /\ UNCHANGED t
Squeezed(x) == SelectSeq(x, LAMBDA c : c # " ")
Accepted == b # 0 => Denotes(N, b, s) /\ Denotes(N, b, <<" ">> \o s \o <<" ", " ">>)
OneBook == b # 0 => DenotedBooks(N, s) = {b}
\* Spaces inside a title may be left out; a Roman prefix keeps its space.
NoSpace == b # 0 /\ N.prefix[b] = 0 => DenotedBooks(N, Squeezed(s)) = {b}
================================================================================
