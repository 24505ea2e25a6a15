--------------------------------- MODULE Names ---------------------------------
(***************************************************************************)
(* Book-name recognition.  A name is a sequence of one-character strings   *)
(* in lower case, every white-space character written " ".                 *)
(*                                                                         *)
(* A name denotes book b if, ignoring white space at both ends, it is      *)
(*   - a prefix of b's title that is at least as long as b's minimum; a    *)
(*     numeric prefix may be written as an Arabic numeral with or without  *)
(*     white space, or as a Roman numeral followed by white space; or      *)
(*   - one of b's extra abbreviations.                                     *)
(* White space inside a title or abbreviation may be of any amount.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

\* Positions (already consumed characters) reachable after the pattern character c.
Advance(s, ps, c) ==
  IF c = " " THEN UNION {{q \in p..Len(s) : \A i \in (p + 1)..q : s[i] = " "} : p \in ps}
  ELSE {p + 1 : p \in {q \in ps : q < Len(s) /\ s[q + 1] = c}}

After(s, ps, pat) == FoldLeft(LAMBDA acc, c : IF acc = {} THEN {} ELSE Advance(s, acc, c), ps, pat)

Trim(s) ==
  IF \A i \in 1..Len(s) : s[i] = " " THEN <<>>
  ELSE LET lo == CHOOSE i \in 1..Len(s) : s[i] # " " /\ \A j \in 1..(i - 1) : s[j] = " "
           hi == CHOOSE i \in 1..Len(s) : s[i] # " " /\ \A j \in (i + 1)..Len(s) : s[j] = " "
       IN SubSeq(s, lo, hi)

Numeral(k) == <<"1", "2", "3">>[k]
Roman(k)   == << <<"i">>, <<"i", "i">>, <<"i", "i", "i">> >>[k]

AfterPrefix(s, k) ==
  IF k = 0 THEN {0}
  ELSE After(s, {0}, <<Numeral(k), " ">>)
         \cup {p \in After(s, {0}, Append(Roman(k), " ")) : p > k}

\* N = [prefix, title, min, extra], each by book.
Denotes(N, b, s0) ==
  LET s == Trim(s0)
      from == AfterPrefix(s, N.prefix[b])
      full == Len(s)
      t == N.title[b]
  IN \/ \E k \in N.min[b]..Len(t) : full \in After(s, from, SubSeq(t, 1, k))
     \/ \E i \in 1..Len(N.extra[b]) : full \in After(s, {0}, N.extra[b][i])

DenotedBooks(N, s) == {b \in 1..Len(N.title) : N.min[b] > 0 /\ Denotes(N, b, s)}
================================================================================
