------------------------------- MODULE Configs ---------------------------------
(***************************************************************************)
(* The configurations that the conformance runs install through the        *)
(* package's public data singleton: tables of book orders, chapter sizes,  *)
(* verse-0 chapters and names, addressed by index.  Index 1 is the         *)
(* package's default.  2..4 are miniature Bibles on which inputs are       *)
(* enumerated exhaustively, 5 is the default versification in another book *)
(* order with some books left out, 6 and 7 rearrange the books of 2, 8 has  *)
(* all books in another order and 9 only one.                              *)
(***************************************************************************)
EXTENDS Versification, CanonData

Sparse(pairs) == [b \in 1..NB |-> IF \E i \in 1..Len(pairs) : pairs[i][1] = b
                                  THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = b][2] ELSE <<>>]
SparseSet(pairs) == [b \in 1..NB |-> IF \E i \in 1..Len(pairs) : pairs[i][1] = b
                                  THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = b][2] ELSE {}]

\* 40 Matthew, 65 Jude, 9 1 Samuel, 22 Song of Songs, 8 Ruth, 1 Genesis, 64 3 John, 19 Psalms, 62/63 1/2 John
Orders == << DefOrder, <<40, 65, 9, 22>>, <<8, 1, 64, 19>>, <<62, 63, 64>>,
             <<1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 23, 24, 26, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
               19, 20, 18, 22, 8, 25, 21, 17, 27, 15, 16, 13, 14>>,
             <<22, 9, 40, 65>>, <<65, 40>>,
             [i \in 1..66 |-> IF i <= 27 THEN 67 - i ELSE i - 27], <<65>> >>

\* The default versification made longer: more chapters and verses than any book has by default.
LongMax == [DefMax EXCEPT ![1] = <<1, 1>> \o @, ![19] = Append(@, 7), ![31] = <<3, 18, 1>>, ![37] = [chp \in 1..300 |-> 1 + (chp % 4)], ![57] = <<1100>>, ![65] = <<213>>,
                          ![66] = Append(@, 305)]

Maxes == << DefMax,
            Sparse(<< <<40, <<2, 3, 2>>>>, <<65, <<3>>>>, <<9, <<1, 2>>>>, <<22, <<2>>>> >>),
            Sparse(<< <<8, <<1, 1>>>>, <<1, <<3, 1, 2>>>>, <<64, <<1>>>>, <<19, <<2, 1, 3>>>> >>),
            Sparse(<< <<62, <<2, 2>>>>, <<63, <<2>>>>, <<64, <<1>>>> >>),
            Sparse(<< <<40, <<3>>>>, <<65, <<1, 2, 2>>>>, <<9, <<4>>>>, <<22, <<1, 1>>>> >>),
            LongMax,
            Sparse(<< <<65, <<2, 1, 3>>>> >>) >>

Zeros == << DefV0,
            SparseSet(<< <<40, {2}>>, <<9, {1}>>, <<22, {2, 3}>> >>),
            SparseSet(<< <<1, {1, 3}>>, <<64, {1}>>, <<19, {2, 3}>> >>),
            SparseSet(<< <<63, {1}>> >>),
            SparseSet(<< >>),
            SparseSet(<< <<65, {1}>>, <<22, {1}>>, <<40, {1}>> >>),
            SparseSet(<< <<1, {1, 2, 52}>>, <<19, {1, 150, 151}>>, <<31, {3}>>, <<37, {1, 2, 9, 10, 11, 99, 100, 101, 199, 255, 256, 257, 300}>>, <<39, {4}>>, <<40, {1}>>, <<65, {1}>>, <<66, {1, 2, 23}>> >>),
            SparseSet(<< <<65, {1, 3}>> >>) >>

\* Every book of the order has chapters.  (The verse-0 data may name chapters that a book does not have, as it does
\* while a user replaces one part of the data after the other; they have no effect.)
Consistent(o, m) == \A i \in 1..Len(Orders[o]) : Len(Maxes[m][Orders[o][i]]) > 0

BibleAt == [o \in 1..Len(Orders) |-> [m \in 1..Len(Maxes) |-> [zz \in 1..Len(Zeros) |->
              IF Consistent(o, m) THEN MkBible(Orders[o], Maxes[m], Zeros[zz]) ELSE <<>>]]]

Bible(i) == CASE i = 1 -> BibleAt[1][1][1] [] i = 2 -> BibleAt[2][2][2] [] i = 3 -> BibleAt[3][3][3]
              [] i = 4 -> BibleAt[4][4][4] [] i = 5 -> BibleAt[5][1][1] [] i = 6 -> BibleAt[8][6][7] [] i = 7 -> BibleAt[9][7][8]

-----------------------------------------------------------------------------
(* Names *)
NameTable1 == [abbrev |-> [b \in 1..NB |-> DefNames[b][1]], title |-> [b \in 1..NB |-> DefNames[b][2]],
               abbrevNS |-> DefAbbrevNS, titleNS |-> DefTitleNS,
               names |-> [prefix |-> DefPrefix, title |-> DefTitleChars, min |-> [b \in 1..NB |-> DefNames[b][3]],
                          extra |-> DefExtraChars]]
\* Another naming of six books; the others have no name.
Over(seq, pairs) == [b \in 1..NB |-> IF \E i \in 1..Len(pairs) : pairs[i][1] = b
                                     THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = b][2] ELSE seq]
NameTable2 == [abbrev |-> Over("", << <<40, "Mth">>, <<65, "Jds">>, <<9, "1Rg">>, <<22, "Cant">> >>),
               title |-> Over("", << <<40, "Matthaeus">>, <<65, "Judas">>, <<9, "1 Regum">>, <<22, "Canticum Canticorum">> >>),
               abbrevNS |-> Over("", << <<40, "Mth">>, <<65, "Jds">>, <<9, "1Rg">>, <<22, "Cant">> >>),
               titleNS |-> Over("", << <<40, "Matthaeus">>, <<65, "Judas">>, <<9, "1Regum">>, <<22, "CanticumCanticorum">> >>),
               names |-> [prefix |-> Over(0, << <<9, 1>> >>),
                          title |-> Over(<<>>, << <<40, <<"m","a","t","t","h","a","e","u","s">>>>,
                                                  <<65, <<"j","u","d","a","s">>>>, <<9, <<"r","e","g","u","m">>>>,
                                                  <<22, <<"c","a","n","t","i","c","u","m"," ","c","a","n","t","i","c","o","r","u","m">>>> >>),
                          min |-> Over(0, << <<40, 2>>, <<65, 3>>, <<9, 1>>, <<22, 4>> >>),
                          extra |-> Over(<<>>, << <<40, << <<"m","t","h">> >>>>, <<65, << <<"j","d","s">> >>>>,
                                                  <<9, << <<"1"," ","r","g">> >>>>,
                                                  <<22, << <<"c","."," ","c",".">> >>>> >>)]]
\* A third naming: no abbreviations or many, long and one-letter names, names inside other names, numeric prefixes
\* with and without a meaning, and characters that mean something in a regular expression.
Spelt(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
NameTable3 == [abbrev |-> Over("", << <<40, "Mt">>, <<65, "Ju">>, <<9, "3Rg">>, <<22, "SoS">>, <<8, "Rut(h)">>, <<1, "A">>, <<19, "1 2">>, <<62, "I Jo">>, <<63, "4Kgs">>, <<64, "x">> >>),
               title |-> Over("", << <<40, "Evangelium secundum Matthaeum">>, <<65, "Ju">>, <<9, "3 Regum">>, <<22, "Song of the Songs of Songs">>, <<8, "Rut(h)">>, <<1, "2 B">>, <<19, "1 2 3">>, <<62, "I John">>, <<63, "4 Kings">>, <<64, "x">> >>),
               abbrevNS |-> Over("", << <<40, "Mt">>, <<65, "Ju">>, <<9, "3Rg">>, <<22, "SoS">>, <<8, "Rut(h)">>, <<1, "A">>, <<19, "12">>, <<62, "IJo">>, <<63, "4Kgs">>, <<64, "x">> >>),
               titleNS |-> Over("", << <<40, "EvangeliumsecundumMatthaeum">>, <<65, "Ju">>, <<9, "3Regum">>, <<22, "SongoftheSongsofSongs">>, <<8, "Rut(h)">>, <<1, "2B">>, <<19, "123">>, <<62, "IJohn">>, <<63, "4Kings">>, <<64, "x">> >>),
               names |-> [prefix |-> Over(0, << <<9, 3>>, <<1, 2>>, <<19, 1>> >>),
                          title |-> Over(<<>>, << <<40, Spelt("evangelium secundum matthaeum")>>, <<65, Spelt("ju")>>, <<9, Spelt("regum")>>, <<22, Spelt("song of the songs of songs")>>, <<8, Spelt("rut(h)")>>, <<1, Spelt("b")>>, <<19, Spelt("2 3")>>, <<62, Spelt("i john")>>, <<63, Spelt("4 kings")>>, <<64, Spelt("x")>> >>),
                          min |-> Over(0, << <<40, 21>>, <<65, 2>>, <<9, 3>>, <<22, 5>>, <<8, 4>>, <<1, 1>>, <<19, 1>>, <<62, 6>>, <<63, 3>>, <<64, 1>> >>),
                          extra |-> Over(<<>>, << <<40, <<Spelt("mt"), Spelt("mth"), Spelt("matth."), Spelt("ev. mt"), Spelt("mat ev"), Spelt("m"), Spelt("mtt"), Spelt("mttt"), Spelt("mtttt")>>>>, <<65, <<>>>>, <<9, <<Spelt("3rg"), Spelt("iii rg")>>>>, <<22, <<Spelt("s o s")>>>>, <<8, <<Spelt("r+t"), Spelt("r.t"), Spelt("r|t")>>>>, <<1, <<Spelt("a")>>>>, <<19, <<Spelt("ps")>>>>, <<62, <<Spelt("1jo"), Spelt("1 jo")>>>>, <<63, <<Spelt("4kgs")>>>>, <<64, <<Spelt("^x$"), Spelt("x*"), Spelt("(x)"), Spelt("[yz]"), Spelt("\\d")>>>> >>)]]
\* A fourth naming, in letters outside ASCII, which are written <code> in the specification and in traces: Matfeya,
\* Iudy, 1 Tsarstv and Pesn' Pesney in Cyrillic, Psalmoi in Greek, Genese, Rut and Joao with accents.
RECURSIVE Letters(_)
Letters(str) == IF str = "" THEN <<>>
                ELSE IF SubSeq(str, 1, 1) = "<" THEN <<SubSeq(str, 1, 6)>> \o Letters(SubSeq(str, 7, Len(str)))
                ELSE <<SubSeq(str, 1, 1)>> \o Letters(SubSeq(str, 2, Len(str)))
NameTable4 == [abbrev |-> Over("", << <<40, "<041c><0444>">>, <<65, "<0418><0443><0434>">>, <<9, "1<0426><0430><0440>">>, <<22, "<041f><0435><0441><043d>">>, <<8, "Rt<00e9>">>, <<1, "Gn">>, <<64, "3Jo">>, <<19, "<03a8><03b1><03bb>">>, <<62, "1Jo">>, <<63, "2Jo">> >>),
               title |-> Over("", << <<40, "<041c><0430><0442><0444><0435><044f>">>, <<65, "<0418><0443><0434><044b>">>, <<9, "1 <0426><0430><0440><0441><0442><0432>">>, <<22, "<041f><0435><0441><043d><044c> <041f><0435><0441><043d><0435><0439>">>, <<8, "R<00fa>t">>, <<1, "Gen<00e8>se">>, <<64, "3 Jo<00e3>o">>, <<19, "<03a8><03b1><03bb><03bc><03bf><03af>">>, <<62, "1 Jo<00e3>o">>, <<63, "2 Jo<00e3>o">> >>),
               abbrevNS |-> Over("", << <<40, "<041c><0444>">>, <<65, "<0418><0443><0434>">>, <<9, "1<0426><0430><0440>">>, <<22, "<041f><0435><0441><043d>">>, <<8, "Rt<00e9>">>, <<1, "Gn">>, <<64, "3Jo">>, <<19, "<03a8><03b1><03bb>">>, <<62, "1Jo">>, <<63, "2Jo">> >>),
               titleNS |-> Over("", << <<40, "<041c><0430><0442><0444><0435><044f>">>, <<65, "<0418><0443><0434><044b>">>, <<9, "1<0426><0430><0440><0441><0442><0432>">>, <<22, "<041f><0435><0441><043d><044c><041f><0435><0441><043d><0435><0439>">>, <<8, "R<00fa>t">>, <<1, "Gen<00e8>se">>, <<64, "3Jo<00e3>o">>, <<19, "<03a8><03b1><03bb><03bc><03bf><03af>">>, <<62, "1Jo<00e3>o">>, <<63, "2Jo<00e3>o">> >>),
               names |-> [prefix |-> Over(0, << <<40, 0>>, <<65, 0>>, <<9, 1>>, <<22, 0>>, <<8, 0>>, <<1, 0>>, <<64, 3>>, <<19, 0>>, <<62, 1>>, <<63, 2>> >>),
                          title |-> Over(<<>>, << <<40, Letters("<043c><0430><0442><0444><0435><044f>")>>, <<65, Letters("<0438><0443><0434><044b>")>>, <<9, Letters("<0446><0430><0440><0441><0442><0432>")>>, <<22, Letters("<043f><0435><0441><043d><044c> <043f><0435><0441><043d><0435><0439>")>>, <<8, Letters("r<00fa>t")>>, <<1, Letters("gen<00e8>se")>>, <<64, Letters("jo<00e3>o")>>, <<19, Letters("<03c8><03b1><03bb><03bc><03bf><03af>")>>, <<62, Letters("jo<00e3>o")>>, <<63, Letters("jo<00e3>o")>> >>),
                          min |-> Over(0, << <<40, 2>>, <<65, 2>>, <<9, 2>>, <<22, 3>>, <<8, 2>>, <<1, 3>>, <<64, 2>>, <<19, 2>>, <<62, 2>>, <<63, 2>> >>),
                          extra |-> Over(<<>>, << <<40, <<Letters("<043c><0444>"), Letters("<043c><0442><0444>"), Letters("<0435><0432>. <043c><0444>")>>>>, <<65, <<Letters("<0438><0443><0434>")>>>>, <<9, <<Letters("1 <0446><0440>"), Letters("1<0446><0430><0440>")>>>>, <<22, <<Letters("<043f><043f>")>>>>, <<8, <<Letters("rt<00e9>")>>>>, <<1, <<Letters("gn"), Letters("gn<00e8>")>>>>, <<64, <<Letters("3jn")>>>>, <<19, <<Letters("ps")>>>>, <<62, <<Letters("1jn")>>>>, <<63, <<Letters("2jn")>>>> >>)]]
\* A fifth naming, close to the first: for a third of the books one more letter is needed, another third has one more
\* abbreviation, and two pairs of books have changed names.
Swapped(q) == [q EXCEPT ![9] = q[10], ![10] = q[9], ![42] = q[43], ![43] = q[42]]
LongerMin == {b \in 1..NB : b % 3 = 0 /\ b \notin {9, 42} /\ Len(DefAbbrevNS[b]) >= DefNames[b][3] + 2}
MoreNames == {b \in 1..NB : b % 3 = 1 /\ b \notin {10, 43} /\ DefPrefix[b] = 0}
NameTable5 == [abbrev |-> Swapped(NameTable1.abbrev), title |-> Swapped(NameTable1.title),
               abbrevNS |-> Swapped(DefAbbrevNS), titleNS |-> Swapped(DefTitleNS),
               names |-> [prefix |-> Swapped(DefPrefix), title |-> Swapped(DefTitleChars),
                          min |-> Swapped([b \in 1..NB |-> IF b \in LongerMin THEN DefNames[b][3] + 1 ELSE DefNames[b][3]]),
                          extra |-> Swapped([b \in 1..NB |-> IF b \in MoreNames THEN DefExtraChars[b] \o << <<"q">> \o DefTitleChars[b] >>
                                                             ELSE DefExtraChars[b]])]]
NameTables == <<NameTable1, NameTable2, NameTable3, NameTable4, NameTable5>>

DefSeps == [rs |-> "-", maj |-> ";", min |-> ",", vs |-> ":", va |-> "."]
TextOf(seps, n) == [rs |-> seps.rs, maj |-> seps.maj, min |-> seps.min, vs |-> seps.vs, va |-> seps.va,
                    abbrev |-> NameTables[n].abbrev, title |-> NameTables[n].title,
                    abbrevNS |-> NameTables[n].abbrevNS, titleNS |-> NameTables[n].titleNS,
                    names |-> NameTables[n].names]

(* For the conformance driver, which installs exactly these tables. *)
Export == [ids |-> DefIds, orders |-> Orders, maxes |-> Maxes,
           zeros |-> [i \in 1..Len(Zeros) |-> [b \in 1..NB |-> SetToSortSeq(Zeros[i][b], LAMBDA x, y : x < y)]]]
================================================================================
