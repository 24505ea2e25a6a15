------------------------------- MODULE CanonData -------------------------------
(***************************************************************************)
(* The package's default Bible data, written down independently of the     *)
(* code under test (it is the oracle, and is never regenerated).           *)
(*   - books are numbered 1..66 in the traditional Protestant order,       *)
(*   - DefMax[b][c] is the last verse of chapter c of book b,              *)
(*   - DefV0[b] is the set of chapters that have a verse 0 (the Psalms     *)
(*     with a superscription),                                             *)
(*   - DefNames[b] = <<abbreviation, title, minimum unique characters,     *)
(*     extra abbreviations>>.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

NBooks == 66
DefOrder == [i \in 1..NBooks |-> i]

DefIds == <<"Gen", "Exod", "Lev", "Num", "Deut", "Josh", "Judg", "Ruth", "1Sam", "2Sam", "1Kgs", "2Kgs", "1Chr", "2Chr", "Ezra", "Neh", "Esth", "Job", "Psa", "Prov", "Eccl", "Song", "Isa", "Jer", "Lam", "Ezek", "Dan", "Hos", "Joel", "Amos", "Obad", "Jonah", "Mic", "Nah", "Hab", "Zeph", "Hag", "Zech", "Mal", "Matt", "Mark", "Luke", "John", "Acts", "Rom", "1Cor", "2Cor", "Gal", "Eph", "Phil", "Col", "1Th", "2Th", "1Tim", "2Tim", "Titus", "Phlm", "Heb", "Jam", "1Pet", "2Pet", "1Jn", "2Jn", "3Jn", "Jude", "Rev">>

DefMax == <<
  <<31, 25, 24, 26, 32, 22, 24, 22, 29, 32, 32, 20, 18, 24, 21, 16, 27, 33, 38, 18, 34, 24, 20, 67, 34, 35, 46, 22, 35, 43, 55, 32, 20, 31, 29, 43, 36, 30, 23, 23, 57, 38, 34, 34, 28, 34, 31, 22, 33, 26>>,
  <<22, 25, 22, 31, 23, 30, 25, 32, 35, 29, 10, 51, 22, 31, 27, 36, 16, 27, 25, 26, 36, 31, 33, 18, 40, 37, 21, 43, 46, 38, 18, 35, 23, 35, 35, 38, 29, 31, 43, 38>>,
  <<17, 16, 17, 35, 19, 30, 38, 36, 24, 20, 47, 8, 59, 57, 33, 34, 16, 30, 37, 27, 24, 33, 44, 23, 55, 46, 34>>,
  <<54, 34, 51, 49, 31, 27, 89, 26, 23, 36, 35, 16, 33, 45, 41, 50, 13, 32, 22, 29, 35, 41, 30, 25, 18, 65, 23, 31, 40, 16, 54, 42, 56, 29, 34, 13>>,
  <<46, 37, 29, 49, 33, 25, 26, 20, 29, 22, 32, 32, 18, 29, 23, 22, 20, 22, 21, 20, 23, 30, 25, 22, 19, 19, 26, 68, 29, 20, 30, 52, 29, 12>>,
  <<18, 24, 17, 24, 15, 27, 26, 35, 27, 43, 23, 24, 33, 15, 63, 10, 18, 28, 51, 9, 45, 34, 16, 33>>,
  <<36, 23, 31, 24, 31, 40, 25, 35, 57, 18, 40, 15, 25, 20, 20, 31, 13, 31, 30, 48, 25>>,
  <<22, 23, 18, 22>>,
  <<28, 36, 21, 22, 12, 21, 17, 22, 27, 27, 15, 25, 23, 52, 35, 23, 58, 30, 24, 42, 15, 23, 29, 22, 44, 25, 12, 25, 11, 31, 13>>,
  <<27, 32, 39, 12, 25, 23, 29, 18, 13, 19, 27, 31, 39, 33, 37, 23, 29, 33, 43, 26, 22, 51, 39, 25>>,
  <<53, 46, 28, 34, 18, 38, 51, 66, 28, 29, 43, 33, 34, 31, 34, 34, 24, 46, 21, 43, 29, 53>>,
  <<18, 25, 27, 44, 27, 33, 20, 29, 37, 36, 21, 21, 25, 29, 38, 20, 41, 37, 37, 21, 26, 20, 37, 20, 30>>,
  <<54, 55, 24, 43, 26, 81, 40, 40, 44, 14, 47, 40, 14, 17, 29, 43, 27, 17, 19, 8, 30, 19, 32, 31, 31, 32, 34, 21, 30>>,
  <<17, 18, 17, 22, 14, 42, 22, 18, 31, 19, 23, 16, 22, 15, 19, 14, 19, 34, 11, 37, 20, 12, 21, 27, 28, 23, 9, 27, 36, 27, 21, 33, 25, 33, 27, 23>>,
  <<11, 70, 13, 24, 17, 22, 28, 36, 15, 44>>,
  <<11, 20, 32, 23, 19, 19, 73, 18, 38, 39, 36, 47, 31>>,
  <<22, 23, 15, 17, 14, 14, 10, 17, 32, 3>>,
  <<22, 13, 26, 21, 27, 30, 21, 22, 35, 22, 20, 25, 28, 22, 35, 22, 16, 21, 29, 29, 34, 30, 17, 25, 6, 14, 23, 28, 25, 31, 40, 22, 33, 37, 16, 33, 24, 41, 30, 24, 34, 17>>,
  <<6, 12, 8, 8, 12, 10, 17, 9, 20, 18, 7, 8, 6, 7, 5, 11, 15, 50, 14, 9, 13, 31, 6, 10, 22, 12, 14, 9, 11, 12, 24, 11, 22, 22, 28, 12, 40, 22, 13, 17, 13, 11, 5, 26, 17, 11, 9, 14, 20, 23, 19, 9, 6, 7, 23, 13, 11, 11, 17, 12, 8, 12, 11, 10, 13, 20, 7, 35, 36, 5, 24, 20, 28, 23, 10, 12, 20, 72, 13, 19, 16, 8, 18, 12, 13, 17, 7, 18, 52, 17, 16, 15, 5, 23, 11, 13, 12, 9, 9, 5, 8, 28, 22, 35, 45, 48, 43, 13, 31, 7, 10, 10, 9, 8, 18, 19, 2, 29, 176, 7, 8, 9, 4, 8, 5, 6, 5, 6, 8, 8, 3, 18, 3, 3, 21, 26, 9, 8, 24, 13, 10, 7, 12, 15, 21, 10, 20, 14, 9, 6>>,
  <<33, 22, 35, 27, 23, 35, 27, 36, 18, 32, 31, 28, 25, 35, 33, 33, 28, 24, 29, 30, 31, 29, 35, 34, 28, 28, 27, 28, 27, 33, 31>>,
  <<18, 26, 22, 16, 20, 12, 29, 17, 18, 20, 10, 14>>,
  <<17, 17, 11, 16, 16, 13, 13, 14>>,
  <<31, 22, 26, 6, 30, 13, 25, 22, 21, 34, 16, 6, 22, 32, 9, 14, 14, 7, 25, 6, 17, 25, 18, 23, 12, 21, 13, 29, 24, 33, 9, 20, 24, 17, 10, 22, 38, 22, 8, 31, 29, 25, 28, 28, 25, 13, 15, 22, 26, 11, 23, 15, 12, 17, 13, 12, 21, 14, 21, 22, 11, 12, 19, 12, 25, 24>>,
  <<19, 37, 25, 31, 31, 30, 34, 22, 26, 25, 23, 17, 27, 22, 21, 21, 27, 23, 15, 18, 14, 30, 40, 10, 38, 24, 22, 17, 32, 24, 40, 44, 26, 22, 19, 32, 21, 28, 18, 16, 18, 22, 13, 30, 5, 28, 7, 47, 39, 46, 64, 34>>,
  <<22, 22, 66, 22, 22>>,
  <<28, 10, 27, 17, 17, 14, 27, 18, 11, 22, 25, 28, 23, 23, 8, 63, 24, 32, 14, 49, 32, 31, 49, 27, 17, 21, 36, 26, 21, 26, 18, 32, 33, 31, 15, 38, 28, 23, 29, 49, 26, 20, 27, 31, 25, 24, 23, 35>>,
  <<21, 49, 30, 37, 31, 28, 28, 27, 27, 21, 45, 13>>,
  <<11, 23, 5, 19, 15, 11, 16, 14, 17, 15, 12, 14, 16, 9>>,
  <<20, 32, 21>>,
  <<15, 16, 15, 13, 27, 14, 17, 14, 15>>,
  <<21>>,
  <<17, 10, 10, 11>>,
  <<16, 13, 12, 13, 15, 16, 20>>,
  <<15, 13, 19>>,
  <<17, 20, 19>>,
  <<18, 15, 20>>,
  <<15, 23>>,
  <<21, 13, 10, 14, 11, 15, 14, 23, 17, 12, 17, 14, 9, 21>>,
  <<14, 17, 18, 6>>,
  <<25, 23, 17, 25, 48, 34, 29, 34, 38, 42, 30, 50, 58, 36, 39, 28, 27, 35, 30, 34, 46, 46, 39, 51, 46, 75, 66, 20>>,
  <<45, 28, 35, 41, 43, 56, 37, 38, 50, 52, 33, 44, 37, 72, 47, 20>>,
  <<80, 52, 38, 44, 39, 49, 50, 56, 62, 42, 54, 59, 35, 35, 32, 31, 37, 43, 48, 47, 38, 71, 56, 53>>,
  <<51, 25, 36, 54, 47, 71, 53, 59, 41, 42, 57, 50, 38, 31, 27, 33, 26, 40, 42, 31, 25>>,
  <<26, 47, 26, 37, 42, 15, 60, 40, 43, 48, 30, 25, 52, 28, 41, 40, 34, 28, 41, 38, 40, 30, 35, 27, 27, 32, 44, 31>>,
  <<32, 29, 31, 25, 21, 23, 25, 39, 33, 21, 36, 21, 14, 23, 33, 27>>,
  <<31, 16, 23, 21, 13, 20, 40, 13, 27, 33, 34, 31, 13, 40, 58, 24>>,
  <<24, 17, 18, 18, 21, 18, 16, 24, 15, 18, 33, 21, 14>>,
  <<24, 21, 29, 31, 26, 18>>,
  <<23, 22, 21, 32, 33, 24>>,
  <<30, 30, 21, 23>>,
  <<29, 23, 25, 18>>,
  <<10, 20, 13, 18, 28>>,
  <<12, 17, 18>>,
  <<20, 15, 16, 16, 25, 21>>,
  <<18, 26, 17, 22>>,
  <<16, 15, 15>>,
  <<25>>,
  <<14, 18, 19, 16, 14, 20, 28, 13, 28, 39, 40, 29, 25>>,
  <<27, 26, 18, 17, 20>>,
  <<25, 25, 22, 19, 14>>,
  <<21, 22, 18>>,
  <<10, 29, 24, 21, 21>>,
  <<13>>,
  <<14>>,
  <<25>>,
  <<20, 29, 22, 11, 14, 17, 17, 13, 21, 11, 19, 17, 18, 20, 8, 21, 18, 24, 21, 15, 27, 21>> >>

PsalmsWithVerse0 == {3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 34, 35, 36, 37, 38, 39, 40, 41, 42, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 92, 98, 100, 101, 102, 103, 108, 109, 110, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 138, 139, 140, 141, 142, 143, 144, 145}
DefV0 == [b \in 1..NBooks |-> IF b = 19 THEN PsalmsWithVerse0 ELSE {}]

DefNames == <<
  <<"Gen", "Genesis", 2, <<"Gn">>>>,
  <<"Exod", "Exodus", 2, <<>>>>,
  <<"Lev", "Leviticus", 2, <<"Lv">>>>,
  <<"Num", "Numbers", 2, <<"Nm", "Nb">>>>,
  <<"Deut", "Deuteronomy", 2, <<"Dt">>>>,
  <<"Josh", "Joshua", 3, <<"Js", "Jsh">>>>,
  <<"Judg", "Judges", 4, <<"Jg", "Jdg", "Jdgs">>>>,
  <<"Ruth", "Ruth", 2, <<"Ruth">>>>,
  <<"1Sam", "1 Samuel", 1, <<"1 Sm">>>>,
  <<"2Sam", "2 Samuel", 1, <<"2 Sm">>>>,
  <<"1Kgs", "1 Kings", 1, <<"1 Kg", "1 Kgs">>>>,
  <<"2Kgs", "2 Kings", 1, <<"2 Kg", "2 Kgs">>>>,
  <<"1Chr", "1 Chronicles", 2, <<>>>>,
  <<"2Chr", "2 Chronicles", 2, <<>>>>,
  <<"Ezra", "Ezra", 3, <<>>>>,
  <<"Neh", "Nehemiah", 2, <<>>>>,
  <<"Esth", "Esther", 2, <<>>>>,
  <<"Job", "Job", 3, <<"Jb">>>>,
  <<"Psa", "Psalms", 2, <<"Pslm", "Psm", "Pss">>>>,
  <<"Prov", "Proverbs", 2, <<"Prv">>>>,
  <<"Eccl", "Ecclesiastes", 2, <<>>>>,
  <<"Song", "Song of Songs", 2, <<"Song of Sol", "Song of Solo", "Song of Solomon", "SOS">>>>,
  <<"Isa", "Isaiah", 2, <<>>>>,
  <<"Jer", "Jeremiah", 2, <<"Jr">>>>,
  <<"Lam", "Lamentations", 2, <<>>>>,
  <<"Ezek", "Ezekiel", 3, <<"Ezk">>>>,
  <<"Dan", "Daniel", 2, <<"Dn">>>>,
  <<"Hos", "Hosea", 2, <<>>>>,
  <<"Joel", "Joel", 3, <<"Jl">>>>,
  <<"Amos", "Amos", 2, <<>>>>,
  <<"Obad", "Obadiah", 2, <<"Obd">>>>,
  <<"Jona", "Jonah", 3, <<"Jnh">>>>,
  <<"Mic", "Micah", 2, <<"Mc">>>>,
  <<"Nah", "Nahum", 2, <<>>>>,
  <<"Hab", "Habakkuk", 3, <<"Hbk">>>>,
  <<"Zeph", "Zephaniah", 3, <<"Zp", "Zph">>>>,
  <<"Hag", "Haggai", 3, <<"Hg">>>>,
  <<"Zech", "Zechariah", 3, <<"Zc">>>>,
  <<"Mal", "Malachi", 3, <<"Ml">>>>,
  <<"Matt", "Matthew", 3, <<"Mt">>>>,
  <<"Mark", "Mark", 3, <<"Mk", "Mrk">>>>,
  <<"Luke", "Luke", 2, <<"Lk">>>>,
  <<"John", "John", 3, <<"Jn", "Jhn">>>>,
  <<"Acts", "Acts", 2, <<>>>>,
  <<"Rom", "Romans", 2, <<"Rm">>>>,
  <<"1Cor", "1 Corinthians", 2, <<>>>>,
  <<"2Cor", "2 Corinthians", 2, <<>>>>,
  <<"Gal", "Galatians", 2, <<>>>>,
  <<"Eph", "Ephesians", 2, <<>>>>,
  <<"Phil", "Philippians", 4, <<"Pp", "Php">>>>,
  <<"Col", "Colossians", 2, <<>>>>,
  <<"1Th", "1 Thessalonians", 2, <<"1 Ths">>>>,
  <<"2Th", "2 Thessalonians", 2, <<"2 Ths">>>>,
  <<"1Tim", "1 Timothy", 2, <<>>>>,
  <<"2Tim", "2 Timothy", 2, <<>>>>,
  <<"Tit", "Titus", 2, <<>>>>,
  <<"Phlm", "Philemon", 5, <<"Pm", "Phm", "Phlm">>>>,
  <<"Heb", "Hebrews", 2, <<>>>>,
  <<"Jam", "James", 2, <<"Jm", "Jas">>>>,
  <<"1Pet", "1 Peter", 1, <<"1 Pt">>>>,
  <<"2Pet", "2 Peter", 1, <<"2 Pt">>>>,
  <<"1Jn", "1 John", 1, <<"1 Jn", "1 Jhn">>>>,
  <<"2Jn", "2 John", 1, <<"2 Jn", "2 Jhn">>>>,
  <<"3Jn", "3 John", 1, <<"3 Jn", "3 Jhn">>>>,
  <<"Jude", "Jude", 4, <<>>>>,
  <<"Rev", "Revelation", 2, <<"The Revelation", "The Revelation to John">>>> >>

\* The same names without spaces.
DefAbbrevNS == <<"Gen", "Exod", "Lev", "Num", "Deut", "Josh", "Judg", "Ruth", "1Sam", "2Sam", "1Kgs", "2Kgs", "1Chr", "2Chr", "Ezra", "Neh", "Esth", "Job", "Psa", "Prov", "Eccl", "Song", "Isa", "Jer", "Lam", "Ezek", "Dan", "Hos", "Joel", "Amos", "Obad", "Jona", "Mic", "Nah", "Hab", "Zeph", "Hag", "Zech", "Mal", "Matt", "Mark", "Luke", "John", "Acts", "Rom", "1Cor", "2Cor", "Gal", "Eph", "Phil", "Col", "1Th", "2Th", "1Tim", "2Tim", "Tit", "Phlm", "Heb", "Jam", "1Pet", "2Pet", "1Jn", "2Jn", "3Jn", "Jude", "Rev">>
DefTitleNS == <<"Genesis", "Exodus", "Leviticus", "Numbers", "Deuteronomy", "Joshua", "Judges", "Ruth", "1Samuel", "2Samuel", "1Kings", "2Kings", "1Chronicles", "2Chronicles", "Ezra", "Nehemiah", "Esther", "Job", "Psalms", "Proverbs", "Ecclesiastes", "SongofSongs", "Isaiah", "Jeremiah", "Lamentations", "Ezekiel", "Daniel", "Hosea", "Joel", "Amos", "Obadiah", "Jonah", "Micah", "Nahum", "Habakkuk", "Zephaniah", "Haggai", "Zechariah", "Malachi", "Matthew", "Mark", "Luke", "John", "Acts", "Romans", "1Corinthians", "2Corinthians", "Galatians", "Ephesians", "Philippians", "Colossians", "1Thessalonians", "2Thessalonians", "1Timothy", "2Timothy", "Titus", "Philemon", "Hebrews", "James", "1Peter", "2Peter", "1John", "2John", "3John", "Jude", "Revelation">>

\* Titles (without their numeric prefix, kept in DefPrefix) and extra abbreviations, letter by letter in lower case.
DefPrefix == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 1, 2, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 0, 0, 0, 0, 1, 2, 1, 2, 0, 0, 0, 0, 1, 2, 1, 2, 3, 0, 0>>
DefTitleChars == <<
  <<"g", "e", "n", "e", "s", "i", "s">>,
  <<"e", "x", "o", "d", "u", "s">>,
  <<"l", "e", "v", "i", "t", "i", "c", "u", "s">>,
  <<"n", "u", "m", "b", "e", "r", "s">>,
  <<"d", "e", "u", "t", "e", "r", "o", "n", "o", "m", "y">>,
  <<"j", "o", "s", "h", "u", "a">>,
  <<"j", "u", "d", "g", "e", "s">>,
  <<"r", "u", "t", "h">>,
  <<"s", "a", "m", "u", "e", "l">>,
  <<"s", "a", "m", "u", "e", "l">>,
  <<"k", "i", "n", "g", "s">>,
  <<"k", "i", "n", "g", "s">>,
  <<"c", "h", "r", "o", "n", "i", "c", "l", "e", "s">>,
  <<"c", "h", "r", "o", "n", "i", "c", "l", "e", "s">>,
  <<"e", "z", "r", "a">>,
  <<"n", "e", "h", "e", "m", "i", "a", "h">>,
  <<"e", "s", "t", "h", "e", "r">>,
  <<"j", "o", "b">>,
  <<"p", "s", "a", "l", "m", "s">>,
  <<"p", "r", "o", "v", "e", "r", "b", "s">>,
  <<"e", "c", "c", "l", "e", "s", "i", "a", "s", "t", "e", "s">>,
  <<"s", "o", "n", "g", " ", "o", "f", " ", "s", "o", "n", "g", "s">>,
  <<"i", "s", "a", "i", "a", "h">>,
  <<"j", "e", "r", "e", "m", "i", "a", "h">>,
  <<"l", "a", "m", "e", "n", "t", "a", "t", "i", "o", "n", "s">>,
  <<"e", "z", "e", "k", "i", "e", "l">>,
  <<"d", "a", "n", "i", "e", "l">>,
  <<"h", "o", "s", "e", "a">>,
  <<"j", "o", "e", "l">>,
  <<"a", "m", "o", "s">>,
  <<"o", "b", "a", "d", "i", "a", "h">>,
  <<"j", "o", "n", "a", "h">>,
  <<"m", "i", "c", "a", "h">>,
  <<"n", "a", "h", "u", "m">>,
  <<"h", "a", "b", "a", "k", "k", "u", "k">>,
  <<"z", "e", "p", "h", "a", "n", "i", "a", "h">>,
  <<"h", "a", "g", "g", "a", "i">>,
  <<"z", "e", "c", "h", "a", "r", "i", "a", "h">>,
  <<"m", "a", "l", "a", "c", "h", "i">>,
  <<"m", "a", "t", "t", "h", "e", "w">>,
  <<"m", "a", "r", "k">>,
  <<"l", "u", "k", "e">>,
  <<"j", "o", "h", "n">>,
  <<"a", "c", "t", "s">>,
  <<"r", "o", "m", "a", "n", "s">>,
  <<"c", "o", "r", "i", "n", "t", "h", "i", "a", "n", "s">>,
  <<"c", "o", "r", "i", "n", "t", "h", "i", "a", "n", "s">>,
  <<"g", "a", "l", "a", "t", "i", "a", "n", "s">>,
  <<"e", "p", "h", "e", "s", "i", "a", "n", "s">>,
  <<"p", "h", "i", "l", "i", "p", "p", "i", "a", "n", "s">>,
  <<"c", "o", "l", "o", "s", "s", "i", "a", "n", "s">>,
  <<"t", "h", "e", "s", "s", "a", "l", "o", "n", "i", "a", "n", "s">>,
  <<"t", "h", "e", "s", "s", "a", "l", "o", "n", "i", "a", "n", "s">>,
  <<"t", "i", "m", "o", "t", "h", "y">>,
  <<"t", "i", "m", "o", "t", "h", "y">>,
  <<"t", "i", "t", "u", "s">>,
  <<"p", "h", "i", "l", "e", "m", "o", "n">>,
  <<"h", "e", "b", "r", "e", "w", "s">>,
  <<"j", "a", "m", "e", "s">>,
  <<"p", "e", "t", "e", "r">>,
  <<"p", "e", "t", "e", "r">>,
  <<"j", "o", "h", "n">>,
  <<"j", "o", "h", "n">>,
  <<"j", "o", "h", "n">>,
  <<"j", "u", "d", "e">>,
  <<"r", "e", "v", "e", "l", "a", "t", "i", "o", "n">> >>
DefExtraChars == <<
  <<<<"g", "n">>>>,
  <<>>,
  <<<<"l", "v">>>>,
  <<<<"n", "m">>, <<"n", "b">>>>,
  <<<<"d", "t">>>>,
  <<<<"j", "s">>, <<"j", "s", "h">>>>,
  <<<<"j", "g">>, <<"j", "d", "g">>, <<"j", "d", "g", "s">>>>,
  <<<<"r", "u", "t", "h">>>>,
  <<<<"1", " ", "s", "m">>>>,
  <<<<"2", " ", "s", "m">>>>,
  <<<<"1", " ", "k", "g">>, <<"1", " ", "k", "g", "s">>>>,
  <<<<"2", " ", "k", "g">>, <<"2", " ", "k", "g", "s">>>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<<<"j", "b">>>>,
  <<<<"p", "s", "l", "m">>, <<"p", "s", "m">>, <<"p", "s", "s">>>>,
  <<<<"p", "r", "v">>>>,
  <<>>,
  <<<<"s", "o", "n", "g", " ", "o", "f", " ", "s", "o", "l">>, <<"s", "o", "n", "g", " ", "o", "f", " ", "s", "o", "l", "o">>, <<"s", "o", "n", "g", " ", "o", "f", " ", "s", "o", "l", "o", "m", "o", "n">>, <<"s", "o", "s">>>>,
  <<>>,
  <<<<"j", "r">>>>,
  <<>>,
  <<<<"e", "z", "k">>>>,
  <<<<"d", "n">>>>,
  <<>>,
  <<<<"j", "l">>>>,
  <<>>,
  <<<<"o", "b", "d">>>>,
  <<<<"j", "n", "h">>>>,
  <<<<"m", "c">>>>,
  <<>>,
  <<<<"h", "b", "k">>>>,
  <<<<"z", "p">>, <<"z", "p", "h">>>>,
  <<<<"h", "g">>>>,
  <<<<"z", "c">>>>,
  <<<<"m", "l">>>>,
  <<<<"m", "t">>>>,
  <<<<"m", "k">>, <<"m", "r", "k">>>>,
  <<<<"l", "k">>>>,
  <<<<"j", "n">>, <<"j", "h", "n">>>>,
  <<>>,
  <<<<"r", "m">>>>,
  <<>>,
  <<>>,
  <<>>,
  <<>>,
  <<<<"p", "p">>, <<"p", "h", "p">>>>,
  <<>>,
  <<<<"1", " ", "t", "h", "s">>>>,
  <<<<"2", " ", "t", "h", "s">>>>,
  <<>>,
  <<>>,
  <<>>,
  <<<<"p", "m">>, <<"p", "h", "m">>, <<"p", "h", "l", "m">>>>,
  <<>>,
  <<<<"j", "m">>, <<"j", "a", "s">>>>,
  <<<<"1", " ", "p", "t">>>>,
  <<<<"2", " ", "p", "t">>>>,
  <<<<"1", " ", "j", "n">>, <<"1", " ", "j", "h", "n">>>>,
  <<<<"2", " ", "j", "n">>, <<"2", " ", "j", "h", "n">>>>,
  <<<<"3", " ", "j", "n">>, <<"3", " ", "j", "h", "n">>>>,
  <<>>,
  <<<<"t", "h", "e", " ", "r", "e", "v", "e", "l", "a", "t", "i", "o", "n">>, <<"t", "h", "e", " ", "r", "e", "v", "e", "l", "a", "t", "i", "o", "n", " ", "t", "o", " ", "j", "o", "h", "n">>>> >>

================================================================================
