"""Writes ../properties.jsonl."""
import json, os
REF, UTIL, PARSER, DATA = ("src/bibleref/%s.py" % x for x in ("ref", "util", "parser", "data"))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


I, H, C, S = "inputs", "histories", "configurations", "schedules"

prop("C01", "Books, chapters and verses follow the installed versification exactly",
     "For every book, chapter and flag setting, the numbers of chapters and verses, the first and last verses, the book order and the neighbouring books are exactly those of the installed Bible data, and asking about a chapter that does not exist is an invalid-reference error. A verse can be constructed if and only if it exists in that data, where a verse 0 exists only in the configured chapters and only while verse 0 is allowed by the flags. The default data is the conventional versification of 66 books and 1189 chapters, with verse 0s for the Psalms that have a superscription.",
     [I, C], "all books, chapters and verse numbers (existing or not), all flag settings, any book order and chapter sizes",
     "The tests construct a few dozen verses; a wrong size or verse-0 entry for one of 1189 chapters, or a boundary slip under one flag setting, passes them.",
     [REF, DATA], [("BibleBook.min/max_chap_num, min/max_verse_num, first/last_verse, next, prev", REF), ("BibleVerse.__init__", REF), ("default_max_verses, default_verse_0s, default_book_order", DATA)],
     ["BibleBook methods", "BibleVerse constructor and methods"])

prop("C02", "Comparison, equality and hashing of references agree with reading order",
     "Books, verses and ranges are totally ordered by their place in the configured reading order (ranges by start, then by end); all six comparison operators agree with that order, equal references have equal hashes however they were made, and verses and ranges cannot be modified. Two lists of ranges are equal exactly if they hold equal ranges in equal groups or, when groups are ignored, equal ranges in the same order.",
     [I, C], "all pairs of books, verses, ranges and lists, in any book order",
     "The tests compare a handful of pairs; order axioms are statements about all pairs and triples.",
     [REF, UTIL], [("dataclass ordering of BibleVerse and BibleRange", REF), ("BibleBook.__lt__ ... __ge__", REF), ("GroupedList.equals", UTIL)],
     ["comparison operators", "hash()", "equals()"])

prop("C03", "Verse addition, subtraction and difference follow the reading order exactly",
     "Adding or subtracting a number of verses gives exactly the verse that many places later or earlier in the reading order, or nothing if that leaves the Bible or, without the multi-book flag, the book. The difference of two verses is the signed number of places between them, an error for verses of different books unless multi-book ranges are allowed. A verse 0 counts as a verse exactly if the flags allow it or an operand is itself a verse 0.",
     [I, C], "all verses, all step sizes, all flag settings (given as argument or globally), any versification",
     "The tests try some steps in a few books; off-by-one errors at particular chapter, book or verse-0 boundaries or for steps over several books escape them.",
     [REF], [("BibleVerse.add, subtract, __add__, __sub__", REF)], ["BibleVerse.add/subtract and + -"])

prop("C04", "Range construction spans exactly what its arguments denote, or is refused",
     "A range made from two verses, or from any combination of start and end books, chapters and verses with some of them omitted, spans exactly the verses that these arguments denote, with start and end swapped as a whole if they are the wrong way round. Where parts are omitted the whole of the named book or chapter is meant. Parts that do not exist raise an invalid-reference error, and a range across books raises the multi-book error unless multi-book ranges are allowed.",
     [I, C], "all combinations of given/omitted/non-existing start and end parts, all flag settings",
     "There are thousands of argument patterns per book pair; the tests cover about thirty.",
     [REF], [("BibleRange.__init__", REF)], ["BibleRange constructor"])

prop("C05", "Iterating and counting a range visit exactly the verses it spans",
     "Iterating over a range yields every verse from its start to its end exactly once, in reading order, across chapters and books, and nothing else. The verse, chapter and book counts of a range are the numbers of verses, chapters and books it touches (only those completely inside it, when whole ones are asked for), and the counts of a list are the sums over its ranges. Multi-book ranges that exist are iterated and counted correctly even while the flags would not allow making them.",
     [I, C], "all ranges and lists, all flag settings, any versification",
     "The tests count and iterate over a few ranges; counts go wrong only at particular combinations of partial chapters, one-chapter books and verse 0s.",
     [REF], [("BibleRange.__iter__, verse_count, chap_count, book_count", REF), ("BibleRangeList counts", REF)], ["iteration", "verse_count/chap_count/book_count"])

prop("C06", "Splitting a range partitions it exactly at the requested boundaries",
     "Splitting a range yields consecutive ranges that together cover exactly its verses in order, without gap or overlap. It is cut after every book end and every chapter end that was asked for and wherever a piece reaches the verse limit, and nowhere else. A verse limit below 1 is refused, and the pieces are put into their conventional groups unless that is declined.",
     [I, C], "all ranges (including multi-book), all combinations of split settings and flags",
     "The number of combinations of range shape, settings and limit is large, and the tests use a dozen.",
     [REF], [("BibleRange.split", REF)], ["BibleRange.split()", "BibleBook.chap_ranges()"])

prop("C07", "Disjoint, contains, surrounds and adjacent mean what they say for all operands",
     "Two references are disjoint exactly if they share no verse; one contains another exactly if it has all of its verses; a range surrounds a reference exactly if all of that lies strictly between the range's first and last verse. A range is adjacent to another exactly if they are disjoint and one starts at the verse right after the other ends (which can be in another book only while multi-book ranges are allowed), and adjacent to a list if it is disjoint from all of it and adjacent to one of its ranges. This holds for verses, ranges and lists in any combination, sorted or not, overlapping or not.",
     [I, C], "all pairs of verses, ranges and lists, all flag settings",
     "The tests check some pairs; each predicate is a statement about all relative positions of two references.",
     [REF], [("BibleRange.is_disjoint, is_adjacent, contains, surrounds", REF), ("BibleRangeList.is_disjoint, contains", REF)], ["predicate methods", "in operator"])

prop("C08", "Union, intersection, difference and symmetric difference are exact set algebra",
     "For any verses, ranges and lists, the result of each of the four set operations holds exactly the verses that set theory says, as a sorted list of disjoint, non-adjacent ranges. Ranges of different books are joined only while multi-book ranges are allowed or where an operand already joins them. The operands are left as they were.",
     [I, C], "all pairs of operands of any type (unsorted, overlapping, empty lists included), all flag settings, methods and operators",
     "The tests use about a hundred operand pairs; correctness is needed for every relative position of every range of both operands, across chapters, books and verse 0s.",
     [REF], [("BibleRange/BibleRangeList.union, intersection, difference, sym_difference", REF), ("BibleRangeList.merge", REF)], ["union/intersection/difference/sym_difference", "| & - ^"])

prop("C09", "In-place set operations and merging do what their pure forms do",
     "An in-place set operation (method or assignment operator) leaves in the same list object exactly the result of the corresponding pure operation, conventionally grouped, and leaves the other operand as it was, also when the list itself is the other operand. Merging a list leaves the smallest sorted list of disjoint, non-adjacent ranges with the same verses.",
     [I, H], "all lists and operands of any type, all flag settings",
     "The tests apply in-place operations to a few lists only; node surgery during iteration fails for particular shapes.",
     [REF, UTIL], [("BibleRangeList.union_update, intersection_update, difference_update, sym_difference_update, merge", REF)], ["*_update methods", "|= &= -= ^=", "merge()"])

prop("C10", "A grouped list is a list whose groups always partition it, after any history",
     "After any sequence of operations, iterating forwards or backwards, indexing, length and the groups all describe the same sequence: the groups are non-empty and, in order, concatenate to the list. Every operation (append, prepend, insert, extend, add a group, start a group at an index, pop, delete, remove, assign, clear, clear groups, copy, search) has exactly its list meaning, values join the group they are put into, and removing the first item of a group leaves the rest of the group in place. A failing operation raises the documented error and changes nothing.",
     [H, I], "all sequences of operations with all indexes, valid or not",
     "Linked-list surgery is right or wrong per combination of position, group boundary and history; the tests run a few dozen short sequences.",
     [UTIL], [("GroupedList._insert_before, _insert_after, _pop_node, _insert_new_group_*", UTIL)], ["GroupedList and BibleRangeList public methods"],
     [("items", "values with a mark where a group starts", UTIL)])

prop("C11", "A group view shows and edits its group live, and fails once the group is gone",
     "A group view handed out earlier shows exactly the current items of its group, and reading, assigning or deleting through it has the same effect as doing so through the list. Once the item that the group started with has left the list or no longer starts a group, every use of the view raises the group-view error instead of showing or changing anything.",
     [H], "all sequences of list operations interleaved with uses of any number of views",
     "The tests use views immediately after making them; staleness depends on the history between taking and using a view.",
     [UTIL], [("GroupedList.GroupView._check_group_head, __getitem__, __setitem__, __delitem__", UTIL)], ["groups[...] views"],
     [("view anchor", "the item that a view's group starts with", UTIL)])

prop("C12", "Sorting is stable and correct at any length; reversing is exact",
     "Sorting a list leaves a permutation of its items in ascending order in which equal items keep their order, for lists of any length, in one single group (then conventionally regrouped for lists of ranges, unless declined). Reversing leaves exactly the opposite order in one group. Afterwards the list works as any other list does.",
     [I, H], "lists of all lengths (empty to many thousands), all key patterns (runs, duplicates, reversed), any previous grouping",
     "The tests sort a few short lists; deep recursion, unstable merges and broken links show up only for particular lengths and key patterns.",
     [UTIL, REF], [("GroupedList.sort, _merge_sort, _split, _merge_sublists, reverse", UTIL), ("BibleRangeList.sort", REF)], ["sort()", "reverse()"])

prop("C13", "The text of any verse or range parses back to the same verse or range",
     "For every verse and range that the flags allow, and every combination of text options, parsing the text gives back an equal verse or range. With the no-space option the text has no white space, and the chosen verse separator is the only one used.",
     [I, C], "all verses and ranges, all text options, all flag settings, any versification",
     "A range's text depends on whole chapters, whole books, one-chapter books and book changes at both ends; the tests check some examples.",
     [REF, PARSER], [("BibleVerse.str, BibleRange.str", REF), ("grammar and transformer", PARSER)], ["str() then constructor from string"])

prop("C14", "The text of any list parses back to the same ranges in the same groups",
     "For every non-empty list of ranges that the flags allow and every combination of text options, parsing the list's text gives back an equal list, with the same groups when groups are preserved and at least the same ranges in the same order when they are not.",
     [I, C], "all lists and groupings, all text options, all flag settings, any versification",
     "What may be left out of the text of a range depends on all the ranges before it; the tests cover a small part of those contexts.",
     [REF, PARSER], [("BibleRangeList.str", REF), ("_BibleRefTransformer", PARSER)], ["BibleRangeList.str() then BibleRangeList(string)"])

prop("C15", "Every well-formed reference string is parsed to exactly what it means",
     "In a reference string, each reference means what the context so far makes it mean: a bare number is a verse after a verse and a chapter otherwise, a major separator returns to chapters and starts a new group, a minor separator continues both, numbers after a one-chapter book are verses, and the two ends of a range may be written in either order. If a reference does not exist, or a range is across books and that is not allowed, parsing raises a parsing error whose position is exactly that reference in the string. White space, letter case, the alternative verse separator and a trailing list separator make no difference; the constructors of a single verse or range accept exactly the strings that mean one.",
     [I, C], "all sentences of the reference grammar, any book names, spacing and separators, all flag settings",
     "The grammar generates infinitely many strings whose meaning depends on context; the tests check a few dozen.",
     [PARSER, REF], [("_BibleRefTransformer", PARSER), ("grammar in _recreate_parser", PARSER)], ["BibleRangeList/BibleRange/BibleVerse constructors from a string"],
     [("parse context", "current book, current chapter, whether bare numbers are verses", PARSER)])

prop("C16", "Parsing is total and depends on nothing but the string, flags and settings",
     "Parsing any string at all either gives a non-empty list of ranges that exist and that the flags allow, or raises the parsing error with a position inside the string; never another exception. The outcome for a string is the same whatever was parsed before, successfully or not, and whatever is being parsed at the same time in other threads.",
     [I, H, S], "all strings, all histories of earlier parses including failing ones, all interleavings of concurrent parses",
     "The tests parse well-formed strings one after the other in one thread.",
     [PARSER], [("_parse", PARSER), ("_BibleRefTransformer state", PARSER)], ["constructors from a string"],
     [("parser singleton", "shared by all parses", PARSER)])

prop("C17", "Book names are recognised exactly as documented",
     "A string names a book exactly if, apart from letter case and surrounding white space, it is one of the book's extra abbreviations or a beginning of its title that has at least the book's minimum number of characters, with any amount of white space where these have a space. A numeric prefix may be written 1, 2, 3 with or without white space, or I, II, III followed by white space. Anything else is no book (none, or an invalid-reference error if asked for), and every book's own title and abbreviation name that book.",
     [I, C], "all strings, all books, any installed names",
     "There are hundreds of accepted prefixes and their near-misses; the tests try some per book.",
     [DATA, REF], [("BibleData._set_regexes", DATA), ("BibleBook.from_str", REF), ("default_name_data", DATA)], ["BibleBook.from_str", "book names in strings and constructors"])

prop("C18", "An explicit flags argument overrides the global flags, for that call only",
     "For every method that takes flags, the outcome with an explicit flags argument (including one with no flag set) is the same whatever the global flags are, and without one it is the outcome for the global flags of that moment. No call, successful or failing, changes the global flags.",
     [I, H], "all methods that take flags, all combinations of global and explicit flags, all histories of changes of the global flags",
     "The tests set the global flags once per test and rarely pass a contradicting argument.",
     [REF, PARSER], [("flags resolution in every method", REF)], ["all methods with a flags argument", "bibleref.flags"],
     [("bibleref.flags", "global flags", "src/bibleref/__init__.py")])

prop("C19", "Reconfiguration takes effect completely and at once, in any order",
     "After any history of changes to the book order, chapter sizes, verse-0 chapters, book names and separators through the Bible data object, every operation behaves exactly as for the settings now installed, with nothing left over from earlier ones. This includes going back to the defaults, and settings read back are the ones installed.",
     [H, C], "all histories of setting changes interleaved with calls",
     "The tests change each setting at most once and look at one consequence.",
     [DATA, PARSER, REF], [("BibleData property setters", DATA), ("_recreate_parser", PARSER)], ["bible_data() properties followed by any call"],
     [("BibleData singleton", "installed settings", DATA)])

prop("C20", "Regrouping gives exactly the groups that the conventional text has",
     "Regrouping changes no range and no order, whatever the previous groups. Two neighbouring ranges are in one group exactly if the earlier one ends at verse level and the later one lies within that same chapter without covering it from its first verse to its last. These are the groups that one gets by parsing the list's conventional text.",
     [I, C], "all lists, all flag settings, any versification",
     "The rule is implemented twice (text and regrouping), and the tests compare the two for a few lists.",
     [REF], [("BibleRangeList.regroup", REF), ("BibleRangeList.str(preserve_groups=False)", REF)], ["regroup()", "str(preserve_groups=False)"])

prop("C21", "Converting between verse 0 and verse 1 changes exactly the verses concerned",
     "Converting verse 0 to 1 turns every verse 0 into the verse 1 of its chapter and changes nothing else; converting 1 to 0 turns every verse 1 of a chapter that can have a verse 0 into that verse 0 and changes nothing else, whatever the global flags. For ranges this applies to both ends, for lists in place to all ranges with the groups kept.",
     [I, C], "all verses, ranges (including multi-book) and lists, all flag settings",
     "The tests convert a few Psalms.",
     [REF], [("verse_0_to_1, verse_1_to_0", REF)], ["verse_0_to_1()", "verse_1_to_0()"])

prop("C22", "Chapter and book expansion and the shape predicates are exact",
     "The chapter (book) range of a verse, range or list is the smallest range that includes it and begins and ends at chapter (book) boundaries, and a list's range the smallest that includes all its verses; the whole-Bible range runs from the first to the last verse in the configured order. The predicates single verse, whole chapter, whole book and includes the whole first/last chapter/book are true exactly when the range has that shape.",
     [I, C], "all verses, ranges and lists (unsorted and overlapping included), all flag settings, any versification",
     "The tests check few shapes; unsorted lists with nested ranges, one-chapter books and verse-0 chapters are the difficult ones.",
     [REF], [("chap_range, book_range, range, whole_bible", REF), ("is_whole_*, spans_*", REF)], ["expansion methods", "shape predicates"])

prop("C23", "The text of a reference is the shortest conventional form",
     "The text of a verse, range or list names a book, chapter or verse only where the conventional form needs it: whole books and chapters are written without verses, the chapter of a one-chapter book is never written, the end of a range and later ranges of a list repeat nothing that is already given. The options for abbreviated names, alternative separator, no spaces, kept groups and forced start verses change exactly what they say.",
     [I, C], "all references, all text options, all flag settings, any versification and separators",
     "The exact text depends on shape, context and options; the tests pin a few dozen strings.",
     [REF], [("BibleVerse.str, BibleRange.str, BibleRangeList.str", REF)], ["str()", "repr()"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
