"""What decides each property."""
N_TRACE = ("Every call recorded from the real package is checked by TLC against the contract in the TLA+ specification; "
           "inputs are exhaustive on miniature Bibles and sampled (seeded, boundary-biased) on the full ones. "
           "Trusts the encoders in harness/core.py and TLC.")
PLAN = {p: dict(level="model_checking", note=N_TRACE) for p in
        ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C13 C14 C20 C21 C22 C23 C24").split()}

N_GL = ("TLC explores every state of the grouped-list state machine up to a bound, checks its invariants, and prints a history to each state with "
        "all operations to try there; all are replayed into the real classes and the recorded histories (and long random ones) validated by TLC.")
PLAN["C10"] = dict(level="model_checking", note=N_GL, trace="GLTrace",
                   behaviours=[dict(module="GLGen", cfg="GLGen0.cfg", tcfg="GLGen0T.cfg")])
PLAN["C11"] = dict(level="model_checking", note=N_GL, trace="GLTrace",
                   behaviours=[dict(module="GLGen", cfg="GLGen.cfg", tcfg="GLGenT.cfg")])
PLAN["C12"] = dict(level="model_checking", note=N_TRACE)
PLAN["C15"] = dict(level="model_checking", note="TLC explores the parser state machine (every reachable parse context of three miniature Bibles, all flags) and prints a "
                   "sentence leading to each context; these are continued with the whole vocabulary, written as text, parsed by the real parser, and TLC compares with the "
                   "specified meaning and error position; plus long random sentences on the full Bible.",
                   behaviours=[dict(module="ParseGen", cfg="ParseGen%d.cfg" % i) for i in (2, 3, 4)])
PLAN["C16"] = dict(level="model_checking", note=N_TRACE + " Concurrent parses: a deterministic scheduler stops one parse at every k-th line inside the package and lets another "
                   "run to its end; both outcomes must be the specified meaning of their strings.")
PLAN["C17"] = dict(level="model_checking", note=N_TRACE + " Names are ASCII strings.")
PLAN["C18"] = dict(level="model_checking", note=N_TRACE)
PLAN["C19"] = dict(level="model_checking", note="TLC generates random histories of the global-state machine (flags, book order, chapter sizes, verse-0 chapters, names, separators); "
                   "they are replayed through the public setters with calls of every kind in between, and TLC validates the recorded trace in the state the specification is in.",
                   behaviours=[dict(module="GSGen", cfg="GSGen.cfg", args=["-simulate", "num=240", "-depth", "26", "-seed", "%SEED%"],
                                    targs=["-simulate", "num=6000", "-depth", "26", "-seed", "%SEED%"])])

# Design-level laws: TLC checks that the specification itself has the properties that its definitions are meant to have.
def _law(module, cfg=None, tcfg=None):
    cfg = cfg or module
    return dict(module=module, cfg=cfg + ".cfg", tcfg=(tcfg or cfg) + ".cfg")

for _ps, _l in (("C01 C02 C03 C05 C21", _law("LawVerses")),
                ("C04 C05 C22", _law("LawRanges")),
                ("C06", _law("LawRanges", "LawSplit", "LawSplitT")),
                ("C07 C08 C09", _law("LawSets", "LawSets", "LawSetsT")),
                ("C08 C09", _law("LawSets", "LawSetsU", "LawSetsUT")),
                ("C13 C14 C20 C23", _law("LawText", "LawText", "LawTextT")),
                ("C17", _law("LawNames"))):
    for _p in _ps.split():
        PLAN[_p].setdefault("laws", []).append(_l)
