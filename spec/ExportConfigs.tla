----------------------------- MODULE ExportConfigs -----------------------------
\* Writes the configuration tables for the conformance driver (configs.json).
EXTENDS Configs, Json, IOUtils
NameExport(n) == [b \in 1..NB |-> <<NameTables[n].abbrev[b], NameTables[n].title[b], NameTables[n].names.min[b]>>]
ASSUME JsonSerialize(IOEnv.OUT, [orders |-> Orders, maxes |-> Maxes, zeros |-> Export.zeros, ids |-> DefIds,
                                 names |-> [i \in 1..Len(NameTables) |-> NameExport(i)], extras |-> [b \in 1..NB |-> DefNames[b][4]]])
VARIABLE x
Init == x = 0
Next == x' = x
================================================================================
