INIT Init
NEXT Next
CONSTANT Bibles = {2, 3, 4}
INVARIANTS OrdBijection OrderIso Trichotomy Difference Steps Units ZeroEmbeds Conversions Canon
CHECK_DEADLOCK FALSE
