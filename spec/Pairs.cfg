CONSTANT Case <- CaseOfVariant
INIT Init
NEXT PairsNext
INVARIANT Alike
CHECK_DEADLOCK FALSE
