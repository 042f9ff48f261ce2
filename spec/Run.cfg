CONSTANT Case <- CaseOfFile
INIT Init
NEXT RunNext
INVARIANT Holds
PROPERTY Goes
CHECK_DEADLOCK FALSE
