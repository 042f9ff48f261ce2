INIT Init
NEXT Next
INVARIANTS Rules UsageOnlyWhenWrong OnlyTheTarget
CHECK_DEADLOCK FALSE
