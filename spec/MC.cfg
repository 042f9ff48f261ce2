CONSTANT Case <- CaseOfC
INIT MCInit
NEXT MCNext
INVARIANTS ObjectIsImage ObjectIffSuccess TotalsAgree LengthAgrees PassesAgree PcIsStar Bounded ScopeKnown Selected LineFits
PROPERTIES SkippedIsQuiet SkippedDefinesNothing AppendOnly CallReturns LabelsStay StarMoves OneError PageFits
