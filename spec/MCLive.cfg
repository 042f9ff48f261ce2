CONSTANT Case <- CaseOfC
SPECIFICATION MCSpec
INVARIANTS ObjectIsImage ObjectIffSuccess TotalsAgree LengthAgrees PassesAgree PcIsStar Bounded ScopeKnown Selected LineFits
PROPERTIES SkippedIsQuiet SkippedDefinesNothing AppendOnly CallReturns LabelsStay StarMoves OneError PageFits Terminates
