SPECIFICATION Spec
CONSTANTS MaxOps = 6 Dump = FALSE
VIEW View
INVARIANT RecordsOrdered LastRecord StatsMatch CountMatches
PROPERTY TimeAdvances StepBounded NoRecordMissed RequestHeeded
