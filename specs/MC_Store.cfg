SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
CONSTANTS MaxViews = 3
 MaxWrites = 2
 Deep = FALSE
 Scripts = TRUE
INVARIANTS Inv LatestWrite EmptyUntilWritten AggregateSum
PROPERTIES Frozen NoTrace Independent
