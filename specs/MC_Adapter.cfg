SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
CONSTANTS MaxSteps = 7
 MaxAdapters = 1
 Scripts = TRUE
INVARIANTS Protocol Times Registry
PROPERTIES Stable
