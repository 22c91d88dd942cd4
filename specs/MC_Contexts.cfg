SPECIFICATION Spec
CONSTANTS MaxHistory = 2
 Scripts = TRUE
INVARIANTS Idle Alone Same
