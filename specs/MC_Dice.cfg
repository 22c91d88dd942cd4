SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
CONSTANTS MaxSteps = 5
 MaxModels = 2
 Scripts = TRUE
INVARIANTS Inv InputsKept Bounds
PROPERTIES RunAsFresh StepsAsRun Apart
