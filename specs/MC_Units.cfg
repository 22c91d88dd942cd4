SPECIFICATION Spec
CONSTANTS Deep = FALSE
 Scripts = TRUE
INVARIANTS ThereAndBack Compose Apart
