SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
CONSTANTS MaxViews = 2
 MaxSteps = 4
 Tree2 = FALSE
 Scripts = TRUE
INVARIANTS Inv Coherent Sum
PROPERTIES Mine Held Publishes Quiet NoTrace Independent
