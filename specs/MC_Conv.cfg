SPECIFICATION Spec
CONSTANTS Kind = "point"
 Steps = {1,2}
 Values = 2
 TBefore = 1
 TMax = 4
 Scripts = TRUE
INVARIANTS Refused Identity Constant Linear Twice AtSource Between Kept Pieces Merge
