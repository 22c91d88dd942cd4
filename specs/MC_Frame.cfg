SPECIFICATION Spec
VIEW view
ACTION_CONSTRAINT Emit
CONSTANTS Menu = "meta"
 MaxSteps = 2
 Scripts = TRUE
INVARIANTS Aligned FilterLaw AppendLaw ConvertLaw InterpolateLaw EditLaw StatisticsLaw SetLaw
PROPERTIES OnlyTarget
