SPECIFICATION Spec
INVARIANTS CountRight Inside LowerIncluded UpperIffOpen Even AllCovered NonDegenerate
CHECK_DEADLOCK FALSE
