SPECIFICATION Spec
CONSTANTS MaxVer = 3
 MaxN = 3
INVARIANTS TypeOK InOrder Current NoInsertion
PROPERTIES NeverBack Together OnlyThen Resumes
CHECK_DEADLOCK FALSE
