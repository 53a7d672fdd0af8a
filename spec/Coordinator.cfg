SPECIFICATION Spec
CONSTANTS MaxVer = 4
 MaxDeaths = 2
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK Backed Increasing Clean Steady
