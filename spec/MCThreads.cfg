SPECIFICATION MSpec
CONSTANTS
 Thr = {1, 2}
 Calls = 2
 L = 2
 Hidden = "none"
INVARIANTS NoRace ResultsAlone SharedKept
PROPERTY Refines
CHECK_DEADLOCK FALSE
