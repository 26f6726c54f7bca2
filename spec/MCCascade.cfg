CONSTANTS Rates = {"0.0", "3.0"}
SPECIFICATION Spec
INVARIANTS InvLinear InvOutwards InvRates InvEnergies
CHECK_DEADLOCK FALSE
