SPECIFICATION Spec
CONSTANTS Energies = {1, 2, 3}
 Capacity = 2
 MaxVersion = 2
 MaxOps = 6
INVARIANTS Transparent Bounded
PROPERTY YieldsNeverStale
CHECK_DEADLOCK FALSE
