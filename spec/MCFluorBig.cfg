SPECIFICATION Spec
CONSTANT Depth = 5
CONSTANT Wide = TRUE
INVARIANTS InvSane InvRays InvRequests InvOrders InvCut
VIEW State
CHECK_DEADLOCK FALSE
