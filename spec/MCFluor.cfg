SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Wide = FALSE
INVARIANTS InvSane InvRays InvRequests InvOrders InvCut
VIEW State
CHECK_DEADLOCK FALSE
