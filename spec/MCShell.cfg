SPECIFICATION Spec
INVARIANTS InvFluo InvPartition InvCK InvAuger InvTransfer InvChannels
CHECK_DEADLOCK FALSE
