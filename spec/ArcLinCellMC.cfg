CONSTANTS T = {1,2} Budget = 2 Cells = 1 Ops = {"clone","drops","store","cas","is","load","read"}
INIT Init
NEXT Next
INVARIANTS Conserved NoDangling NoRevival NoLoss
CHECK_DEADLOCK FALSE
