CONSTANTS T = {1,2} Budget = 2 Cells = 0 Ops = {"clone","downgrade","read","strong_count","weak_count","is_unique","get_mut","drops","into_inner","wclone","upgrade","dropw","dynupgrade"}
INIT Init
NEXT Next
INVARIANTS Conserved NoDangling NoRevival NoLoss
CHECK_DEADLOCK FALSE
