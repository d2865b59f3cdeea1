---------------------------- MODULE TowerTraceToy ----------------------------
EXTENDS TowerTrace, ToyField
TDecR(x, r) == BFormat(BInt(x), r)
TParse(t) == BToInt(BMod(BParse(t, 10), BInt(P)))
TFrob(l, a) == a     \* not asked for: the code has the constants of one big prime
=============================================================================
