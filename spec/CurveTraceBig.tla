---------------------------- MODULE CurveTraceBig ----------------------------
EXTENDS CurveTrace, BigField
=============================================================================
