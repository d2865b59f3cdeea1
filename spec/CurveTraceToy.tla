---------------------------- MODULE CurveTraceToy ----------------------------
EXTENDS CurveTrace, ToyField
=============================================================================
