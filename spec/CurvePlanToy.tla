----------------------------- MODULE CurvePlanToy -----------------------------
EXTENDS CurvePlan, ToyField
T1Elements == 0..(P - 1)
T2Elements == (0..(P - 1)) \X (0..(P - 1))
TNone == {}
=============================================================================
