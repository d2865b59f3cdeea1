----------------------------- MODULE CurvePlanBig -----------------------------
EXTENDS CurvePlan, BigField
TNone == {}
=============================================================================
