---- MODULE FftTraceBig ----
EXTENDS FftTrace, BigField
====
