---- MODULE FftTraceToy ----
EXTENDS FftTrace, ToyField
====
