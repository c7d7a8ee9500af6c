\* MODULE: MC_Values
\* PROPERTIES: C01
INIT Init
NEXT Next
INVARIANTS Inside Idempotent Exact Wraps Monotone Overall Alpha Bits
CHECK_DEADLOCK FALSE
