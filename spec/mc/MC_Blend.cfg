\* MODULE: MC_Blend
\* PROPERTIES: C09 C10
CONSTANT Fine = FALSE
INIT Init
NEXT Next
INVARIANTS Numeric Closed Symmetric Neutral Dual Order Grows AreaSum InRange3 AlphaLaw Opaque Through Nothing Mirror Clear Alphas SrcDest Sums PdNormal
CHECK_DEADLOCK FALSE
