\* MODULE: MC_Curves
\* PROPERTIES: C17
CONSTANT Step = 1000
SPECIFICATION Spec
INVARIANTS Closed Ends Brightens Inverse
PROPERTY Rising
CHECK_DEADLOCK FALSE
