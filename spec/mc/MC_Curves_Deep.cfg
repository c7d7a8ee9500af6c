\* MODULE: MC_Curves
\* PROPERTIES: C17
\* THOROUGH
CONSTANT Step = 50
SPECIFICATION Spec
INVARIANTS Closed Ends Brightens Inverse
PROPERTY Rising
CHECK_DEADLOCK FALSE
