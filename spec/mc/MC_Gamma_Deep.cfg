\* MODULE: MC_Gamma
\* PROPERTIES: C17
\* THOROUGH
CONSTANT Steps = 6
SPECIFICATION Spec
INVARIANTS Ordered First Skip InsDrop Confluent
PROPERTY CopyApart
CHECK_DEADLOCK FALSE
