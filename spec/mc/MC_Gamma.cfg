\* MODULE: MC_Gamma
\* PROPERTIES: C17
CONSTANT Steps = 4
SPECIFICATION Spec
INVARIANTS Ordered First Skip InsDrop Confluent
PROPERTY CopyApart
CHECK_DEADLOCK FALSE
