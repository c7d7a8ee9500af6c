\* MODULE: MC_Layers
\* PROPERTIES: C10
CONSTANT Depth = 2
INIT Init
NEXT Next
INVARIANTS UnitCube Assoc Split EmptyIsEmpty Idem
CHECK_DEADLOCK FALSE
