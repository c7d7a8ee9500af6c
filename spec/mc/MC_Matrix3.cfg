\* MODULE: MC_Matrix
\* PROPERTIES: C18
CONSTANTS
  Deep = FALSE
  Dim = 3
INIT Init
NEXT Next
INVARIANTS Adj Inv Singular DetMul DetT TransMul TransTwice Ring Unity Assoc Apply Rank FixAgrees Reshape InsertLaw Query
CHECK_DEADLOCK FALSE
