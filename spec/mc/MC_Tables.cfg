\* MODULE: MC_Tables
\* PROPERTIES: C20 C19
INIT Init
NEXT Next
INVARIANTS WhiteConsistent NameBytes Distinct Opaque SpacesOk Gamut
CHECK_DEADLOCK FALSE
