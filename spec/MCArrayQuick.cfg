CONSTANTS Datasets <- DsQuick Vals = {0, 1} VarData <- VarSet MaxArea = 4 Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed Refines Sparse ShardObjects SlotsDistinct Idempotent
CHECK_DEADLOCK FALSE
