CONSTANTS Datasets <- DsThorough Vals = {0, 1} VarData <- VarSet MaxArea = 9 Edges = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed Refines Sparse ShardObjects SlotsDistinct Idempotent
CHECK_DEADLOCK FALSE
