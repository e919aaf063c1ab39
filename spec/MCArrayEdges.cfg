CONSTANTS Datasets <- DsEdges Vals = {0, 5} VarData <- VarSet MaxArea = 3 Edges = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS WellFormed Refines Sparse
ACTION_CONSTRAINT PrintEdges
CHECK_DEADLOCK FALSE
