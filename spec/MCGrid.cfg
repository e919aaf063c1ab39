CONSTANTS MaxDim = 2 MaxExt = 4 MaxChunk = 5
SPECIFICATION Spec
INVARIANTS Bijection LinBijection Partition NonEmptyChunks OverlapExact OverlapTiles ValidIff
CHECK_DEADLOCK FALSE
