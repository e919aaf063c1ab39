CONSTANTS MaxDim = 3 MaxExt = 3 MaxChunk = 3
SPECIFICATION Spec
INVARIANTS Bijection LinBijection Partition NonEmptyChunks OverlapExact OverlapTiles ValidIff
CHECK_DEADLOCK FALSE
