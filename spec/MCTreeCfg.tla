----------------------------- MODULE MCTreeCfg ------------------------------
EXTENDS MCTree
AllFmts == {"n5", "zarr2", "zarr3"}
PathsQuick == {<<"a">>, <<"b">>, <<"a", "b">>}
PathsThorough == {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", "b", "a">>}
PathsEdges == {<<"a">>, <<"a", "b">>}
One == {1}
Two == {1, 2}
ZeroOne == {0, 1}
KeysQuick == {"k", "dimensions"}
KeysEdges == {"k"}
NoBugs == {}
BugChunkDirs == {"chunkdirs"}
BugParents == {"plainparents"}
BugProtect == {"protect"}
BugList == {"listdirs"}
BugInPlace == {"inplace"}
OneVal == {0, 1}
OneFmt == {"zarr2"}
OnlyN5 == {"n5"}
=============================================================================
