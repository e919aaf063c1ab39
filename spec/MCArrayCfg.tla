----------------------------- MODULE MCArrayCfg -----------------------------
EXTENDS MCArray
Ds(f, s, k, h) == [fmt |-> f, shape |-> s, chunks |-> k, shards |-> h, fill |-> 0]
DsQuick == << Ds("n5", <<3>>, <<2>>, <<>>), Ds("zarr2", <<4>>, <<3>>, <<>>),
              Ds("zarr3", <<5>>, <<1>>, <<2>>), Ds("n5", <<2, 3>>, <<2, 2>>, <<>>),
              Ds("zarr3", <<3, 2>>, <<1, 2>>, <<2, 2>>) >>
DsEdges == << Ds("n5", <<3>>, <<2>>, <<>>), Ds("zarr3", <<4>>, <<1>>, <<2>>), Ds("zarr2", <<2, 2>>, <<2, 1>>, <<>>) >>
DsThorough == DsQuick \o << Ds("zarr2", <<2, 2, 2>>, <<1, 2, 2>>, <<>>), Ds("n5", <<3, 3>>, <<2, 2>>, <<>>), Ds("zarr3", <<3, 3>>, <<1, 2>>, <<2, 2>>),
              Ds("n5", <<2, 2, 2>>, <<2, 1, 3>>, <<>>), Ds("zarr3", <<2, 4>>, <<1, 1>>, <<2, 3>>) >>
VarSet == {<<>>, <<1>>, <<0, 1, 1, 1>>}
=============================================================================
