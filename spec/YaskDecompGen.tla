---------------------------- MODULE YaskDecompGen ----------------------------
(* Prints every state of YaskDecompMC that precedes a preparation, and       *)
(* whether that preparation can succeed: the harness replays them.           *)
EXTENDS YaskDecompMC, Json

Emit == ~done => PrintT(<<"ST", ToJson(q), Prepared(P0, q) # {}>>)
=============================================================================
