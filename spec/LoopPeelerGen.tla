---------------------------- MODULE LoopPeelerGen ----------------------------
(* every finished run, for all arities, starts and ends; base is added to   *)
(* start and end by the replay (a multiple of all arities)                  *)
EXTENDS LoopPeeler, Emit
Emitted == Finished => EmitBehaviour(<<<<<<"peel", arity, start, end>>, "ok", log>>>>)
=============================================================================
