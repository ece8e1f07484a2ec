--------------------------------- MODULE T16 ---------------------------------
(* Binds the relations of R16 to recorded traces.                            *)
EXTENDS TraceBase, R16
=============================================================================
