--------------------------------- MODULE T15 ---------------------------------
(* Binds the relations of R15 to recorded traces.                            *)
EXTENDS TraceBase, R15
=============================================================================
