--------------------------------- MODULE T13 ---------------------------------
(* Binds the relations of R13 to recorded traces.                            *)
EXTENDS TraceBase, R13
=============================================================================
