--------------------------------- MODULE T10 ---------------------------------
(* Binds the relations of R10 to recorded traces.                            *)
EXTENDS TraceBase, R10
=============================================================================
