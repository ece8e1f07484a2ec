--------------------------------- MODULE T26 ---------------------------------
(* Binds the relations of R26 to recorded traces.                            *)
EXTENDS TraceBase, R26
=============================================================================
