--------------------------------- MODULE T05 ---------------------------------
(* Binds the relations of R05 to recorded traces.                            *)
EXTENDS TraceBase, R05
=============================================================================
