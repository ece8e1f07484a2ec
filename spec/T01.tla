--------------------------------- MODULE T01 ---------------------------------
(* Binds the relations of R01 to recorded traces.                            *)
EXTENDS TraceBase, R01
=============================================================================
