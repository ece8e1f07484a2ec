--------------------------------- MODULE T03 ---------------------------------
(* Binds the relations of R03 to recorded traces.                            *)
EXTENDS TraceBase, R03
=============================================================================
