--------------------------------- MODULE T22 ---------------------------------
(* Reading and writing automata as text, tensors, dictionaries and drawings.                                                         *)
EXTENDS TraceBase, K2Text
Cl(b, name) == IF b THEN {} ELSE {name}
Same(out, r) ==                     \* what was read is what the text says
  Cl(out.F = r.F, "Automaton") \cup Cl(out.aux = r.aux, "Labels") \cup Cl(out.rag = r.rag, "RaggedLabels")
TFailing(ev, s) ==
  CASE ev.op = "read" ->
         LET r == Read(ev.text, ev.na, ev.nr, ev.fst) IN
         IF r.ok # (ev.ok = 1) THEN {IF r.ok THEN "WellFormedRefused" ELSE "MalformedAccepted"}
         ELSE IF r.ok THEN Same(ev.out, r) ELSE {}
    [] ev.op = "write" -> Cl(ev.text = Write(ev.x, ev.fst), "Text")
    [] ev.op = "writes" -> Cl(ev.text = [i \in 1..Len(ev.x) |-> Write(ev.x[i], ev.fst)], "Texts")
    [] ev.op = "tensor" ->         \* constructor from rows
         LET r == FromArcs(ev.arcs) IN
         IF r.ok # (ev.ok = 1) THEN {IF r.ok THEN "TensorRefused" ELSE "TensorAccepted"} ELSE Cl(~r.ok \/ ev.out = r.F, "TensorRead")
    [] ev.op = "totensor" -> Cl(ev.rows = ev.F.a, "TensorWritten")
    [] ev.op = "tovec" ->          \* tensor of a batch and back
         Cl(ev.head = Header(ev.S), "BatchHeader") \cup Cl(ev.rows = Flat([i \in 1..Len(ev.S) |-> ev.S[i].a]), "BatchRows") \cup
         Cl(ev.out = ev.S, "BatchRead") \cup Cl(ev.stable = 1, "BatchTensorAgain")
    [] ev.op = "refused" -> Cl(ev.bad = 1, "GoodTensorRefused")
    [] ev.op = "accepted" -> Cl(ev.bad = 0, "BadTensorAccepted")
    [] ev.op = "dict" ->           \* dictionary, possibly through a file
         Cl(Len(ev.after) = Len(ev.before) /\ \A i \in 1..Len(ev.before) :
              ev.after[i] = (IF ev.vec = 1 THEN ev.before[i] ELSE FromArcs(ev.before[i].a).F), "DictAutomata") \cup
         Cl(ev.attrs2 = ev.attrs, "DictAttributes") \cup Cl(ev.names2 = ev.names, "DictNames") \cup Cl(ev.kept = 1, "DictSourceChanged") \cup
         Cl(ev.flags2 = ev.flags \/ (ev.vec = 0 /\ ev.after # ev.before), "DictProperties")
    [] ev.op = "dot" ->
         Cl(ev.edges = [k \in 1..NArcs(ev.x.F) |->
              [src |-> Src(ev.x.F, k), dst |-> Dst(ev.x.F, k), lab |-> Lab(ev.x.F, k), w |-> Wt(ev.x.F, k),
               aux |-> IF ev.kind = 1 THEN <<ev.x.aux[1][k]>> ELSE IF ev.kind = 2 THEN ev.x.rag[1][k] ELSE <<>>]], "DrawnArcs") \cup
         Cl({ev.nodes[i] : i \in 1..Len(ev.nodes)} = {Src(ev.x.F, k) : k \in 1..NArcs(ev.x.F)} \cup {Dst(ev.x.F, k) : k \in 1..NArcs(ev.x.F)} /\
            Cardinality({ev.nodes[i] : i \in 1..Len(ev.nodes)}) = Len(ev.nodes), "DrawnStates") \cup
         Cl({ev.finals[i] : i \in 1..Len(ev.finals)} = {Dst(ev.x.F, k) : k \in {j \in 1..NArcs(ev.x.F) : Lab(ev.x.F, j) = -1}}, "DrawnFinal")
    [] OTHER -> {"UnknownEvent"}
TStep(ev, s) == s
=============================================================================
