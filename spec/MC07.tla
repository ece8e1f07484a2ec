-------------------------------- MODULE MC07 --------------------------------
(* The caching protocol of automaton objects.  Contents are abstracted to    *)
(* version numbers of arcs, labels and scores; cache[w] is the pair of       *)
(* versions a memoized result was computed from.  A result served from the   *)
(* cache must have been computed from the current contents.                  *)
(* With Track = TRUE the history of calls is part of the state; behaviours   *)
(* generated by simulation are replayed on the library (driver c07).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObjs, MaxVer, Depth, Track, Invalidate
VARIABLES objs, ver, hist

ScoreKeys == {"forward", "backward", "total", "post", "entering"} \cup (IF Track THEN {"cdf"} ELSE {})
TopoKeys == {"batches"}
Keys == ScoreKeys \cup TopoKeys
\* what computing one result memoizes on the way
Needs(w) == CASE w = "forward" -> {"forward", "entering", "batches"}
              [] w = "total" -> {"forward", "entering", "batches", "total"}
              [] w = "post" -> {"forward", "entering", "batches", "backward", "post"}
              [] w = "entering" -> {"forward", "entering", "batches"}
              [] w = "backward" -> {"backward", "batches"}
              [] w = "cdf" -> {"forward", "entering", "batches", "backward", "post", "total", "cdf"}
              [] OTHER -> {w}
Log(a) == hist' = IF Track THEN Append(hist, a) ELSE hist
Fresh(o, w) == IF w \in TopoKeys THEN <<o.arcs, 0>> ELSE <<o.arcs, o.scores>>
H == 1..Len(objs)
Put(h, o) == objs' = [objs EXCEPT ![h] = o]
New(v) == [arcs |-> v, scores |-> v, labels |-> v, props |-> v, cache |-> [w \in {} |-> <<0, 0>>]]

Init == objs = <<New(0)>> /\ ver = 0 /\ hist = <<>>
Read(h, w) ==
  /\ LET o == objs[h] IN
     Put(h, [o EXCEPT !.cache = [k \in DOMAIN @ \cup Needs(w) |-> IF k \in DOMAIN @ THEN @[k] ELSE Fresh(o, k)]])
  /\ UNCHANGED ver /\ Log(<<"read", h, w>>)
ReadProps(h) == objs[h].props = objs[h].props /\ UNCHANGED <<objs, ver>> /\ Log(<<"props", h, "">>)
SetScores(h, how) ==
  /\ ver' = ver + 1
  /\ LET o == objs[h]
         keep == IF Invalidate THEN {k \in DOMAIN o.cache : k \in TopoKeys} ELSE DOMAIN o.cache
     IN Put(h, [o EXCEPT !.scores = ver + 1, !.cache = [k \in keep |-> o.cache[k]]])
  /\ Log(<<"scores", h, how>>)
SetLabels(h, how) == ver' = ver + 1 /\ Put(h, [objs[h] EXCEPT !.labels = ver + 1, !.props = ver + 1]) /\ Log(<<"labels", h, how>>)
SetAttr(h, n) == UNCHANGED <<objs, ver>> /\ Log(<<"attr", h, n>>)
DelAttr(h) == UNCHANGED <<objs, ver>> /\ Log(<<"del", h, "">>)
Rename(h) == UNCHANGED <<objs, ver>> /\ Log(<<"rename", h, "">>)
Grad(h, b) == UNCHANGED <<objs, ver>> /\ Log(<<"grad", h, b>>)
\* clone and detach hand their memoized results on; every other derivation starts empty
Copy(h, how) ==
  /\ Len(objs) < MaxObjs
  /\ objs' = Append(objs, IF how = "clone" THEN objs[h] ELSE [objs[h] EXCEPT !.cache = [w \in {} |-> <<0, 0>>]])
  /\ UNCHANGED ver /\ Log(<<"copy", h, how>>)
Derive(h, how) == Len(objs) < MaxObjs /\ ver' = ver + 1 /\ objs' = Append(objs, New(ver + 1)) /\ Log(<<"derive", h, how>>)
InvertIn(h) == ver' = ver + 1 /\ Put(h, [objs[h] EXCEPT !.labels = ver + 1, !.props = ver + 1]) /\ Log(<<"invert_", h, "">>)

Hows == IF Track THEN {"set", "imul", "item", "param"} ELSE {"set"}
Copies == IF Track THEN {"clone", "dict", "pickle", "to"} ELSE {"clone", "dict"}
Ders == IF Track THEN {"index", "vec", "arc_sort", "connect", "add_loops", "invert", "index_fsa", "top_sort", "rm_loops", "reverse", "intersect", "rm_eps"} ELSE {"index"}
Attrs == IF Track THEN {"int", "float", "rag", "obj", "aux", "filler"} ELSE {"int"}
Step ==
  \/ \E h \in H, w \in Keys : Read(h, w)
  \/ \E h \in H, how \in Hows : SetScores(h, how)
  \/ \E h \in H, how \in {"set", "item"} : SetLabels(h, how)
  \/ \E h \in H, how \in Copies : Copy(h, how)
  \/ \E h \in H, how \in Ders : Derive(h, how)
  \/ \E h \in H : ReadProps(h)
  \/ Track /\ \E h \in H : \/ \E n \in Attrs : SetAttr(h, n)
                           \/ DelAttr(h) \/ Rename(h) \/ InvertIn(h)
                           \/ \E b \in {"on", "off"} : Grad(h, b)
\* simulation picks one call at a time, so that a behaviour costs one successor per step
Choices ==
  ({"read"} \X H \X Keys) \cup ({"scores"} \X H \X Hows) \cup ({"labels"} \X H \X {"set", "item"}) \cup ({"copy"} \X H \X Copies) \cup
  ({"derive"} \X H \X Ders) \cup ({"props", "del", "rename", "invert_"} \X H \X {""}) \cup ({"attr"} \X H \X Attrs) \cup ({"grad"} \X H \X {"on", "off"})
Kinds == << "read", "read", "read", "read", "scores", "scores", "labels", "copy", "derive", "props", "del", "rename", "invert_", "attr", "attr", "grad" >>
Do(a) ==
  CASE a[1] = "read" -> Read(a[2], a[3])
    [] a[1] = "scores" -> SetScores(a[2], a[3])
    [] a[1] = "labels" -> SetLabels(a[2], a[3])
    [] a[1] = "copy" -> Copy(a[2], a[3]) \/ (Len(objs) = MaxObjs /\ UNCHANGED <<objs, ver, hist>>)
    [] a[1] = "derive" -> Derive(a[2], a[3]) \/ (Len(objs) = MaxObjs /\ UNCHANGED <<objs, ver, hist>>)
    [] a[1] = "invert_" -> InvertIn(a[2])
    [] a[1] = "attr" -> SetAttr(a[2], a[3])
    [] a[1] = "del" -> DelAttr(a[2])
    [] a[1] = "rename" -> Rename(a[2])
    [] a[1] = "grad" -> Grad(a[2], a[3])
    [] OTHER -> ReadProps(a[2])
Random == LET k == Kinds[RandomElement(1..Len(Kinds))] IN \E a \in {RandomElement({c \in Choices : c[1] = k})} : Do(a)
Done == Len(hist) = Depth /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<objs, ver>>
Next == IF Track THEN (IF Len(hist) < Depth THEN Random ELSE Done) ELSE ver < MaxVer /\ Step
Coherent == \A h \in H : \A w \in DOMAIN objs[h].cache : objs[h].cache[w] = Fresh(objs[h], w)
Emit == IF Track /\ Len(hist) > Depth THEN PrintT("@@H " \o ToJson(SubSeq(hist, 1, Depth))) ELSE TRUE
=============================================================================
