--------------------------------- MODULE T14 ---------------------------------
(* Recorded calls of the online decoder.  The abstract state keeps, for every *)
(* saved state handed out, the frames its stream has seen.                    *)
EXTENDS TraceBase, K2Online
Cl(b, name) == IF b THEN {} ELSE {name}
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
Sl(x, o, n) == SubSeq(x, o + 1, o + n)
T14Init == <<>>
Prm(c) == [D |-> (c.sb2 * U) \div 2, mina |-> c.mina, maxa |-> c.maxa, online |-> 1, part |-> c.part]
Rows(lp) == [t \in 1..Len(lp) |-> <<NegInf>> \o lp[t]]
Stream(s, h) == IF h = 0 THEN NewStream ELSE s[h]
\* depth of every state: states come frame by frame
Depths(O) == FoldLeft(LAMBDA D, a : IF D[a[1] + 1] < 0 THEN D ELSE [D EXCEPT ![a[2] + 1] = D[a[1] + 1] + 1], [q \in 1..O.n |-> IF q = 1 THEN 0 ELSE -1], O.a)
\* a partial end is not told apart by its graph arc: compare by source and score
SlotF(c, s, ev, i) ==
  LET G == c.g  O == ev.f[i]  sl == ev.slots[i]  x == AddChunk(Stream(s, sl.h), Rows(sl.lp))  T == Len(x.rows)
      o == AOff(ev.f, i)
      raw == Sl(ev.ids, o, Len(O.a)) IN
  IF ~WellFormed(O) THEN {"Format"}
  ELSE IF O.n < 2 THEN {"StartAndFinalState"}
  ELSE
  LET D == Depths(O)  J == 1..Len(O.a)  fr == [j \in J |-> D[Src(O, j) + 1]] IN
  IF ~(\A j \in J : fr[j] \in 0..T) THEN {"FrameByFrame"}
  ELSE IF ~(\A j \in J : raw[j] \in 1..NArcs(G) \/ (raw[j] = 0 /\ c.part = 1 /\ fr[j] = T)) THEN {"ArcMap"}
  ELSE
  LET b == Append(x.rows, FinalRow(c.C))
      ids == raw
      full == {j \in J : ids[j] # 0}
      Im == {<<Src(O, j), <<fr[j], Src(G, ids[j])>>>> : j \in full} \cup
            {<<Dst(O, j), <<fr[j] + 1, Dst(G, ids[j])>>>> : j \in full} \cup {<<0, <<0, 0>>>>, <<Final(O), <<T + 1, Final(G)>>>>}
      S == SearchOn(Prm(c), G, x.rows)
      \* a stream whose chunk is shorter than the others' ends here: its last row is searched like the rest
      short == sl.short = 1
      SX == Append(S, SearchStep(Prm(c), G, FinalRow(c.C), S[T + 1], 1))
      amb == Amb(IF short THEN SX ELSE S)
      part == Partial(Prm(c), G, S[T + 1].V)
      y == [x EXCEPT !.ends = [@ EXCEPT ![Len(@)] = T + 1], !.rows = b]
      LS == IF short THEN SX ELSE S
      must == IF short THEN Good(G, b, SX, Alive(G, b, SX), T + 1, c.ob2) ELSE IF x.ends = <<>> THEN {} ELSE MustArcs(G, x, S, c.ob2)
      may == IF short THEN MayArcs(G, y, SX, c.ob2) ELSE MayArcs(G, x, S, c.ob2)
      E == EndArcs(Prm(c), G, c.C, S)
      mustEnd == IF short THEN {z[2] : z \in {w \in must : w[1] = T}} ELSE E
      mayEnd == IF short THEN {z[2] : z \in {w \in may : w[1] = T}} ELSE E
      mustIn == {z \in must : z[1] < T}   mayIn == {z \in may : z[1] < T}
      kept == {<<fr[j], ids[j]>> : j \in full}
      StateOf(q) == CHOOSE z \in Im : z[1] = q
      pk == [j \in J |-> IF ids[j] = 0 /\ \E z \in Im : z[1] = Src(O, j) THEN <<StateOf(Src(O, j))[2][2], Wt(O, j)>> ELSE <<>>]
      Bag(K) == [z \in {<<Src(G, k), Wt(G, k)>> : k \in K} |-> Cardinality({k \in K : <<Src(G, k), Wt(G, k)>> = z})]
      Got == [z \in {pk[j] : j \in J \ full} |-> Cardinality({j \in J \ full : pk[j] = z})] IN
  Cl(Bijective(Im), "FrameIsDepth") \cup
  Cl(\A j \in full : SameArc(G, b, O, ids, fr, j), "LabelOrScore") \cup
  Cl(Cardinality(kept) = Cardinality(full), "DuplicateArc") \cup
  Cl(\A j \in J \ full : Dst(O, j) = Final(O) /\ Lab(O, j) = -1, "PartialEnd") \cup
  (IF amb THEN {} ELSE
   Cl(mustIn \subseteq kept, "MissingArc") \cup
   Cl({z \in kept : z[1] < T} \subseteq mayIn, "ArcOutsideBeam") \cup
   (IF part
    THEN Cl(\A j \in J : fr[j] = T => j \notin full, "PartialResult") \cup
         Cl((\A z \in DOMAIN Bag(mustEnd) : z \in DOMAIN Got /\ Got[z] = Bag(mustEnd)[z]) /\ DOMAIN Got \subseteq DOMAIN Bag(mayEnd), "PartialResult")
    ELSE Cl(full = J, "PartialWithoutNeed") \cup
         LET e == {z[2] : z \in {w \in kept : w[1] = T}} IN Cl(mustEnd \subseteq e /\ e \subseteq mayEnd, "FinalArcs")))
AttrF(ev) == Cl(Len(ev.rg) = Len(ev.ids) /\ \A j \in 1..Len(ev.ids) : ev.rg[j] = [x \in 1..(ev.ids[j] % 3) |-> ev.ids[j]], "Attributes") \cup Cl(ev.nt = 1, "NonTensorAttributes")
DecodeF(ev, s) ==
  LET c == ev.c IN
  IF Len(ev.f) # Len(ev.slots) \/ Len(ev.ids) # AOff(ev.f, Len(ev.f) + 1) THEN {"Shape"}
  ELSE UNION {SlotF(c, s, ev, i) : i \in 1..Len(ev.slots)} \cup AttrF(ev)
TFailing(ev, s) ==
  CASE ev.op = "decode" -> DecodeF(ev, s)
    [] ev.op = "same" -> Cl(ev.out = 1, "StateIsAValue")
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) ==
  IF ev.op = "decode" THEN FoldLeft(LAMBDA z, sl : (sl.out :> AddChunk(Stream(s, sl.h), Rows(sl.lp))) @@ z, s, ev.slots) ELSE s
=============================================================================
