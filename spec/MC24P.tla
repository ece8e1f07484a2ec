--------------------------------- MODULE MC24P -------------------------------
(* The thread pool: workers, clients that hand in tasks and wait, one mutex and two condition variables.  A step is a stretch that   *)
(* holds the mutex; a waiter gives the mutex up, is picked by a notification (or wakes by itself) and goes on when it gets the mutex. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NWorkers, NClients, NTasks, MaxOps, NotifyAll, Spurious
VARIABLES queue, running, finished, prog, cpc, wpc, given, started, done, must, keep
vars == <<queue, running, finished, prog, cpc, wpc, given, started, done, must, keep>>
W == 1..NWorkers
C == 1..NClients
\* a program: "s" hands in a new task, "w" waits; a task is <<client, number>>; a task with an even number hands in another one
Progs == UNION {[1..n -> {"s", "w"}] : n \in 1..MaxOps}
Init == /\ queue = <<>> /\ running = 0 /\ finished = TRUE /\ keep = TRUE
        /\ prog \in {f \in [C -> Progs] : \A c \in C : Cardinality({i \in DOMAIN f[c] : f[c][i] = "s"}) <= NTasks}
        /\ cpc = [c \in C |-> [at |-> "go", i |-> 1]] /\ wpc = [w \in W |-> [at |-> "look", task |-> <<0, 0>>]]
        /\ given = {} /\ started = [x \in C \X (1..(2 * NTasks)) |-> 0] /\ done = {} /\ must = [c \in C |-> {}]
Tasks == C \X (1..(2 * NTasks))
WakeWorker(f) == IF \E w \in W : f[w].at = "asleep" THEN {[f EXCEPT ![w].at = "look"] : w \in {w \in W : f[w].at = "asleep"}} ELSE {f}
WakeClients(f) == LET S == {c \in C : f[c].at = "asleep"} IN
                  IF S = {} THEN {f} ELSE IF NotifyAll THEN {[c \in C |-> IF c \in S THEN [f[c] EXCEPT !.at = "look"] ELSE f[c]]} ELSE {[f EXCEPT ![c].at = "look"] : c \in S}
Made(c) == Cardinality({x \in given : x[1] = c /\ x[2] <= NTasks})
Submit == \E c \in C : /\ cpc[c].at = "go" /\ cpc[c].i <= Len(prog[c]) /\ prog[c][cpc[c].i] = "s"
                       /\ LET x == <<c, Made(c) + 1>> IN queue' = Append(queue, x) /\ given' = given \cup {x}
                       /\ wpc' \in WakeWorker(wpc) /\ finished' = FALSE
                       /\ cpc' = [cpc EXCEPT ![c].i = @ + 1]
                       /\ UNCHANGED <<running, prog, started, done, must, keep>>
\* a wait begins, or goes on after waking up
Look(c) == IF finished THEN cpc' = [cpc EXCEPT ![c] = [at |-> "go", i |-> @.i + 1]] ELSE cpc' = [cpc EXCEPT ![c].at = "asleep"]
Wait == \E c \in C : /\ cpc[c].at = "go" /\ cpc[c].i <= Len(prog[c]) /\ prog[c][cpc[c].i] = "w"
                     /\ must' = [must EXCEPT ![c] = given] /\ Look(c)
                     /\ UNCHANGED <<queue, running, finished, prog, wpc, given, started, done, keep>>
Woken == \E c \in C : /\ cpc[c].at = "look" \/ (Spurious /\ cpc[c].at = "asleep")
                      /\ Look(c) /\ UNCHANGED <<queue, running, finished, prog, wpc, given, started, done, must, keep>>
Take == \E w \in W : /\ wpc[w].at = "look" /\ keep
                     /\ IF queue = <<>> THEN wpc' = [wpc EXCEPT ![w].at = "asleep"] /\ UNCHANGED <<queue, running, started>>
                        ELSE /\ queue' = Tail(queue) /\ running' = running + 1 /\ started' = [started EXCEPT ![Head(queue)] = @ + 1]
                             /\ wpc' \in LET f == [wpc EXCEPT ![w] = [at |-> "run", task |-> Head(queue)]] IN IF Tail(queue) = <<>> THEN {f} ELSE WakeWorker(f)
                     /\ UNCHANGED <<finished, prog, cpc, given, done, must, keep>>
\* a running task hands in another task
Child == \E w \in W : /\ wpc[w].at = "run" /\ wpc[w].task[2] <= NTasks /\ wpc[w].task[2] % 2 = 0
                      /\ LET x == <<wpc[w].task[1], wpc[w].task[2] + NTasks>> IN x \notin given /\ queue' = Append(queue, x) /\ given' = given \cup {x}
                      /\ wpc' \in WakeWorker(wpc) /\ finished' = FALSE
                      /\ UNCHANGED <<running, prog, cpc, started, done, must, keep>>
End == \E w \in W : /\ wpc[w].at = "run"
                    /\ (wpc[w].task[2] <= NTasks /\ wpc[w].task[2] % 2 = 0) => <<wpc[w].task[1], wpc[w].task[2] + NTasks>> \in given
                    /\ done' = done \cup {wpc[w].task} /\ running' = running - 1 /\ wpc' = [wpc EXCEPT ![w] = [at |-> "look", task |-> <<0, 0>>]]
                    /\ IF queue = <<>> /\ running = 1 THEN finished' = TRUE /\ cpc' \in WakeClients(cpc) ELSE UNCHANGED <<finished, cpc>>
                    /\ UNCHANGED <<queue, prog, given, started, must, keep>>
\* the owner destroys the pool when its clients are through and nothing is left: workers go home
Quit == /\ keep /\ \A c \in C : cpc[c].at = "go" /\ cpc[c].i > Len(prog[c])
        /\ finished /\ keep' = FALSE /\ wpc' = [w \in W |-> IF wpc[w].at = "asleep" THEN [wpc[w] EXCEPT !.at = "look"] ELSE wpc[w]]
        /\ UNCHANGED <<queue, running, finished, prog, cpc, given, started, done, must>>
Leave == \E w \in W : /\ ~keep /\ wpc[w].at = "look" /\ wpc' = [wpc EXCEPT ![w].at = "gone"]
                      /\ UNCHANGED <<queue, running, finished, prog, cpc, given, started, done, must, keep>>
Next == Submit \/ Wait \/ Woken \/ Take \/ Child \/ End \/ Quit \/ Leave
Gone == ~keep /\ \A w \in W : wpc[w].at = "gone"
\* ---- what clients may rely on
Once == \A x \in Tasks : started[x] <= 1 /\ (x \in done => started[x] = 1)
Enough == \A c \in C : (cpc[c].at = "go" /\ cpc[c].i > 1 /\ cpc[c].i - 1 <= Len(prog[c]) /\ prog[c][cpc[c].i - 1] = "w") => must[c] \subseteq done
NeverStuck == Gone \/ ENABLED Next
AllRun == Gone => done = given
Ends == <>Gone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
