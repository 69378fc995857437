---------------------------------- MODULE Par ----------------------------------
(* Programs that use the library from several processes - threads, or parts of one thread that take turns.

   A process works on objects of its own ("own"), or main makes an object and, once it is made, the processes only look at it
   ("shared").  Nothing else is shared: the library keeps no state outside the objects a program made.  So what a process sees is
   what it sees when it runs alone (Alone), whatever the schedule, and no two accesses of which one is a change are left unordered
   (NoRace) - a race that a run of the code has, or a difference between what a process sees and what it sees alone, comes from
   state the library keeps on the side.

   The order of accesses is that of the C++ memory model: a process happens after its creation by main and, when the processes
   take turns, after whoever had the turn before it; free processes are ordered by nothing. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Lens,      \* the number of steps of every process
          Sharing,   \* "own" or "shared"
          Turns      \* TRUE: the processes hand on a turn; FALSE: they run free
VARIABLES pc,        \* process -> steps done
          ver,       \* object -> how often it was changed
          seen,      \* process -> what it saw of its object, step by step
          clk,       \* process -> vector clock, 0 is main
          wr, rd,    \* object -> clocks of its last change, and of the looks at it since
          turn,      \* the clock that came with the turn
          race,
          sched
vars == <<pc, ver, seen, clk, wr, rd, turn, race, sched>>
P == 1..Len(Lens)
All == 0..Len(Lens)
Obj(p) == IF Sharing = "shared" THEN 0 ELSE p
Zero == [q \in All |-> 0]
Leq(a, b) == \A q \in All : a[q] <= b[q]
Join(a, b) == [q \in All |-> IF a[q] > b[q] THEN a[q] ELSE b[q]]
Tick(c, p) == [c EXCEPT ![p] = @ + 1]
\* main has made object 0 and created the processes
Made == Tick(Zero, 0)
Init == /\ pc = [p \in P |-> 0] /\ seen = [p \in P |-> <<>>] /\ race = FALSE /\ sched = <<>>
        /\ ver = [o \in All |-> IF o = 0 THEN 1 ELSE 0]
        /\ wr = [o \in All |-> IF o = 0 THEN Made ELSE Zero] /\ rd = [o \in All |-> Zero]
        /\ clk = [p \in P |-> Tick(Made, p)] /\ turn = Zero
Step(p) ==
    /\ pc[p] < Lens[p]
    /\ LET o == Obj(p)
           c == Tick(IF Turns THEN Join(clk[p], turn) ELSE clk[p], p)
           changes == Sharing = "own"
       IN /\ race' = (race \/ ~Leq(wr[o], c) \/ (changes /\ ~Leq(rd[o], c)))
          /\ ver' = IF changes THEN [ver EXCEPT ![o] = @ + 1] ELSE ver
          /\ wr' = IF changes THEN [wr EXCEPT ![o] = c] ELSE wr
          /\ rd' = [rd EXCEPT ![o] = IF changes THEN Zero ELSE Join(@, c)]
          /\ seen' = [seen EXCEPT ![p] = Append(@, ver'[o])]
          /\ clk' = [clk EXCEPT ![p] = c] /\ turn' = IF Turns THEN c ELSE turn
    /\ pc' = [pc EXCEPT ![p] = @ + 1]
    /\ sched' = Append(sched, p)
Next == \E p \in P : Step(p)
Spec == Init /\ [][Next]_vars
Done == \A p \in P : pc[p] = Lens[p]
Alone == \A p \in P : seen[p] = [k \in 1..pc[p] |-> IF Sharing = "own" THEN k ELSE 1]
NoRace == ~race
Kept == Sharing = "shared" => ver[0] = 1
\* with a fair scheduler every process gets to its end
Fair == Spec /\ \A p \in P : WF_vars(Step(p))
Ends == <>Done
================================================================================
