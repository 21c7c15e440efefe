---------------------------- MODULE ParallelLoop ----------------------------
(* A parallel loop over observation points: W workers take iterations, each  *)
(* iteration adds M contributions to a memory cell with a non-atomic          *)
(* read-modify-write, then advances the progress counter.                     *)
(*                                                                            *)
(* Target[i] is the cell iteration i writes.  The loops of the forward models *)
(* are required to be conflict free (every iteration owns its cell), which    *)
(* TLC shows to make the result independent of the schedule; with a shared    *)
(* cell the same machine loses updates (checked as a negative control).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, MaxM, MaxW,
          Owned,          \* TRUE: Target is the identity; FALSE: any map
          AtomicProgress  \* the counter is advanced by an atomic addition

VARIABLES n, m, w, bar, target, mem, count, free, worker
vars == <<n, m, w, bar, target, mem, count, free, worker>>

Contribution(i, j) == 10 * i + j
Idle == [pc |-> "idle", it |-> 0, j |-> 0, reg |-> 0]
Init == /\ n \in 0..MaxN /\ m \in 0..MaxM /\ w \in 1..MaxW /\ bar \in BOOLEAN
        /\ target \in IF Owned THEN {[i \in 1..n |-> i]} ELSE [1..n -> 1..n]
        /\ mem = [c \in 1..n |-> 0] /\ count = 0 /\ free = 1..n
        /\ worker = [k \in 1..w |-> Idle]
Claim(k) == /\ worker[k].pc = "idle" /\ \E i \in free :
               /\ free' = free \ {i}
               /\ worker' = [worker EXCEPT ![k] = [pc |-> IF m = 0 THEN "tick" ELSE "read", it |-> i, j |-> 1, reg |-> 0]]
            /\ UNCHANGED <<n, m, w, bar, target, mem, count>>
Read(k) == /\ worker[k].pc = "read"
           /\ worker' = [worker EXCEPT ![k].reg = mem[target[worker[k].it]], ![k].pc = "write"]
           /\ UNCHANGED <<n, m, w, bar, target, mem, count, free>>
Write(k) == /\ worker[k].pc = "write"
            /\ mem' = [mem EXCEPT ![target[worker[k].it]] = worker[k].reg + Contribution(worker[k].it, worker[k].j)]
            /\ worker' = [worker EXCEPT ![k].pc = IF worker[k].j = m THEN "tick" ELSE "read", ![k].j = @ + 1, ![k].reg = 0]
            /\ UNCHANGED <<n, m, w, bar, target, count, free>>
Tick(k) == /\ worker[k].pc = "tick"
           /\ IF bar /\ ~AtomicProgress
              THEN worker' = [worker EXCEPT ![k].pc = "tock", ![k].reg = count] /\ UNCHANGED count
              ELSE worker' = [worker EXCEPT ![k] = Idle] /\ count' = IF bar THEN count + 1 ELSE count
           /\ UNCHANGED <<n, m, w, bar, target, mem, free>>
Tock(k) == /\ worker[k].pc = "tock" /\ count' = worker[k].reg + 1 /\ worker' = [worker EXCEPT ![k] = Idle]
           /\ UNCHANGED <<n, m, w, bar, target, mem, free>>
Next == \E k \in 1..w : Claim(k) \/ Read(k) \/ Write(k) \/ Tick(k) \/ Tock(k)
Spec == Init /\ [][Next]_vars

Done == free = {} /\ \A k \in 1..w : worker[k].pc = "idle"
RECURSIVE SumC(_, _)
SumC(i, j) == IF j = 0 THEN 0 ELSE Contribution(i, j) + SumC(i, j - 1)
Expected(c) == LET S == {i \in 1..n : target[i] = c}
                   f[k \in 0..n] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF k \in S THEN SumC(k, m) ELSE 0)
               IN f[n]
ConflictFree == \A a, b \in 1..n : a # b => target[a] # target[b]
\* the requirement on the loops, and what it buys
Deterministic == (Done /\ ConflictFree) => \A c \in 1..n : mem[c] = Expected(c)
ProgressExact == Done => count = IF bar THEN n ELSE 0
\* only true because of ConflictFree (negative control when Owned = FALSE)
AlwaysExact == Done => \A c \in 1..n : mem[c] = Expected(c)
\* the negative control over shared cells reaches a lost update
Emit == Done => PrintT("@@" \o ToJson([n |-> n, m |-> m, w |-> w, bar |-> bar, count |-> count]))
=============================================================================
