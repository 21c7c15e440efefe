------------------------------- MODULE Session -------------------------------
(* A session of a user: functions called on objects that the user keeps, edits *)
(* in place and replaces by equal copies, with the results held for later.     *)
(* What a call answers depends on what its arguments hold at that moment and   *)
(* on nothing else; held results stay what they were until their owner writes  *)
(* on them; no call writes on an object.                                       *)
(* The machine answers from a memory, as a library may do: a memory keyed by   *)
(* the contents of the arguments is faithful, one keyed by which objects they  *)
(* are (or by their names) is not, after an edit.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Takes,      \* function name -> set of objects it takes
          Versions, MaxLen, Key
VARIABLES content,    \* object -> version of what it holds
          identity,   \* object -> which instance
          memory,     \* set of <<key, answer>>
          held,       \* results: [f, of, value]
          trail
vars == <<content, identity, memory, held, trail>>
Funs == DOMAIN Takes
Objs == UNION {Takes[f] : f \in Funs}
Room == Len(trail) < MaxLen
Log(e) == Room /\ trail' = Append(trail, e)
Init == /\ content = [o \in Objs |-> 1] /\ identity = [o \in Objs |-> 1]
        /\ memory = {} /\ held = <<>> /\ trail = <<>>
\* the mathematical function: here the contents themselves
Of(f) == [o \in Takes[f] |-> content[o]]
KeyOf(f) == IF Key = "contents" THEN <<f, Of(f)>> ELSE <<f, [o \in Takes[f] |-> identity[o]]>>
Known(k) == \E e \in memory : e[1] = k
Answer(f) == IF Known(KeyOf(f)) THEN (CHOOSE e \in memory : e[1] = KeyOf(f))[2] ELSE Of(f)
Call(f) == /\ Log([op |-> "call", f |-> f, of |-> Of(f), n |-> Len(held) + 1])
           /\ held' = Append(held, [f |-> f, of |-> Of(f), value |-> Answer(f), own |-> FALSE])
           /\ memory' = memory \cup {<<KeyOf(f), Answer(f)>>}
           /\ UNCHANGED <<content, identity>>
Edit(o) == \E v \in Versions \ {content[o]} :
              /\ Log([op |-> "edit", o |-> o, v |-> v])
              /\ content' = [content EXCEPT ![o] = v] /\ UNCHANGED <<identity, memory, held>>
\* an equal object takes the place of o
Replace(o) == /\ Log([op |-> "replace", o |-> o])
              /\ identity' = [identity EXCEPT ![o] = @ + 1] /\ UNCHANGED <<content, memory, held>>
\* the user writes on a result: it is theirs
Scribble(i) == /\ ~held[i].own /\ Log([op |-> "scribble", n |-> i])
               /\ held' = [held EXCEPT ![i].own = TRUE] /\ UNCHANGED <<content, identity, memory>>
\* a call with something else in place of one argument is refused: nothing happened
Refuse(f) == \E o \in Takes[f] : Log([op |-> "refuse", f |-> f, o |-> o]) /\ UNCHANGED <<content, identity, memory, held>>
Next == \/ \E f \in Funs : Call(f) \/ Refuse(f)
        \/ \E o \in Objs : Edit(o) \/ Replace(o)
        \/ \E i \in 1..Len(held) : Scribble(i)
Spec == Init /\ [][Next]_vars
Faithful == \A i \in 1..Len(held) : held[i].value = held[i].of
KeepsResults == [][\A i \in 1..Len(held) : held'[i].value = held[i].value]_vars
\* only the user changes what an object holds
OnlyEdits == [][content' # content => trail'[Len(trail')].op = "edit"]_vars
Calls == {i \in 1..Len(trail) : trail[i].op = "call"}
Emit == (Len(trail) = MaxLen /\ Cardinality(Calls) > 1) => PrintT("@@" \o ToJson([trail |-> trail, content |-> content]))
==============================================================================
