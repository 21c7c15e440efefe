---------------------------- MODULE ForwardInputs ----------------------------
(* A request to a forward model, spoiled step by step, and the verdict the    *)
(* caller must get: "ok", "value" (ValueError) or "unsupported"               *)
(* (NotImplementedError).  When several things are wrong any of them may be    *)
(* reported first, so the verdict is the set of admissible answers.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NS,       \* sources in the request
          MaxMut    \* how many times the request is changed

Models == {"point", "point-spherical", "dipole", "prism", "prism-magnetic", "tesseroid", "layer"}
\* arrays whose lengths have to agree
Arrays(mod) == CASE mod \in {"point", "point-spherical"} -> {"e", "n", "u", "s1"}
                 [] mod = "dipole" -> {"e", "n", "u", "s1", "s2", "s3"}
                 [] mod \in {"prism", "tesseroid"} -> {"geo", "s1"}
                 [] mod = "prism-magnetic" -> {"geo", "s1", "s2", "s3"}
                 [] OTHER -> {}
Vector(mod) == mod \in {"dipole", "prism-magnetic"}
Boxes(mod) == mod \in {"prism", "prism-magnetic", "tesseroid"}
HasSystem(mod) == mod \in {"point", "point-spherical"}
CanDisable(mod) == mod \in {"dipole", "prism", "prism-magnetic", "tesseroid"}

VARIABLES req, muts, last
vars == <<req, muts, last>>
Init == /\ muts = 0 /\ last = "init"
        /\ \E mod \in Models : req = [model |-> mod, field |-> "ok", system |-> "ok", comps |-> 3, disable |-> FALSE,
                                      size |-> [a \in Arrays(mod) |-> NS],
                                      box |-> [j \in 1..NS |-> [x \in 1..3 |-> "ok"]]]
Do(name, r) == muts < MaxMut /\ req' = r /\ muts' = muts + 1 /\ last' = name
Field == \E f \in {"unknown"} \cup (IF req.model = "point-spherical" THEN {"unsupported"} ELSE {}) :
            req.field = "ok" /\ Do("field", [req EXCEPT !.field = f])
System == HasSystem(req.model) /\ req.system = "ok" /\ Do("system", [req EXCEPT !.system = "unknown"])
Comps == Vector(req.model) /\ req.comps = 3 /\ \E k \in {2, 4} : Do("comps", [req EXCEPT !.comps = k])
Resize == \E a \in Arrays(req.model), d \in {-1, 1} : req.size[a] + d \in 1..(NS + 1) /\ Do("resize", [req EXCEPT !.size[a] = @ + d])
\* a source is added or removed from every array at once: still consistent
ResizeAll == Arrays(req.model) # {} /\ \E d \in {-1, 1} :
               /\ \A a \in Arrays(req.model) : req.size[a] + d \in 1..(NS + 1)
               /\ Do("resize-all", [req EXCEPT !.size = [a \in Arrays(req.model) |-> @[a] + d]])
Flip == Boxes(req.model) /\ \E j \in 1..NS, x \in 1..3, how \in {"swapped", "flat"} :
          req.box[j][x] = "ok" /\ Do(how, [req EXCEPT !.box[j][x] = how])
Disable == CanDisable(req.model) /\ ~req.disable /\ Do("disable", [req EXCEPT !.disable = TRUE])
Next == Field \/ System \/ Comps \/ Resize \/ ResizeAll \/ Flip \/ Disable
Spec == Init /\ [][Next]_vars

\* boxes that exist in the request (the geometry array may have been cut)
Present == IF Boxes(req.model) THEN 1..(IF req.size["geo"] < NS THEN req.size["geo"] ELSE NS) ELSE {}
BadSize == \E a, b \in Arrays(req.model) : req.size[a] # req.size[b]
BadBox == \E j \in Present, x \in 1..3 : req.box[j][x] = "swapped"
Wrong == {"value" : k \in {x \in {1} : req.field = "unknown" \/ req.system = "unknown" \/ BadSize \/ BadBox \/ req.comps # 3}}
           \cup {"unsupported" : k \in {x \in {1} : req.field = "unsupported"}}
Verdict == IF Wrong = {} THEN {"ok"} ELSE Wrong
\* with the checks disabled only valid requests (and unknown fields, which are no sanity check) have a specified answer
Specified == ~req.disable \/ Wrong = {} \/ req.field = "unknown"

\* consistent edits never spoil a request, and a spoiled field or system stays spoiled
NeverRejected == (last \in {"init", "resize-all", "flat", "disable"} /\ muts <= 1) => Verdict = {"ok"}
StaysWrong == [][(req.field # "ok" \/ req.system # "ok") => ~("ok" \in Verdict')]_vars
Emit == Specified => PrintT("@@" \o ToJson([req |-> req, verdict |-> Verdict, last |-> last]))
==============================================================================
