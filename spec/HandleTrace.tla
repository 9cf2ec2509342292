------------------------------- MODULE HandleTrace -------------------------------
(***************************************************************************)
(* Trace validation of the life of native contexts and messages under a    *)
(* language interface, as its C functions see them: a context is used only *)
(* while it lives, is freed once, not while in use, and every context and  *)
(* message is released in the end.  A collector may keep a few wrappers    *)
(* (Go allocates small objects in shared blocks), hence "most" contexts.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Emit
CONSTANTS File
Trace == Once("trace", ndJsonDeserialize(File))
VARIABLES at, live, dead, using, msgs
vars == <<at, live, dead, using, msgs>>
Found(what, t) == Emit("findings.ndjson", [what |-> what, at |-> at, case |-> 0, plan |-> "natives", event |-> t])
Init == at = 1 /\ live = {} /\ dead = {} /\ using = << >> /\ msgs = {}
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Uses(n) == {c \in DOMAIN using : using[c] = n}
Step ==
  /\ at <= Len(Trace) /\ at' = at + 1
  /\ LET t == Trace[at] IN
     CASE t.e = "made"    -> /\ live' = live \cup {t.n} /\ UNCHANGED <<dead, using, msgs>>
                             /\ IF t.n \notin live THEN TRUE ELSE Found("a context was made where one lives", t)
       [] t.e = "entered" -> /\ using' = With(using, t.call, t.n) /\ UNCHANGED <<live, dead, msgs>>
                             /\ IF t.n \in live THEN TRUE ELSE Found("a call uses a context that does not live", t)
       [] t.e = "left"    -> /\ using' = Without(using, t.call) /\ UNCHANGED <<live, dead>>
                             /\ msgs' = IF t.msg = "" THEN msgs ELSE msgs \cup {t.msg}
       [] t.e = "freed"   -> /\ live' = live \ {t.n} /\ dead' = dead \cup {at} /\ UNCHANGED <<using, msgs>>
                             /\ IF t.n \in live THEN TRUE ELSE Found("a context was freed twice", t)
                             /\ IF Uses(t.n) = {} THEN TRUE ELSE Found("a context was freed while a call used it", t)
       [] t.e = "unmsg"   -> /\ msgs' = msgs \ {t.msg} /\ UNCHANGED <<live, dead, using>>
                             /\ IF t.msg \in msgs \/ t.msg = "" THEN TRUE ELSE Found("a message was released that is not there", t)
       [] t.e = "done"    -> /\ UNCHANGED <<live, dead, using, msgs>>
                             /\ IF Cardinality(live) * 2 <= Cardinality(live) + Cardinality(dead) THEN TRUE ELSE Found("contexts were not released", [live |-> Cardinality(live)])
                             /\ IF msgs = {} THEN TRUE ELSE Found("messages were not released", [msgs |-> Cardinality(msgs)])
                             /\ Emit("findings.ndjson", [what |-> "summary", at |-> at])
       [] OTHER           -> Emit("broken.ndjson", [at |-> at, event |-> t]) /\ UNCHANGED <<live, dead, using, msgs>>
Spec == Init /\ [][Step]_vars
View == at
=============================================================================
