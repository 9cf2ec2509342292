------------------------------- MODULE ConcTrace -------------------------------
(***************************************************************************)
(* Trace validation: is what the implementation did a behaviour of the     *)
(* interface of Conc.tla?  Contexts are made, bound to a setup, and        *)
(* dropped; a call begins on a live context and ends with the result that  *)
(* its argument has under that setup - whatever happened in between.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Emit
CONSTANTS File
Trace == Once("trace", ndJsonDeserialize(File))
VARIABLES at, hdr,      \* position, position of the header of the current run
          ctx, call     \* slot -> setup; thread -> <<slot, entry>>
vars == <<at, hdr, ctx, call>>
Found(what, t) == Emit("findings.ndjson", [what |-> what, at |-> at, case |-> Trace[hdr].case, mode |-> Trace[hdr].mode, plan |-> Trace[hdr].plan, event |-> t])
Bad(t) == Emit("broken.ndjson", [at |-> at, event |-> t])
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == at = 1 /\ hdr = 1 /\ ctx = << >> /\ call = << >>
Begins(t) == t.e = "begin" /\ ~(t.t \in DOMAIN call) /\ t.slot \in DOMAIN ctx
Ends(t) == t.e = "end" /\ t.t \in DOMAIN call /\ call[t.t] = <<t.slot, t.entry>> /\ t.slot \in DOMAIN ctx
News(t) == t.e = "new" /\ ~(t.slot \in DOMAIN ctx)
Drops(t) == t.e = "drop" /\ t.slot \in DOMAIN ctx /\ \A x \in DOMAIN call : call[x][1] # t.slot
Heads(t) == t.e = "case" /\ call = << >> /\ ctx = << >>
Step ==
  /\ at <= Len(Trace) /\ at' = at + 1
  /\ LET t == Trace[at] IN
     CASE Heads(t)  -> hdr' = at /\ UNCHANGED <<ctx, call>>
       [] News(t)   -> ctx' = With(ctx, t.slot, t.setup) /\ UNCHANGED <<hdr, call>>
       [] Drops(t)  -> ctx' = Without(ctx, t.slot) /\ UNCHANGED <<hdr, call>>
       [] Begins(t) -> call' = With(call, t.t, <<t.slot, t.entry>>) /\ UNCHANGED <<hdr, ctx>>
       [] Ends(t)   -> /\ call' = Without(call, t.t) /\ UNCHANGED <<hdr, ctx>>
                       /\ LET w == Trace[hdr].want[t.entry][ctx[t.slot]] IN
                          IF t.kind # w.kind \/ t.digest # w.digest THEN Found("a call did not return what it returns alone", t) ELSE TRUE
       [] t.e = "done" /\ call = << >> /\ ctx = << >> -> Emit("findings.ndjson", [what |-> "summary", at |-> at]) /\ UNCHANGED <<hdr, ctx, call>>
       [] OTHER     -> Bad(t) /\ UNCHANGED <<hdr, ctx, call>>
Spec == Init /\ [][Step]_vars
View == at
(* the trace follows the protocol of the interface *)
=============================================================================
