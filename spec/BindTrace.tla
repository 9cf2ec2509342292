------------------------------- MODULE BindTrace -------------------------------
(***************************************************************************)
(* Trace validation of a language interface: the recorded history of       *)
(* contexts and (possibly overlapping) calls is walked, and each call must *)
(* return what the library returns for the same arguments: the same bytes, *)
(* true or false for the two verdicts, an error otherwise.                 *)
(* A call on a closed context must be an error.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Emit
CONSTANTS File, Consts
Trace == Once("trace", ndJsonDeserialize(File))
VARIABLES at, hdr,
          ctx,      \* contexts in reach of the program: <<thread, slot>>, thread 0 for those of all threads
          closed,   \* contexts that were closed explicitly
          call      \* running call -> <<thread, slot, entry, was closed before it began>>
vars == <<at, hdr, ctx, closed, call>>
Found(what, t) == Emit("findings.ndjson", [what |-> what, at |-> at, case |-> Trace[hdr].case, plan |-> Trace[hdr].plan, event |-> t])
Bad(t) == Emit("broken.ndjson", [at |-> at, event |-> t])
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Key(t) == IF <<t.t, t.slot>> \in ctx THEN <<t.t, t.slot>> ELSE <<0, t.slot>>
Init == at = 1 /\ hdr = 1 /\ ctx = {} /\ closed = {} /\ call = << >>
Returned(t, c) ==
  CASE c[4]            -> t.kind = "err"
    [] t.lib = "ok"      -> t.kind = "ok" /\ t.digest = "same"
    [] t.lib = "invalid" -> t.kind = "invalid"
    [] OTHER             -> t.kind = "err"
Heads(t) == t.e = "case" /\ call = << >> /\ ctx = {}
News(t) == t.e = "new" /\ <<t.t, t.slot>> \notin ctx
Closes(t) == t.e = "close" /\ <<t.t, t.slot>> \in ctx
Drops(t) == t.e = "drop" /\ <<t.t, t.slot>> \in ctx
Begins(t) == t.e = "begin" /\ Key(t) \in ctx /\ ~(t.call \in DOMAIN call)
Ends(t) == t.e = "end" /\ t.call \in DOMAIN call /\ SubSeq(call[t.call], 1, 3) = <<t.t, t.slot, t.entry>>
Step ==
  /\ at <= Len(Trace) /\ at' = at + 1
  /\ LET t == Trace[at] IN
     CASE Heads(t)  -> /\ hdr' = at /\ UNCHANGED <<ctx, closed, call>>
                       /\ IF t.consts = Consts THEN TRUE ELSE Emit("findings.ndjson", [what |-> "the constants are wrong", at |-> at, case |-> t.case, plan |-> t.plan, event |-> t])
       [] News(t)   -> /\ ctx' = ctx \cup {<<t.t, t.slot>>} /\ closed' = closed \ {<<t.t, t.slot>>} /\ UNCHANGED <<hdr, call>>
                       /\ IF t.ok THEN TRUE ELSE Found("no context was made", t)
       [] Closes(t) -> closed' = closed \cup {<<t.t, t.slot>>} /\ UNCHANGED <<hdr, ctx, call>>
       [] Drops(t)  -> ctx' = ctx \ {<<t.t, t.slot>>} /\ UNCHANGED <<hdr, closed, call>>
       [] Begins(t) -> call' = With(call, t.call, <<t.t, t.slot, t.entry, Key(t) \in closed>>) /\ UNCHANGED <<hdr, ctx, closed>>
       [] Ends(t)   -> /\ call' = Without(call, t.call) /\ UNCHANGED <<hdr, ctx, closed>>
                       /\ IF Returned(t, call[t.call]) THEN TRUE ELSE Found("a call did not return what the library returns", t)
                       /\ IF t.inputs THEN TRUE ELSE Found("a call changed its arguments", t)
       [] t.e = "lives" -> (IF t.released THEN TRUE ELSE Found("closed contexts keep their threads", t)) /\ UNCHANGED <<hdr, ctx, closed, call>>
       [] t.e = "done" /\ call = << >> /\ ctx = {} -> Emit("findings.ndjson", [what |-> "summary", at |-> at]) /\ UNCHANGED <<hdr, ctx, closed, call>>
       [] OTHER     -> Bad(t) /\ UNCHANGED <<hdr, ctx, closed, call>>
Spec == Init /\ [][Step]_vars
View == at
=============================================================================
