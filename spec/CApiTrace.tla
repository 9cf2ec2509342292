------------------------------- MODULE CApiTrace -------------------------------
(***************************************************************************)
(* Trace validation of the C interface: the recorded history of contexts,  *)
(* calls and messages is walked as a behaviour of CApi; a call is judged   *)
(* by what CApi says a caller observes (property "results"), contexts and  *)
(* messages by their life cycle (property "lifecycle").                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Emit
CONSTANTS File
(* the relation between the library's outcome and what the caller sees comes from the model of the interface *)
Api == INSTANCE CApi WITH Threads <- {}, Slots <- {}, MaxCalls <- 0, Design <- "own", ctx <- << >>, msgs <- {}, heap <- << >>, call <- << >>, last <- << >>, n <- 0
Trace == Once("trace", ndJsonDeserialize(File))
VARIABLES at, hdr,
          ctx,      \* live contexts: <<owner thread, slot>> (owner 0: shared by all threads)
          call,     \* thread -> <<slot, entry>>
          held      \* messages not yet released
vars == <<at, hdr, ctx, call, held>>
Found(about, what, t) == Emit("findings.ndjson", [about |-> about, what |-> what, at |-> at, case |-> Trace[hdr].case, plan |-> Trace[hdr].plan, mode |-> Trace[hdr].mode, event |-> t])
Bad(t) == Emit("broken.ndjson", [at |-> at, event |-> t])
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Usable(th, s) == <<th, s>> \in ctx \/ <<0, s>> \in ctx
InUse(s) == \E x \in DOMAIN call : call[x][1] = s
Heads(t) == t.e = "case" /\ call = << >> /\ ctx = {} /\ held = {}
News(t) == t.e = "new" /\ <<t.t, t.slot>> \notin ctx
Frees(t) == t.e = "free" /\ <<t.t, t.slot>> \in ctx /\ ~InUse(t.slot)
Begins(t) == t.e = "begin" /\ ~(t.t \in DOMAIN call) /\ Usable(t.t, t.slot)
Ends(t) == t.e = "end" /\ t.t \in DOMAIN call /\ call[t.t] = <<t.slot, t.entry>>
FreesMsg(t) == t.e = "freemsg"
Init == at = 1 /\ hdr = 1 /\ ctx = {} /\ call = << >> /\ held = {}
Judge(t) ==
  /\ IF Api!Observed(t.op, t.lib, t) THEN TRUE
     ELSE Found("results", "the caller does not observe the library's outcome", t)
  /\ IF t.outside THEN Found("results", "memory outside the output buffers was written", t) ELSE TRUE
  /\ IF t.inputs THEN TRUE ELSE Found("results", "an input was modified", t)
  /\ IF t.m # 0 /\ t.m \in held THEN Found("lifecycle", "two live messages are the same object", t) ELSE TRUE
Step ==
  /\ at <= Len(Trace) /\ at' = at + 1
  /\ LET t == Trace[at] IN
     CASE Heads(t)    -> /\ hdr' = at /\ UNCHANGED <<ctx, call, held>>
                         /\ IF t.consts = <<2048, 48, 128>> THEN TRUE ELSE Emit("findings.ndjson", [about |-> "results", what |-> "the size constants are wrong", at |-> at, case |-> t.case, plan |-> t.plan, mode |-> t.mode, event |-> t])
       [] News(t)     -> /\ ctx' = ctx \cup {<<t.t, t.slot>>} /\ UNCHANGED <<hdr, call, held>>
                         /\ IF t.null THEN Found("results", "no context was returned", t) ELSE TRUE
       [] Frees(t)    -> ctx' = ctx \ {<<t.t, t.slot>>} /\ UNCHANGED <<hdr, call, held>>
       [] Begins(t)   -> call' = With(call, t.t, <<t.slot, t.entry>>) /\ UNCHANGED <<hdr, ctx, held>>
       [] Ends(t)     -> call' = Without(call, t.t) /\ held' = (IF t.m = 0 THEN held ELSE held \cup {t.m}) /\ UNCHANGED <<hdr, ctx>> /\ Judge(t)
       [] FreesMsg(t) -> /\ held' = held \ {t.m} /\ UNCHANGED <<hdr, ctx, call>>
                         /\ IF t.same THEN TRUE ELSE Found("lifecycle", "a message changed before it was released", t)
       [] t.e = "balance" -> UNCHANGED <<hdr, ctx, call, held>> /\ IF t.final /\ t.leak THEN Found("lifecycle", "memory stays allocated after everything was released", t) ELSE TRUE
       [] t.e = "quiet"   -> UNCHANGED <<hdr, ctx, call, held>> /\ IF t.threads_gone THEN TRUE ELSE Found("lifecycle", "threads of a context survive its release", t)
       [] t.e = "done" /\ call = << >> /\ ctx = {} /\ held = {} -> Emit("findings.ndjson", [what |-> "summary", at |-> at]) /\ UNCHANGED <<hdr, ctx, call, held>>
       [] OTHER       -> Bad(t) /\ UNCHANGED <<hdr, ctx, call, held>>
Spec == Init /\ [][Step]_vars
View == at
=============================================================================
