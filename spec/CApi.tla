-------------------------------- MODULE CApi --------------------------------
(***************************************************************************)
(* The C interface: contexts and error messages handed to a caller who     *)
(* must release them, and calls that write into buffers the caller owns.   *)
(* Outcome of the library call behind a C call: "ok", "invalid" (only a    *)
(* verification) or "err".  Relation says what the caller must see.        *)
(*                                                                         *)
(* The heap is explicit: every object on it is a context, a message or a   *)
(* temporary of a running call.  Design = "own" is the code's design; the  *)
(* others are mistakes that the properties below must see.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- what a caller observes of one call ---- *)
(* lib: outcome of the library; r: [status, msg ("null" | "text" | "empty"), out ("lib" | "old" | other), flag, flag0] *)
Observed(op, lib, r) ==
  CASE lib = "ok" /\ op = "verify"      -> r.status = "ok" /\ r.msg = "null" /\ r.flag = 1
    [] lib = "ok" /\ op # "verify"      -> r.status = "ok" /\ r.msg = "null" /\ r.out = "lib"
    [] lib = "invalid" /\ op = "verify" -> r.status = "ok" /\ r.msg = "null" /\ r.flag = 0
    [] OTHER                            -> r.status = "err" /\ r.msg = "text" /\ r.out = "old" /\ r.flag = r.flag0

CONSTANTS Threads, Slots, MaxCalls, Design
VARIABLES ctx,      \* slot -> heap object or 0
          msgs,     \* messages the caller holds: set of [obj, text]
          heap,     \* object -> contents
          call,     \* thread -> 0 or [slot, op, lib, tmp, flag0, out]
          last,     \* what the last call returned
          n
vars == <<ctx, msgs, heap, call, last, n>>
Ops == {"commit", "verify"}
Outcomes(op) == IF op = "verify" THEN {"ok", "invalid", "err"} ELSE {"ok", "err"}
None == [slot |-> 0, op |-> "", lib |-> "", tmp |-> 0, flag0 |-> 0, out |-> "old"]
Fresh == CHOOSE x \in 1..(Cardinality(DOMAIN heap) + 1) : x \notin DOMAIN heap
Alloc(v) == [x \in DOMAIN heap \cup {Fresh} |-> IF x = Fresh THEN v ELSE heap[x]]
FreeIn(h, o) == [x \in DOMAIN h \ {o} |-> h[x]]
Init == ctx = [s \in Slots |-> 0] /\ msgs = {} /\ heap = << >> /\ call = [t \in Threads |-> None] /\ last = << >> /\ n = 0
New(s) == ctx[s] = 0 /\ heap' = Alloc("ctx") /\ ctx' = [ctx EXCEPT ![s] = Fresh] /\ UNCHANGED <<msgs, call, last, n>>
Free(s) == /\ ctx[s] # 0 /\ \A t \in Threads : call[t].slot # s
           /\ heap' = (IF Design = "ctxkeep" THEN heap ELSE FreeIn(heap, ctx[s])) /\ ctx' = [ctx EXCEPT ![s] = 0] /\ UNCHANGED <<msgs, call, last, n>>
Begin(t, s, op, lib, f) ==
  /\ call[t] = None /\ ctx[s] # 0 /\ n < MaxCalls /\ n' = n + 1
  /\ heap' = Alloc("tmp")
  /\ call' = [call EXCEPT ![t] = [slot |-> s, op |-> op, lib |-> lib, tmp |-> Fresh, flag0 |-> f, out |-> IF Design = "earlywrite" THEN "zero" ELSE "old"]]
  /\ UNCHANGED <<ctx, msgs, last>>
Return(t) ==
  LET c == call[t]
      h1 == IF Design = "leaktemp" /\ c.lib = "err" THEN heap ELSE FreeIn(heap, c.tmp)
      fails == c.lib = "err"  makes == fails \/ Design = "msgonok"
      o == IF Design = "staticmsg" /\ (\E m \in msgs : TRUE) THEN (CHOOSE m \in msgs : TRUE).obj ELSE CHOOSE x \in 1..(Cardinality(DOMAIN h1) + 1) : x \notin DOMAIN h1
      h2 == IF makes THEN [x \in DOMAIN h1 \cup {o} |-> IF x = o THEN <<"msg", n, t>> ELSE h1[x]] ELSE h1 IN
  /\ c # None /\ call' = [call EXCEPT ![t] = None]
  /\ heap' = h2
  /\ msgs' = IF fails THEN msgs \cup {[obj |-> o, text |-> <<"msg", n, t>>]} ELSE msgs
  /\ last' = <<c.op, c.lib, [status |-> IF fails THEN "err" ELSE "ok", msg |-> IF makes THEN "text" ELSE "null",
                out |-> IF c.lib = "ok" /\ c.op # "verify" THEN "lib" ELSE c.out, flag0 |-> c.flag0,
                flag |-> IF c.op # "verify" \/ fails THEN (IF Design = "flagfirst" /\ c.op = "verify" THEN 0 ELSE c.flag0) ELSE IF c.lib = "ok" THEN 1 ELSE 0]>>
  /\ UNCHANGED <<ctx, n>>
FreeMsg(m) == /\ m \in msgs /\ msgs' = msgs \ {m} /\ heap' = (IF Design = "keepmsg" THEN heap ELSE FreeIn(heap, m.obj)) /\ UNCHANGED <<ctx, call, last, n>>
Next == \/ \E s \in Slots : New(s) \/ Free(s)
        \/ \E t \in Threads, s \in Slots, op \in Ops, f \in 0..1 : \E lib \in Outcomes(op) : Begin(t, s, op, lib, f)
        \/ \E t \in Threads : Return(t)
        \/ \E m \in msgs : FreeMsg(m)
Spec == Init /\ [][Next]_vars

Faithful == last # << >> => Observed(last[1], last[2], last[3])
(* what is on the heap is what the caller holds or a running call uses *)
Held == {ctx[s] : s \in Slots} \cup {m.obj : m \in msgs} \cup {call[t].tmp : t \in Threads}
NoLeak == DOMAIN heap \subseteq Held
NoDangling == Held \ {0} \subseteq DOMAIN heap
MessagesStable == \A m \in msgs : m.obj \in DOMAIN heap /\ heap[m.obj] = m.text
DistinctObjects == \A m1, m2 \in msgs : m1 # m2 => m1.obj # m2.obj
=============================================================================
