-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Calls running on shared contexts.  A context is bound to one setup when *)
(* it is made.  A call consists of several pieces of work, executed in any *)
(* order and interleaved with the pieces of other calls; each piece adds   *)
(* its value to the call's buffer; the result is what the buffer holds     *)
(* when all pieces have run.  An argument may fail at one of its pieces.   *)
(*                                                                         *)
(* Design says where the buffer lives and what else outlives a call:       *)
(*   "own"       a buffer per call (the code's design)                     *)
(*   "memo"      additionally a table of results keyed by setup and all of *)
(*               the argument                                              *)
(*   "lock"      one buffer per context, calls exclude each other          *)
(*   "tls"       a buffer per thread, cleared when a call begins           *)
(* and, to show that the property below sees such mistakes and which       *)
(* histories they need:                                                    *)
(*   "scratch"   one buffer per context, no exclusion                      *)
(*   "dirty"     a buffer per thread, not cleared after a failing call     *)
(*   "memoarg"   results keyed by the argument only                        *)
(*   "memokey"   results keyed by the setup and a part of the argument     *)
(*   "first"     a table derived from the first setup ever used            *)
(*   "poison"    a context that stops working after a failing call         *)
(*                                                                         *)
(* A thread that waits for the pieces of its call may be given another     *)
(* call to run in the meantime (Depth > 1): the library's pools, and pools *)
(* of its callers, steal work that way.  "own" and "memo" do not mind;     *)
(* "lock" never returns then, and under "tls" calls mix.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Setups, Slots, Parts, MaxCalls, Design, Depth
Args == 1..4
Key(a) == IF a = 4 THEN 3 ELSE a            \* arguments 3 and 4 agree in part
FailAt(a) == IF a = 2 THEN Parts ELSE 0
Piece(s, a, i) == <<s, a, i>>
Value(s, a) == IF FailAt(a) # 0 THEN {} ELSE {Piece(s, a, i) : i \in 1..Parts}     \* what a call returns if it runs alone

VARIABLES ctx,      \* slot -> setup, or 0 when there is no context
          call,     \* thread -> stack of [slot, arg, todo, failed, waits]; the last one can end
          buf,      \* buffer owner -> set of values
          memo, first, poisoned, ended, calls
vars == <<ctx, call, buf, memo, first, poisoned, ended, calls>>
Owner(t, d, sl) == CASE Design \in {"scratch", "lock"} -> <<"c", sl, 0>> [] Design \in {"tls", "dirty"} -> <<"t", t, 0>> [] OTHER -> <<"t", t, d>>
Owners == {<<"c", x, 0>> : x \in Slots} \cup {<<"t", x, d>> : x \in Threads, d \in 0..Depth}
Top(t) == call[t][Len(call[t])]
MemoKey(s, a) == CASE Design = "memoarg" -> <<0, a>> [] Design = "memokey" -> <<s, Key(a)>> [] OTHER -> <<s, a>>
HasMemo == Design \in {"memo", "memoarg", "memokey"}

Init == /\ ctx = [s \in Slots |-> 0] /\ call = [t \in Threads |-> << >>] /\ buf = [o \in Owners |-> {}]
        /\ memo = << >> /\ first = 0 /\ poisoned = {} /\ ended = << >> /\ calls = 0
InUse(sl) == \E t \in Threads : \E d \in DOMAIN call[t] : call[t][d].slot = sl
Blocked(t) == call[t] # << >> /\ Top(t).waits
Holder(sl) == \E t \in Threads : \E d \in DOMAIN call[t] : call[t][d].slot = sl /\ ~call[t][d].waits
New(sl, s) == /\ ctx[sl] = 0 /\ ctx' = [ctx EXCEPT ![sl] = s] /\ first' = (IF first = 0 THEN s ELSE first)
              /\ poisoned' = poisoned \ {sl} /\ UNCHANGED <<call, buf, memo, ended, calls>>
Drop(sl) == /\ ctx[sl] # 0 /\ ~InUse(sl) /\ ctx' = [ctx EXCEPT ![sl] = 0] /\ UNCHANGED <<call, buf, memo, first, poisoned, ended, calls>>
(* "waits": the call has been begun but has yet to get hold of its context ("lock" only) *)
Begin(t, sl, a) ==
  /\ Len(call[t]) < Depth /\ ctx[sl] # 0 /\ calls < MaxCalls /\ calls' = calls + 1
  /\ ~Blocked(t)
  /\ call' = [call EXCEPT ![t] = Append(@, [slot |-> sl, arg |-> a, todo |-> 1..Parts, failed |-> sl \in poisoned, waits |-> Design = "lock"])]
  /\ buf' = IF Design \in {"dirty", "lock"} THEN buf ELSE [buf EXCEPT ![Owner(t, Len(call[t]) + 1, sl)] = {}]
  /\ UNCHANGED <<ctx, memo, first, poisoned, ended>>
Enter(t) ==
  /\ Blocked(t) /\ ~Holder(Top(t).slot)
  /\ call' = [call EXCEPT ![t][Len(call[t])].waits = FALSE]
  /\ buf' = [buf EXCEPT ![Owner(t, Len(call[t]), Top(t).slot)] = {}]
  /\ UNCHANGED <<ctx, memo, first, poisoned, ended, calls>>
(* a piece may be run by any thread of the pool, so also while the caller is busy with a call it was given meanwhile *)
Work(t, d, i) ==
  /\ d \in DOMAIN call[t]
  /\ LET c == call[t][d] s == IF Design = "first" THEN first ELSE ctx[c.slot] IN
     /\ i \in c.todo /\ ~c.failed /\ ~c.waits
     /\ IF FailAt(c.arg) = i
        THEN call' = [call EXCEPT ![t][d].failed = TRUE] /\ UNCHANGED buf
        ELSE call' = [call EXCEPT ![t][d].todo = @ \ {i}] /\ buf' = [buf EXCEPT ![Owner(t, d, c.slot)] = @ \cup {Piece(s, c.arg, i)}]
  /\ UNCHANGED <<ctx, memo, first, poisoned, ended, calls>>
End(t) ==
  /\ call[t] # << >>
  /\ LET c == Top(t) s == ctx[c.slot] k == MemoKey(s, c.arg) o == Owner(t, Len(call[t]), c.slot)
         r == IF c.failed THEN {} ELSE IF HasMemo /\ k \in DOMAIN memo THEN memo[k] ELSE buf[o] IN
     /\ ~c.waits /\ (c.failed \/ c.todo = {})
     /\ ended' = <<s, c.arg, r>>
     /\ call' = [call EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
     /\ memo' = IF HasMemo /\ ~c.failed THEN [x \in DOMAIN memo \cup {k} |-> IF x = k THEN r ELSE memo[x]] ELSE memo
     /\ buf' = IF c.failed THEN buf ELSE [buf EXCEPT ![o] = {}]
     /\ poisoned' = IF Design = "poison" /\ c.failed THEN poisoned \cup {c.slot} ELSE poisoned
  /\ UNCHANGED <<ctx, first, calls>>
Next == \/ \E sl \in Slots, s \in Setups : New(sl, s)
        \/ \E sl \in Slots : Drop(sl)
        \/ \E t \in Threads, sl \in Slots, a \in Args : Begin(t, sl, a)
        \/ \E t \in Threads, d \in 1..Depth, i \in 1..Parts : Work(t, d, i)
        \/ \E t \in Threads : Enter(t) \/ End(t)
Fair == \A t \in Threads : WF_vars(End(t)) /\ SF_vars(Enter(t)) /\ \A d \in 1..Depth, i \in 1..Parts : WF_vars(Work(t, d, i))
Spec == Init /\ [][Next]_vars /\ Fair

(* every call returns what it would return alone *)
Isolated == ended # << >> => ended[3] = Value(ended[1], ended[2])
(* a context is bound to its setup until it is dropped *)
Bound == [][\A sl \in Slots : ctx[sl] # 0 => ctx'[sl] \in {ctx[sl], 0}]_vars
Returns == \A t \in Threads : call[t] # << >> ~> call[t] = << >>
=============================================================================
