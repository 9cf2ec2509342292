------------------------------- MODULE Handle -------------------------------
(***************************************************************************)
(* How a garbage-collected language may hold contexts that live outside    *)
(* its heap.  A program has variables that refer to wrappers; a wrapper    *)
(* refers to a native context.  A call reads the native context out of the *)
(* wrapper, uses it for a while, and may produce a message that somebody   *)
(* has to release.  The collector may reclaim a wrapper whenever nothing   *)
(* refers to it; closing is the explicit way to release.                   *)
(*                                                                         *)
(* Designs (what the interface does about it):                             *)
(*   "kept"      a running call refers to the wrapper, the finalizer of    *)
(*               the wrapper frees the native context (Go)                 *)
(*   "counted"   wrapper and running calls count references to the native  *)
(*               context, which is freed with the last one (Node.js)       *)
(*   "closed"    the native context is freed when the program closes the   *)
(*               wrapper, which then refers to none; a call on a closed    *)
(*               wrapper fails (Java)                                      *)
(* Designs that are refuted:                                               *)
(*   "bare"      as kept, but a running call only has the native context   *)
(*   "nofinal"   as kept, without a finalizer                              *)
(*   "both"      as closed, with a finalizer that frees again              *)
(*   "stale"     as closed, without the check that the wrapper is open     *)
(*   "uncounted" as counted, but calls do not count                        *)
(*   "messages"  as kept, but messages are only copied                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Design, Threads, Wrappers, MaxCalls
VARIABLES var,      \* thread -> the wrappers its variables refer to
          nat,      \* wrapper -> "none" | "live" | "freed"    its native context
          open,     \* wrapper -> it still refers to the native context
          run,      \* thread -> << >> or <<wrapper, fails, phase>>
          left,     \* thread -> calls it may still start
          msgs,     \* messages nobody has released
          bad,      \* what went wrong
          outs      \* thread -> the outcome of its last call
vars == <<var, nat, open, run, left, msgs, bad, outs>>
Closing == Design \in {"closed", "both", "stale"}
Finalizing == Design \in {"kept", "bare", "both", "messages"}
Counting == Design \in {"counted", "uncounted"}
Init ==
  /\ var = [t \in Threads |-> {}] /\ nat = [w \in Wrappers |-> "none"] /\ open = [w \in Wrappers |-> FALSE]
  /\ run = [t \in Threads |-> << >>] /\ left = [t \in Threads |-> MaxCalls] /\ msgs = 0 /\ bad = {} /\ outs = [t \in Threads |-> "none"]
InUse(w) == {t \in Threads : run[t] # << >> /\ run[t][1] = w}
Free(w, now) ==          \* now: the set of threads inside a call on w
  /\ nat' = [nat EXCEPT ![w] = "freed"]
  /\ bad' = bad \cup (IF nat[w] = "freed" THEN {"freed twice"} ELSE {}) \cup (IF now # {} THEN {"freed while in use"} ELSE {})
New(t, w) == /\ nat[w] = "none" /\ nat' = [nat EXCEPT ![w] = "live"] /\ open' = [open EXCEPT ![w] = TRUE]
             /\ var' = [var EXCEPT ![t] = @ \cup {w}] /\ UNCHANGED <<run, left, msgs, bad, outs>>
Share(t, u, w) == w \in var[t] /\ w \notin var[u] /\ var' = [var EXCEPT ![u] = @ \cup {w}] /\ UNCHANGED <<nat, open, run, left, msgs, bad, outs>>
Begin(t, w, fails) ==
  /\ w \in var[t] /\ run[t] = << >> /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ IF open[w] \/ Design = "stale"
     THEN /\ run' = [run EXCEPT ![t] = <<w, fails, "in">>] /\ bad' = bad \cup (IF nat[w] = "freed" THEN {"used after it was freed"} ELSE {}) /\ UNCHANGED outs
     ELSE outs' = [outs EXCEPT ![t] = "closed"] /\ UNCHANGED <<run, bad>>
  /\ UNCHANGED <<var, nat, open, msgs>>
\* the native function returns; a failure comes with a message
Return(t) ==
  /\ run[t] # << >> /\ run[t][3] = "in" /\ run' = [run EXCEPT ![t][3] = "out"] /\ msgs' = msgs + (IF run[t][2] THEN 1 ELSE 0) /\ UNCHANGED <<var, nat, open, left, bad, outs>>
Busy(w, ts) == {t \in ts : run[t][3] = "in"}
End(t) ==
  /\ run[t] # << >> /\ run[t][3] = "out"
  /\ outs' = [outs EXCEPT ![t] = IF run[t][2] THEN "err" ELSE "ok"]
  /\ msgs' = IF run[t][2] /\ Design # "messages" THEN msgs - 1 ELSE msgs
  /\ run' = [run EXCEPT ![t] = << >>]
  /\ LET w == run[t][1] IN
     IF Design = "counted" /\ ~open[w] /\ InUse(w) = {t} THEN Free(w, {}) ELSE UNCHANGED <<nat, bad>>
  /\ UNCHANGED <<var, open, left>>
Drop(t, w) == w \in var[t] /\ ~(run[t] # << >> /\ Closing) /\ var' = [var EXCEPT ![t] = @ \ {w}] /\ UNCHANGED <<nat, open, run, left, msgs, bad, outs>>
\* the program closes a wrapper only when no call on it is running (an obligation of the user)
Close(t, w) ==
  /\ Closing /\ w \in var[t] /\ InUse(w) = {} /\ open' = [open EXCEPT ![w] = FALSE]
  /\ IF open[w] THEN Free(w, {}) ELSE UNCHANGED <<nat, bad>>
  /\ UNCHANGED <<var, run, left, msgs, outs>>
Reached(w) == \/ \E t \in Threads : w \in var[t]
              \/ Design \notin {"bare"} /\ ~Counting /\ InUse(w) # {}
Collectable(w) == nat[w] # "none" /\ ~Reached(w)
Collect(w) ==
  /\ Collectable(w)
  /\ CASE Finalizing /\ Design # "both" -> open[w] /\ open' = [open EXCEPT ![w] = FALSE] /\ Free(w, Busy(w, InUse(w)))
       [] Design = "both"  -> open[w] = FALSE /\ Free(w, {}) /\ UNCHANGED open
       [] Counting         -> open[w] /\ open' = [open EXCEPT ![w] = FALSE] /\ (IF Design = "counted" /\ InUse(w) # {} THEN UNCHANGED <<nat, bad>> ELSE Free(w, Busy(w, InUse(w))))
       [] OTHER            -> FALSE
  /\ UNCHANGED <<var, run, left, msgs, outs>>
Next == \/ \E t \in Threads : \/ \E w \in Wrappers : New(t, w) \/ Drop(t, w) \/ Close(t, w) \/ (\E f \in BOOLEAN : Begin(t, w, f)) \/ (\E u \in Threads \ {t} : Share(t, u, w))
                              \/ Return(t) \/ End(t)
        \/ \E w \in Wrappers : Collect(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Wrappers : WF_vars(Collect(w)) /\ \A t \in Threads : WF_vars(Return(t)) /\ WF_vars(End(t))
Safe == bad = {}
NoMessageLeaks == (\A t \in Threads : run[t] = << >>) => msgs = 0
Refused == \A t \in Threads : outs[t] = "closed" => Closing
\* what nobody can reach any more is freed in the end (when the program may close: if it did)
NoContextLeaks == \A w \in Wrappers : (nat[w] = "live" /\ (\A t \in Threads : w \notin var[t]) /\ ~Closing) ~> (nat[w] = "freed")
=============================================================================
