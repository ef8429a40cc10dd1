----------------------------- MODULE DownloadMC -----------------------------
(* The downloading algorithm step by step, with a fault possible at each step,  *)
(* checked against the declarative meaning (Allowed); and the generator of      *)
(* call histories.                                                              *)
EXTENDS Download, TLC, Json
CONSTANTS Targets, MaxCalls, Emit
VARIABLES disk, locked, pc, call, got, log, hist
vars == <<disk, locked, pc, call, got, log, hist>>
Bodies == {0, 1}
Errs == {404}
Resps ==
  {[conn |-> c, code |-> 0, whole |-> FALSE, body |-> -9, to |-> -9, room |-> TRUE] : c \in {"refused", "mute", "junk"}}
  \cup {[conn |-> "ok", code |-> 200, whole |-> w, body |-> b, to |-> -9, room |-> s] : w \in BOOLEAN, s \in BOOLEAN, b \in {1, 2}}
  \cup {[conn |-> "ok", code |-> 200, whole |-> TRUE, body |-> 0, to |-> -9, room |-> TRUE]}
  \cup {[conn |-> "ok", code |-> 404, whole |-> w, body |-> 3, to |-> -9, room |-> TRUE] : w \in BOOLEAN}
  \cup {[conn |-> "ok", code |-> 302, whole |-> TRUE, body |-> 3, to |-> t, room |-> TRUE] : t \in {-9, 2}}
InitDisk == [t \in Targets |-> IF t = "d" THEN Dir ELSE IF t = "n" THEN Unopen ELSE NoFile]
Init == disk = InitDisk /\ locked = {} /\ pc = "idle" /\ call = <<>> /\ got = -9 /\ log = <<>> /\ hist = <<>>
H(r) == IF Emit THEN Append(hist, r) ELSE hist
N == Len(log)
Put(t, b) == pc = "idle" /\ N < MaxCalls /\ disk[t] \notin {Dir, Unopen} /\ t \notin locked
             /\ disk' = [disk EXCEPT ![t] = b] /\ log' = Append(log, "put") /\ hist' = H([op |-> "Put", t |-> t, b |-> b])
             /\ UNCHANGED <<locked, pc, call, got>>
Lock(t) == pc = "idle" /\ N < MaxCalls /\ IsBody(disk[t]) /\ t \notin locked
             /\ locked' = locked \cup {t} /\ log' = Append(log, "lock") /\ hist' = H([op |-> "Lock", t |-> t])
             /\ UNCHANGED <<disk, pc, call, got>>
Call(t, f, r) == pc = "idle" /\ N < MaxCalls
             /\ call' = [t |-> t, force |-> f, r |-> r, pre |-> disk[t]]
             /\ pc' = (IF IsBody(disk[t]) /\ ~f THEN "refuse" ELSE "open")
             /\ hist' = H([op |-> "Get", t |-> t, force |-> f, r |-> r]) /\ log' = Append(log, "get")
             /\ UNCHANGED <<disk, locked, got>>
Done(res) == pc' = "idle" /\ got' = res /\ UNCHANGED <<log, hist, locked>>
Refuse == pc = "refuse" /\ Done(-1) /\ UNCHANGED <<disk, call>>
Open == pc = "open" /\ UNCHANGED <<log, hist, locked, call>> /\
        IF Opens(disk[call.t]) /\ call.t \notin locked
        THEN pc' = "perform" /\ disk' = [disk EXCEPT ![call.t] = Broken] /\ UNCHANGED got      \* truncated
        ELSE pc' = "idle" /\ got' = 1 /\ UNCHANGED disk
Perform == pc = "perform" /\ UNCHANGED <<log, hist, locked, call, disk, got>>
           /\ pc' = (IF Success(call.r) THEN IF call.r.room THEN "close" ELSE "noroom" ELSE "remove")
Close == pc = "close" /\ disk' = [disk EXCEPT ![call.t] = call.r.body] /\ UNCHANGED call /\ Done(0)
NoRoom == pc = "noroom" /\ pc' = "remove" /\ UNCHANGED <<disk, locked, call, got, log, hist>>  \* while writing or at the close
Remove == pc = "remove" /\ disk' = [disk EXCEPT ![call.t] = NoFile] /\ UNCHANGED call /\ Done(1)
Next == (\E t \in Targets : Lock(t) \/ (\E b \in Bodies : Put(t, b)) \/ (\E f \in BOOLEAN, r \in Resps : Call(t, f, r)))
        \/ Refuse \/ Open \/ Perform \/ Close \/ NoRoom \/ Remove
        \/ (pc = "idle" /\ N = MaxCalls /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Refuse \/ Open \/ Perform \/ Close \/ NoRoom \/ Remove)
DoneInv == (pc = "idle" /\ call # <<>> /\ N > 0 /\ log[N] = "get")
             => Allowed(call.pre, call.t \in locked, call.force, call.r, got, disk[call.t])
NoPartial == pc = "idle" => \A t \in Targets : disk[t] # Broken
Always == [](pc # "idle" => <>(pc = "idle"))
EmitBeh == (Emit /\ N = MaxCalls /\ pc = "idle") => PrintT("BEH " \o ToJson(hist))
=============================================================================
