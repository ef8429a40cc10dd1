------------------------------ MODULE Download ------------------------------
(* Fetching a remote file to a local target.                                   *)
(* The disk is a map from targets to contents: NoFile, Dir, Unopen (a place     *)
(* where no file can be made), Broken (an incomplete file) or a body (0..).     *)
(* A response is what the other side does to one request:                       *)
(*   conn  "refused" | "mute" (accepts and closes) | "junk" (no HTTP) | "ok"    *)
(*   code  status code                                                          *)
(*   whole TRUE iff the body arrives up to its announced end                    *)
(*   body  identity of the body that status line comes with                     *)
(*   to    where a redirection leads: the body found there (or -9)              *)
(*   room  FALSE iff the disk takes fewer bytes than the body has               *)
EXTENDS Integers, Sequences
NoFile == -1
Dir    == -2
Unopen == -4
Broken == -3
IsBody(v) == v >= 0
Success(r)  == r.conn = "ok" /\ r.code \in 200..299 /\ r.whole
Redirect(r) == r.conn = "ok" /\ r.code \in 301..308 /\ r.to >= 0
Opens(v) == v = NoFile \/ IsBody(v)            \* may be opened for writing (if not locked)

(* What a call may report (< 0 refused, 0 success, > 0 error) and leave behind  *)
Allowed(pre, locked, force, r, res, post) ==
  IF IsBody(pre) /\ ~force THEN res < 0 /\ post = pre
  ELSE IF ~Opens(pre) \/ locked THEN res > 0 /\ post = pre
  ELSE \/ res = 0 /\ r.room /\ Success(r)  /\ post = r.body
       \/ res = 0 /\ r.room /\ Redirect(r) /\ post = r.to         \* following it is as good as refusing it
       \/ res > 0 /\ ~(r.room /\ Success(r)) /\ post \in {NoFile, pre}
(* a refused call asks nobody *)
AskedOk(pre, force, res, asked) ==
  IF IsBody(pre) /\ ~force THEN asked = 0 ELSE res = 0 => asked > 0
=============================================================================
