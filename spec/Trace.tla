------------------------------- MODULE Trace -------------------------------
(* Accepts a recorded history of library calls iff every call is a step of Libdfp.  Env: TRACE (ndjson
   file), SURVEY ("1": report every rejected event and go on).  Aspects: what is judged. *)
EXTENDS Libdfp, Known, Json, TLC, IOUtils
CONSTANTS Aspects
Events == ndJsonDeserialize(IOEnv.TRACE)
Survey == IOEnv.SURVEY = "1"
VARIABLES l, env
vars == <<l, env>>
Free == <<-1, -1, -1, -1>>
Init == l = 1 /\ env = [t \in {0} |-> Free]
Pre(ev) == IF ev.t \in DOMAIN env THEN env[ev.t] ELSE Free
\* the state the call starts in: the thread's own, unless the program itself changed it just before
Continues(ev) == ev.u = 1 \/ ev.p = Pre(ev)
\* an event of a concurrent run names the event of the sequential run with the same call in the same state
SameAsAlone(ev) == "ref" \notin DOMAIN ev \/ (LET s == Events[ev.ref] IN
  s.f = ev.f /\ s.w = ev.w /\ s.a = ev.a /\ s.p = ev.p => s.r = ev.r /\ s.q = ev.q /\ s.c = ev.c /\ s.k = ev.k)
Bad(ev) == ((IF Continues(ev) THEN {} ELSE {"env"}) \cup (IF SameAsAlone(ev) THEN {} ELSE {"alone"}) \cup Failed(ev, ev.p, Aspects)) \cap Aspects
Expected(ev) == IF ev.f \in {"setround", "getround"} \/ ev.c # 0 THEN <<>> ELSE Outcome(ev.f, ev.w, Direction(ev.f, ev.p), ev.a)
Report(ev, b, k) == PrintT(ToJson([rejected |-> l, aspects |-> b, known |-> k, event |-> ev, expected |-> Expected(ev)]))
Step ==
  /\ l <= Len(Events)
  /\ LET ev == Events[l]  b == Bad(ev)  k == IF b = {} THEN "" ELSE KnownFinding(ev, b) IN
     /\ IF b = {} THEN TRUE ELSE Report(ev, b, k) /\ (Survey \/ k # "")
     /\ env' = [t \in DOMAIN env \cup {ev.t} |-> IF t = ev.t THEN ev.q ELSE env[t]]
  /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
