---------------------------- MODULE HostileJudge ----------------------------
(* Judges recordings of calls during which broken messages arrived.  The   *)
(* broken messages that, by the grammar (SipRef), are no messages, or not   *)
(* of this call, must have had no effect at all; whatever the others did,   *)
(* the call must have come to one complete end.                             *)
EXTENDS SipRef, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.REC)
Want == IOEnv.PROP
Fail(r, why) == IF Want \in {"all", "C11"} THEN PrintT("FAIL " \o ToJson([id |-> r.id, prop |-> "C11", why |-> why, what |-> {}])) ELSE TRUE

\* Can the bytes of event e have any meaning for the call?
Inert(r, e) ==
  LET w == RefMsg(e.txt) IN
  CASE w.k = REJ -> TRUE
    [] w.k = ANY -> FALSE
    [] OTHER -> \/ w.v.via = <<>>
                \/ r.cid \notin w.v.callid
                \/ ~w.v.st.req /\ w.v.cseq = {}
Hostiles(r) == {i \in 1..Len(r.ev) : r.ev[i].k = "env" /\ r.ev[i].e = "hostile"}
Vals(r, k) == LET q == SelectSeq(r.obs.app, LAMBDA o : o.k = k) IN [i \in 1..Len(q) |-> q[i].v]
Last(q) == q[Len(q)]
\* The request that probes: answered with 200 once.
Probe(r) == LET P == {i \in 1..Len(r.ev) : r.ev[i].k = "env" /\ r.ev[i].e = "req" /\ r.ev[i].m = "OPTIONS"}
            IN \A i \in P : Cardinality({j \in 1..Len(r.obs.s1) : r.obs.s1[j].k = "resp" /\ r.obs.s1[j].id = r.ev[i].id /\ r.obs.s1[j].st = 200}) = 1
Judge(r) ==
  IF r.crash # "" THEN Fail(r, "the process crashed or hung")
  ELSE LET app == r.obs.app
           ends == {i \in 1..Len(app) : app[i].k = "err" \/ (app[i].k = "state" /\ app[i].v = "Hangup")}
           st == Vals(r, "state")
       IN IF app = <<>> \/ Last(app).k # "closed" THEN Fail(r, "a BYE does not end the call any more")
          ELSE IF ends # {Len(app) - 1} THEN Fail(r, "not one terminal report at the end")
          ELSE IF Last(r.ev).leak # 0 THEN Fail(r, "the call leaves something behind")
          ELSE IF Hostiles(r) = {} \/ \E i \in Hostiles(r) : ~Inert(r, r.ev[i]) THEN TRUE
          ELSE IF st # r.states \o <<"Hangup">> THEN Fail(r, "what is no message of the call changed its progress")
          ELSE IF Vals(r, "peer") # r.peers THEN Fail(r, "what is no message of the call changed the media peer")
          ELSE IF ~Probe(r) THEN Fail(r, "a request after broken messages is not answered")
          ELSE TRUE

VARIABLE n
Init == n = 0
Next == n < Len(Recs) /\ n' = n + 1 /\ Judge(Recs[n'])
Spec == Init /\ [][Next]_n
=============================================================================
