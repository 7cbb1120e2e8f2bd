----------------------------- MODULE TraceDialog -----------------------------
(***************************************************************************)
(* Judges recordings of real calls.  A recording is                        *)
(*   ev   what the environment did and when each output was seen, in the   *)
(*        order the recorder logged it (an action is logged before it is   *)
(*        done, an output after it was seen);                              *)
(*   obs  the outputs themselves, one sequence per stream ("app" or a      *)
(*        server).                                                         *)
(* The recording is accepted iff DialogCore has a behaviour that explains  *)
(* it: messages wait in an inbox, hangup requests in a queue, and the call *)
(* reacts at any time (silent steps); its outputs must be exactly the      *)
(* recorded ones, stream by stream.  Outputs whose kind is not in Visible  *)
(* are disregarded on both sides.  The check of one property looks at the  *)
(* outputs that property is about; of the others, those in Marks have to   *)
(* be there, whatever they say: they tell what happened before what.       *)
(* Every accepted recording t prints "ACC t".                              *)
(***************************************************************************)
EXTENDS DialogCore, Json, IOUtils

Traces  == JsonDeserialize(IOEnv.TRACE_FILE)
Verbose == IOEnv.TRACE_VERBOSE = "1"
Visible(t) == LET v == Traces[t].visible IN {v[i] : i \in 1..Len(v)}

MarksOf(t) == LET v == Traces[t].marks IN {v[i] : i \in 1..Len(v)}

SetOf(s) == {s[i] : i \in 1..Len(s)}
Cfg(t) == LET K == Traces[t].cfg IN
  [ uri |-> K.uri, route |-> K.route, cseq |-> K.cseq, mf |-> K.mf,
    totag |-> K.totag, max |-> K.max, srv |-> K.srv, host |-> K.host,
    undial |-> SetOf(K.undial), refuse |-> SetOf(K.refuse),
    servers |-> SetOf(K.servers) ]

Cfgs == [t \in 1..Len(Traces) |-> Cfg(t)]
Vis  == [t \in 1..Len(Traces) |-> Visible(t)]
Marks == [t \in 1..Len(Traces) |-> MarksOf(t)]

VARIABLES t, i, d, inbox, cbox, hq, gen
vars == <<t, i, d, inbox, cbox, hq, gen>>

Ev  == Traces[t].ev
Obs(s) == Traces[t].obs[s]
c   == Cfgs[t]

Init == /\ t \in 1..Len(Traces)
        /\ i = 1
        /\ d = Init0(c)
        /\ inbox = <<>> /\ cbox = <<>> /\ hq = 0
        /\ gen = [s \in DOMAIN Traces[t].obs |-> 0]

-----------------------------------------------------------------------------
(* Does observation o show output x? *)
Common(x, o) ==                       \* what every request of the call has
  /\ o.cid = "C" /\ o.from = "F" /\ o.to = "T" /\ o.cm = x.k /\ o.clen
  /\ o.uri = x.uri /\ o.cseq = x.cseq /\ o.tag = x.tag /\ o.routes = x.routes /\ o.mf = x.mf
  /\ o.att = x.att

\* How often and when a retransmission comes.
Repeat(x, o, n) ==
  IF n = 0 THEN o.rep = "first"
  ELSE /\ o.rep = "same"
       /\ Traces[t].interval > 0 =>
            /\ o.gap * 10 >= Traces[t].interval * 7
            /\ o.gap <= Traces[t].interval + 2500

Shows(x, o, e) ==
  /\ o.k = x.k
  /\ CASE x.k \in Marks[t] -> (x.k = "resp" => o.id = x.id)
       [] x.k = "state" -> o.v = x.v
       [] x.k = "peer"  -> o.v = x.v
       [] x.k = "err"   -> o.c = x.c /\ o.st = x.st
       [] x.k = "closed" -> TRUE
       [] x.k = "resp"  -> o.st = x.st /\ o.id = x.id /\ o.echo = "" /\ o.clen
                           /\ (x.rep => o.rep = "same") /\ (~x.rep => o.rep = "first")
       [] x.k = "INVITE" -> Common(x, o) /\ o.via = "own" /\ o.fresh /\ o.contact = "own"
                            /\ o.body = "offer" /\ Repeat(x, o, e.resends)
       [] x.k = "BYE"   -> Common(x, o) /\ o.via = "own" /\ o.fresh /\ Repeat(x, o, e.resends)
       [] x.k = "CANCEL" -> Common(x, o) /\ o.via = "own" /\ o.body = ""
       [] x.k = "ACK"   -> Common(x, o) /\ o.nvia = 1 /\ o.body = ""
       [] OTHER -> FALSE

\* Repeated transmissions of a response are told apart by the timer.
Mark(o, ev) == IF o.k = "resp" THEN [k |-> o.k, st |-> o.st, id |-> o.id, rep |-> ev.e = "ptimer"] ELSE o

RECURSIVE Consume(_, _, _, _)
\* The stream positions after outputs out, or <<>> if they are not what was seen.
Consume(g, out, e, ev) ==
  IF out = <<>> THEN <<g>>
  ELSE LET s == out[1].s
           x == Mark(out[1].o, ev)
       IN IF x.k \notin Vis[t] \cup Marks[t] THEN Consume(g, Tail(out), e, ev)
          ELSE IF s \in DOMAIN g /\ g[s] < Len(Obs(s)) /\ Shows(x, Obs(s)[g[s] + 1], e)
          THEN Consume([g EXCEPT ![s] = @ + 1], Tail(out), e, ev)
          ELSE IF Verbose /\ PrintT("MISS " \o ToJson([t |-> t, i |-> i, stream |-> s, expected |-> x,
                      seen |-> IF s \in DOMAIN g /\ g[s] < Len(Obs(s)) THEN <<Obs(s)[g[s]+1]>> ELSE <<>>,
                      on |-> ev]))
          THEN <<>> ELSE <<>>

React(d1, ev) ==
  LET g == Consume(gen, d1.out, d1, ev)
  IN /\ g # <<>>
     /\ gen' = g[1]
     /\ d' = [d1 EXCEPT !.out = <<>>]

Moved(d1) == ~d1.live \/ d1.sockGen # d.sockGen

Do(ev) ==
  \/ LET d1 == Step(c, d, ev)
     IN React(d1, ev) /\ inbox' = (IF Moved(d1) THEN <<>> ELSE inbox)
  \/ \* A refusal that is under way may surface as an error of the next write.
     /\ d.refPend /\ ev.e # "refused"
     /\ LET d1 == Fail([d EXCEPT !.out = <<>>], "other", 0)
        IN React(d1, ev) /\ inbox' = <<>>

-----------------------------------------------------------------------------
Env ==
  /\ i <= Len(Ev)
  /\ LET ev == Ev[i] IN
     /\ ev.k = "env"
     /\ i' = i + 1
     /\ CASE ev.e = "start" -> Do(ev) /\ UNCHANGED <<hq, cbox>>
          [] ev.e \in {"resp", "req"} ->
               /\ IF ev.loose
                  THEN /\ cbox' = (IF d.live THEN Append(cbox, ev) ELSE cbox)
                       /\ UNCHANGED inbox
                  ELSE /\ inbox' = (IF d.live /\ d.sock = ev.from THEN Append(inbox, ev) ELSE inbox)
                       /\ UNCHANGED cbox
               /\ UNCHANGED <<d, hq, gen>>
          [] ev.e = "hangup" -> hq' = hq + 1 /\ UNCHANGED <<d, inbox, cbox, gen>>
          [] ev.e = "kill" -> d' = [d EXCEPT !.refuse = @ \cup {ev.s}]
                              /\ UNCHANGED <<inbox, cbox, hq, gen>>
          [] OTHER -> UNCHANGED <<d, inbox, cbox, hq, gen>>
  /\ UNCHANGED t

Seen ==
  /\ i <= Len(Ev)
  /\ LET ev == Ev[i] IN /\ ev.k = "obs"
                        /\ gen[ev.s] >= ev.n
  /\ i' = i + 1
  /\ UNCHANGED <<t, d, inbox, cbox, hq, gen>>

Timers == Traces[t].interval > 0

Silent ==
  /\ i <= Len(Ev) /\ d.live /\ d.started
  /\ \/ inbox # <<>> /\ LET m == Head(inbox) d1 == Step(c, d, m)
                        IN \/ React(d1, m) /\ inbox' = (IF Moved(d1) THEN <<>> ELSE Tail(inbox)) /\ UNCHANGED <<hq, cbox>>
                           \/ /\ d.refPend
                              /\ React(Fail([d EXCEPT !.out = <<>>], "other", 0), m)
                              /\ inbox' = <<>> /\ UNCHANGED <<hq, cbox>>
     \/ cbox # <<>> /\ LET m == Head(cbox) d1 == Step(c, d, m)
                       IN React(d1, m) /\ cbox' = Tail(cbox) /\ UNCHANGED hq
                          /\ inbox' = IF Moved(d1) THEN <<>> ELSE inbox
     \/ hq > 0 /\ hq' = hq - 1 /\ Do([e |-> "hangup"]) /\ UNCHANGED cbox
     \/ Timers /\ CanRequestTimer(d) /\ Do([e |-> "rtimer"]) /\ UNCHANGED <<hq, cbox>>
     \/ Timers /\ CanResponseTimer(d) /\ Do([e |-> "ptimer"]) /\ UNCHANGED <<hq, cbox>>
     \/ CanRefused(d) /\ Do([e |-> "refused"]) /\ UNCHANGED <<hq, cbox>>
  /\ UNCHANGED <<t, i>>

\* The last entry of ev: everything has settled.
End ==
  /\ i = Len(Ev)
  /\ Ev[i].k = "end"
  /\ \A s \in DOMAIN gen : gen[s] = Len(Obs(s))
  /\ ~d.live \/ (/\ inbox = <<>> /\ cbox = <<>> /\ hq = 0 /\ ~d.refPend
                 /\ ~(Timers /\ (d.rt \/ d.pt)))
  /\ ("closed" \in Vis[t]) => /\ Ev[i].leak = 0 /\ Ev[i].stuck = 0
                              /\ Ev[i].crash = FALSE
  /\ i' = i + 1
  /\ PrintT("ACC " \o ToString(t))
  /\ UNCHANGED <<t, d, inbox, cbox, hq, gen>>

Next == Env \/ Seen \/ Silent \/ End
Spec == Init /\ [][Next]_vars
Progress == Verbose => PrintT("AT " \o ToString(t) \o " " \o ToString(i))
=============================================================================
