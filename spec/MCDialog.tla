------------------------------ MODULE MCDialog ------------------------------
(***************************************************************************)
(* The call of DialogCore in an environment: servers that answer, refuse,  *)
(* time out, redirect; a remote party that sends requests; strangers; and  *)
(* an application that hangs up.  TLC explores every reachable state for   *)
(* the alphabet K (see the suites in tools/dialog_suites.py), checks the   *)
(* properties below, and prints the state graph, from which schedules for  *)
(* the real code are derived.                                              *)
(***************************************************************************)
EXTENDS DialogCore, Json, IOUtils

K == JsonDeserialize(IOEnv.K_FILE)      \* alphabet of this suite
ToSet(s) == {s[i] : i \in 1..Len(s)}

C == [ uri |-> K.uri, route |-> K.route, cseq |-> K.cseq, mf |-> K.mf,
       totag |-> K.totag, max |-> K.max, srv |-> K.srv, host |-> K.host,
       undial |-> ToSet(K.undial), refuse |-> ToSet(K.refuse),
       servers |-> ToSet(K.servers) ]

VARIABLES d, last, h, hist
vars == <<d, last, h, hist>>

H0 == [ ans |-> 0,          \* times Answered was reported
        over |-> 0,         \* terminal reports (Hangup or error)
        closed |-> 0,       \* times the channels were closed
        tried |-> <<>>,     \* attempts of the INVITE since the last redirect
        settled |-> FALSE,  \* a final response other than 503 was accepted
        maxseq |-> 0,       \* largest CSeq number sent in a request
        sends |-> 0,        \* transmissions of the current attempt
        redirs |-> 0, hangs |-> 0, evs |-> 0 ]

-----------------------------------------------------------------------------
(* The environment *)
Atts == {d.req.att} \cup (IF d.req.att[2] > 1 /\ K.oldatt
                          THEN {<<d.req.att[1], d.req.att[2] - 1>>} ELSE {})

RespEvents ==
  { LET r == K.resps[x]
    IN [ e |-> "resp", from |-> d.sock, att |-> a, st |-> r.st, m |-> IF r.m = "" THEN d.req.m ELSE r.m,
         dcs |-> r.dcs, bad |-> r.bad, contact |-> r.contact, tag |-> r.tag, rr |-> r.rr,
         sdp |-> r.sdp, ix |-> x ] : a \in Atts, x \in 1..Len(K.resps) }

\* CSeq numbers of remote requests are given relative to the last one seen.
ReqEvents ==
  { LET r == K.reqs[x]
    IN [ e |-> "req", from |-> d.sock, m |-> r.m, cseq |-> IF d.rseq = 0 THEN r.base ELSE d.rseq + r.dcs,
         bad |-> r.bad, mf |-> r.mf, contact |-> r.contact, rr |-> r.rr, sdp |-> r.sdp,
         id |-> 0, ix |-> x ] : x \in 1..Len(K.reqs) }

Events ==
  IF ~d.started THEN {[e |-> "start"]}
  ELSE IF ~d.live THEN {}
  ELSE IF d.refPend THEN {[e |-> "refused"]}     \* the ICMP message is faster than we are
  ELSE (IF d.sock \in d.refuse THEN {}            \* it went away
        ELSE RespEvents \cup { ev \in ReqEvents : ev.cseq >= 0 /\ ev.cseq <= K.maxrseq })
       \cup (IF h.hangs < K.hangups THEN {[e |-> "hangup"]} ELSE {})
       \cup (IF K.ticks /\ d.rt THEN {[e |-> "rtimer"]} ELSE {})
       \cup (IF K.ticks /\ d.pt THEN {[e |-> "ptimer"]} ELSE {})
       \cup (IF K.kill /\ d.sock # "" /\ d.sock \notin d.refuse
             THEN {[e |-> "kill", s |-> d.sock]} ELSE {})
       \cup (IF K.noise THEN {[e |-> "alien"], [e |-> "garbage"]} ELSE {})

Is(o, k) == o.o.k = k
Outs(k) == SelectSeq(d'.out, LAMBDA o : Is(o, k))
OutsV(k, v) == SelectSeq(d'.out, LAMBDA o : Is(o, k) /\ o.o.v = v)
Invites == Outs("INVITE")

NextH(ev) ==
  LET redir == ev.e = "resp" /\ Invites # <<>> /\ ev.st \in {301, 302}
      att   == d'.req.att
  IN [ h EXCEPT
       !.ans    = @ + Len(OutsV("state", "Answered")),
       !.over   = @ + Len(OutsV("state", "Hangup")) + Len(Outs("err")),
       !.closed = @ + Len(Outs("closed")),
       !.tried  = IF d'.isInv /\ att # d.req.att
                  THEN (IF redir \/ ev.e = "start" THEN <<att>> ELSE Append(@, att)) ELSE @,
       !.settled = CASE redir -> FALSE
                     [] ev.e = "resp" /\ d.isInv /\ Matches(d, ev) /\ ev.st >= 200 /\ ev.st # 503 -> TRUE
                     [] OTHER -> @,
       !.maxseq = IF d'.out = <<>> THEN @ ELSE
                  LET q == SelectSeq(d'.out, LAMBDA o : o.o.k \in {"INVITE", "BYE"})
                  IN IF q # <<>> /\ q[1].o.cseq > @ THEN q[1].o.cseq ELSE @,
       !.sends  = IF att # d.req.att THEN 1
                  ELSE @ + Len(SelectSeq(d'.out, LAMBDA o : o.o.k \in {"INVITE", "BYE"})),
       !.redirs = IF redir THEN @ + 1 ELSE @,
       !.hangs  = IF ev.e = "hangup" THEN @ + 1 ELSE @,
       !.evs    = IF ev.e = "start" \/ K.depth = 0 THEN @ ELSE @ + 1 ]

\* The way here, in a compact form (not part of the state: see VIEW).
Streams(o) == [i \in 1..Len(o) |-> o[i].s]
Note(ev, o) ==
  CASE ev.e = "resp" -> <<"resp", ev.ix, ev.att, ev.from, Streams(o)>>
    [] ev.e = "req"  -> <<"req", ev.ix, ev.cseq, ev.from, Streams(o)>>
    [] ev.e = "kill" -> <<"kill", ev.s, 0, "", Streams(o)>>
    [] OTHER         -> <<ev.e, 0, 0, "", Streams(o)>>

Init == d = Init0(C) /\ last = [e |-> "init"] /\ h = H0 /\ hist = <<>>

Next == \E ev \in Events :
          /\ d' = Step(C, d, ev)
          /\ last' = ev
          /\ h' = NextH(ev)
          /\ hist' = IF K.hist THEN Append(hist, Note(ev, d'.out)) ELSE hist

Bounded == /\ h.redirs <= K.redirs
           /\ \A s \in C.servers : d.nAtt[s] <= K.maxatt
           /\ h.evs <= K.depth \* depth 0: unbounded
           /\ Len(hist) <= K.histmax

ViewH == <<[d EXCEPT !.out = <<>>], h>>

\* Schedules for the real code: for every transition TLC finds, the way to it.
\* The class says what kind of transition it is.
Kinds(o) == [i \in 1..Len(o) |-> IF o[i].o.k = "state" THEN o[i].o.v ELSE o[i].o.k]
Class == << d.st, d.isInv, d.rt, d.resends, d.pt, d.presends, Len(d.routes), d.remote.set, d.refPend,
            d.rseq = 0, h.hangs, h.redirs,
            CASE last'.e = "resp" -> <<"resp", last'.ix, last'.att = d.req.att>>
              [] last'.e = "req" -> <<"req", last'.ix, last'.cseq < d.rseq>>
              [] OTHER -> <<last'.e>>,
            Kinds(d'.out) >>
EmitEdge == PrintT("EDGE " \o ToJson([c |-> ToString(Class), h |-> hist']))

Timers == \E ev \in Events : /\ ev.e \in {"rtimer", "ptimer", "refused"}
                             /\ d' = Step(C, d, ev) /\ last' = ev /\ h' = NextH(ev)
                             /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars /\ WF_vars(Timers)

-----------------------------------------------------------------------------
(* The properties, phrased over stimuli and outputs. *)
ev == last'
AppStates == SelectSeq(d'.out, LAMBDA o : Is(o, "state"))
MatchFinal == ev.e = "resp" /\ Matches(d, ev) /\ ev.st >= 200 /\ d.req.m = "INVITE"

\* C01
C01a == h.ans <= 1
C01b == [][ \A i \in 1..Len(AppStates) :
             LET v == AppStates[i].o.v
             IN /\ v = "Proceeding" => ev.e = "resp" /\ ev.st = 100 /\ ev.att = d.req.att /\ h.ans = 0
                /\ v = "Ringing"    => ev.e = "resp" /\ ev.st \in {180, 183} /\ ev.att = d.req.att /\ h.ans = 0
                /\ v = "Answered"   => ev.e = "resp" /\ ev.st = 200 /\ ev.m = "INVITE" /\ h.ans = 0
                /\ v = "Hangup"     => \/ ev.e = "req" /\ ev.m = "BYE"
                                       \/ ev.e = "resp" /\ ev.st = 200 /\ ev.m = "BYE" ]_vars
C01c == [][ /\ (ev.e = "resp" /\ d.live /\ Matches(d, ev) /\ ev.st = 200 /\ d.req.m = "INVITE"
                /\ ev.contact # NoUri /\ h.ans = 0) => Len(OutsV("state", "Answered")) = 1
            /\ (ev.e = "resp" /\ d.live /\ Matches(d, ev) /\ ev.st \in {180, 183} /\ h.ans = 0)
                => Len(OutsV("state", "Ringing")) = 1 ]_vars
\* C02
C02 == [][ LET acks == Outs("ACK") IN
           /\ Len(acks) <= 1
           /\ acks # <<>> => MatchFinal
           /\ (d.live /\ MatchFinal /\ (ev.st >= 300 \/ ev.contact # NoUri)
               /\ d.sock \notin d.refuse) => Len(acks) = 1
           /\ \A i \in 1..Len(acks) : acks[i].s = d.sock
                                      /\ acks[i].o.att = (IF ev.bad = "via2" THEN <<"top", 0>> ELSE ev.att)
                                      /\ acks[i].o.tag = ev.tag ]_vars
\* C03
C03a == h.sends <= C.max + 1
C03b == [][ (ev.e = "resp" /\ d.live /\ Matches(d, ev) /\ d'.req.att = d.req.att) => ~d'.rt ]_vars
C03c == [][ (ev.e = "rtimer" /\ d'.live /\ d'.req.att = d.req.att /\ d.sock \notin d.refuse) =>
              Len(d'.out) = 1 /\ d'.out[1].s = d.sock
              /\ d'.out[1].o.att = d.req.att /\ d'.rt ]_vars
C03live == <>[](~(K.ticks /\ (d.rt \/ d.pt)))
\* C04
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
C04a == NoDup([i \in 1..Len(h.tried) |-> h.tried[i]])
C04b == [][ (h.settled /\ h'.settled) => Invites = <<>> \/ d'.req.att = d.req.att ]_vars
C04c == [][ (d'.isInv /\ d.isInv /\ d'.req.att # d.req.att /\ d.started)
              => \/ ev.e \in {"rtimer", "refused", "ptimer"}
                 \/ ev.e = "resp" /\ ev.st \in {503, 301, 302} /\ Matches(d, ev) ]_vars
\* C05
C05 == [][ (d.live /\ ev.e = "resp" /\ Matches(d, ev) /\ ev.st \in {301, 302}) =>
             IF d.isInv /\ h.ans = 0 /\ ev.contact # NoUri
             THEN \/ ~d'.live /\ Len(Outs("err")) = 1         \* nowhere to go, or too many hops
                  \/ /\ d'.req.uri = ev.contact /\ d'.req.route = <<>>
                     /\ d'.req.att # d.req.att
                     /\ \A i \in 1..Len(Invites) : Invites[i].s = AddrOf(C, ev.contact.a)
                                                   \/ ev.contact.a \in DOMAIN C.srv
             ELSE ~d'.live /\ Len(Outs("err")) = 1 ]_vars
\* C06
C06 == [][ LET cs == Outs("CANCEL") b == Outs("BYE") IN
           /\ (cs # <<>>) => ev.e = "hangup" /\ h.ans = 0
           /\ (b # <<>>) => ev.e \in {"hangup", "rtimer"} /\ h.ans = 1
           /\ (ev.e = "hangup" /\ d.live /\ h.ans = 0 /\ d.sock \notin d.refuse) => Len(cs) = 1
           /\ \A i \in 1..Len(cs) : /\ cs[i].o.uri = d.req.uri /\ cs[i].o.att = d.req.att
                                    /\ cs[i].o.cseq = d.req.cseq /\ cs[i].o.routes = d.req.route
           /\ (ev.e = "hangup" /\ b # <<>>) =>
                /\ b[1].o.cseq > h.maxseq
                /\ b[1].o.tag = d.remote.tag ]_vars
\* C07
C07 == [][ LET rs == Outs("resp") IN
           /\ Len(rs) <= 1
           /\ (rs # <<>>) => ev.e \in {"req", "ptimer"}
           /\ (ev.e = "req" /\ d.live /\ d.sock \notin d.refuse)
                => Len(rs) = IF ev.m = "ACK" THEN 0 ELSE 1
           /\ (rs # <<>> /\ ev.e = "req" /\ ev.bad = "" /\ ev.mf > 0 /\ (d.rseq = 0 \/ ev.cseq >= d.rseq)) =>
                rs[1].o.st = CASE ev.m \in {"BYE", "OPTIONS", "INVITE"} -> 200 [] OTHER -> 405
           /\ (ev.e = "req" /\ ev.bad = "" /\ ev.mf > 0 /\ d.live /\ ~d'.live) => ev.m = "BYE" ]_vars
\* C08
Stray == \/ ev.e \in {"alien", "garbage"}
         \/ ev.e = "resp" /\ ev.bad # "version" /\ ~Matches(d, ev)
         \/ ev.e = "req" /\ Foreign(ev)
C08 == [][ Stray => /\ [d' EXCEPT !.out = <<>>] = [d EXCEPT !.out = <<>>, !.refPend = d'.refPend]
                    /\ \A i \in 1..Len(d'.out) : ev.e = "req" /\ d'.out[i].o.st = 481 ]_vars
\* C09
C09 == [][ LET p == Outs("peer") IN
           /\ Len(p) <= 1
           /\ p # <<>> => /\ p[1].o.v = ev.sdp
                          /\ \/ ev.e = "req" /\ ev.m = "INVITE"
                             \/ ev.e = "resp" /\ Matches(d, ev) /\ ev.st <= 200
                          /\ ~(ev.e = "resp" /\ ev.st < 200 /\ h.ans = 1) ]_vars
\* C10
C10a == h.closed <= 1 /\ h.over <= 1 /\ (h.closed = 1 <=> (d.started /\ ~d.live)) /\ (h.closed = 1 => h.over = 1)
C10b == [][ ~d.live /\ d.started => d'.out = <<>> ]_vars
C10c == [][ \A i \in 1..Len(d'.out) : d'.out[i].o.k = "closed" =>
              /\ i = Len(d'.out) /\ i > 1
              /\ \/ d'.out[i-1].o.k = "err"
                 \/ d'.out[i-1].o.k = "state" /\ d'.out[i-1].o.v = "Hangup" ]_vars

TypeOK == /\ d.live \in BOOLEAN /\ d.st \in 0..3 /\ d.resends \in 0..C.max
          /\ d.presends \in 0..C.max
          /\ (d.live /\ d.started) => d.sock \in C.servers
=============================================================================
