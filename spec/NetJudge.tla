------------------------------ MODULE NetJudge ------------------------------
(* Judges recordings of harness/tportdrv against MsgSpec, one state each.   *)
EXTENDS MsgSpec, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.REC)
Want == IOEnv.PROP
Fail(r, prop, why, what) ==
  IF Want = "all" \/ Want = prop
  THEN PrintT("FAIL " \o ToJson([id |-> r.id, prop |-> prop, why |-> why, what |-> what])) ELSE TRUE
Say(r, prop, why, what) == IF what = {} THEN TRUE ELSE Fail(r, prop, why, what)
Differ(a, b) == {f \in DOMAIN a : a[f] # b[f]}
Died(r) == r.res.state \in {"panic", "hang"}
Src(r, k) == LET p == r.socks[r.steps[k].from] IN [host |-> B(p.ip), port |-> DigitsOf(p.port)]

\* A Via after arriving from host h, port p.  The order of what is added is free,
\* and so is whether 5060 differs from no port at all.
Ann == {B("received"), B("rport")}
Rest(ps) == SelectSeq(ps, LAMBDA x : Lower(x[1]) \notin Ann)
ViaOk(v, h, p, out) ==
  LET Exp(e) == /\ [out EXCEPT !.par = <<>>] = [e EXCEPT !.par = <<>>]
                /\ Rest(out.par) = Rest(e.par) /\ Len(out.par) = Len(e.par)
                /\ \A n \in Ann : HasPar(out.par, n) = HasPar(e.par, n) /\ (HasPar(e.par, n) => GetPar(out.par, n) = GetPar(e.par, n))
  IN Exp(Annotated(v, h, p)) \/ (v.port = Zero /\ p = P5060 /\ Exp(Annotated([v EXCEPT !.port = p], h, p)) /\ out.port = Zero)
     \/ (v.port = Zero /\ p = P5060 /\ Exp([Annotated([v EXCEPT !.port = p], h, p) EXCEPT !.port = Zero]))
\* What a message has become in transit; {} if that is as it must be.
Arrived(m, s, tp, out) ==
  LET e == Receive(B(tp.ip), DigitsOf(tp.port), m) IN
  (Differ(e, out) \ {"via"})
  \cup (IF m.req THEN IF /\ Len(out.via) = Len(m.via) /\ Tail(out.via) = Tail(m.via) /\ ViaOk(m.via[1], s.host, s.port, out.via[1]) THEN {} ELSE {"via"}
        ELSE IF out.via = m.via THEN {} ELSE {"via"})

-----------------------------------------------------------------------------
(* C13 *)
OwnVias(r) == r.res.via0
SockAt(r, d) == {k \in 1..Len(r.socks) : B(r.socks[k].ip) = d.host /\ DigitsOf(r.socks[k].port) = Or5060(d.port)}
Reply(r) ==
  LET m == r.spec.items[1].msg   o == r.res   g == o.got IN
  IF Died(r) THEN Fail(r, "C13", "receiving and replying: " \o o.state, {})
  ELSE IF Len(g) # 1 THEN Fail(r, "C13", "the message was delivered " \o ToString(Len(g)) \o " times", {})
  ELSE LET a == Arrived(m, Src(r, 1), r.tp, g[1].msg) IN
    /\ Say(r, "C14", "arrival changes the route set or the target as it must not", a \cap {"route", "uri"})
    /\ Say(r, "C13", IF m.req THEN "the request was not annotated as it must be" ELSE "the response was changed on arrival", a \ {"route", "uri"})
    /\ IF ~g[1].same THEN Fail(r, "C13", "sending the response changes the request", {}) ELSE TRUE
    /\ IF ~m.req \/ a # {} THEN TRUE
       ELSE LET d == RouteRsp(OwnVias(r), g[1].msg)
                popped == Len(d.m.via) # Len(g[1].msg.via)
                v == m.via[1]
                back == Silent(v)
                to == IF back THEN {r.steps[1].from} ELSE SockAt(r, d.d)
                got == {o.pkts[i].sock : i \in 1..Len(o.pkts)}
            IN IF popped THEN TRUE
               ELSE IF g[1].sent # "ok" THEN (IF back THEN Fail(r, "C13", "the response could not be sent", {}) ELSE TRUE)
               ELSE IF to = {} THEN (IF got = {} THEN TRUE ELSE Fail(r, "C13", "the response went to somebody it is not for", {}))
               ELSE IF got # to \/ Len(o.pkts) # 1 THEN Fail(r, "C13", IF back THEN "the response did not get back to the sender" ELSE "the response did not go where the request says", {})
               ELSE LET w == RefMsg(o.pkts[1].txt)
                        e == [g[1].msg EXCEPT !.req = FALSE]
                        x == IF w.k > MAY THEN {"text"} ELSE Diff(w.v, e) \cap {"via", "from", "to", "callid", "cseq", "rr"}
                    IN /\ Say(r, "C13", "the response that arrived is not the one for the request", x)
                       /\ IF ~o.pkts[1].own THEN Fail(r, "C13", "the response comes from another port than the request went to", {}) ELSE TRUE

-----------------------------------------------------------------------------
(* C11, C12: which deliveries explain the datagrams.  Reach(i) is the set  *)
(* of numbers j such that the first i datagrams explain the first j        *)
(* deliveries.                                                             *)
Verdict(r, i) ==
  LET it == r.spec.items[i] IN
  IF it.k = "msg" THEN [k |-> ACC, v |-> 0] ELSE IF it.k = "junk" THEN [k |-> ANY, v |-> 0] ELSE RefMsg(r.steps[i].txt)
Transit == {"via", "route", "uri"}
Fits(r, i, w, g) ==
  LET it == r.spec.items[i] IN
  IF it.k = "msg" THEN Arrived(it.msg, Src(r, i), r.tp, g.msg) = {}
  ELSE IF it.k = "junk" THEN ~ \E j \in 1..Len(r.spec.items) : r.spec.items[j].k = "msg" /\ r.spec.items[j].msg.callid = g.msg.callid
  ELSE CASE w.k = REJ -> FALSE [] w.k = ANY -> TRUE [] OTHER -> (Diff(w.v, g.msg) \ Transit) = {}
\* A reply to junk goes where the junk says, which may be here.
RECURSIVE Echoes(_, _)
Echoes(r, R) ==
  IF r.spec.kind # "junk" \/ r.reply = 0 THEN R
  ELSE LET N == TLCEval(R \cup {j + 1 : j \in {k \in R : k < Len(r.res.got) /\ ~r.res.got[k + 1].msg.req}})
       IN IF N = R THEN R ELSE Echoes(r, N)
RECURSIVE Reach(_, _, _)
Reach(r, i, R) ==
  IF i > Len(r.steps) THEN [at |-> i, R |-> R]
  ELSE LET w == TLCEval(Verdict(r, i))
           skip == IF w.k = ACC THEN {} ELSE R
           take == {j \in R : j < Len(r.res.got) /\ Fits(r, i, w, r.res.got[j + 1])}
           N == Echoes(r, TLCEval(skip \cup {j + 1 : j \in take}))
       IN IF N = {} THEN [at |-> i, R |-> R] ELSE Reach(r, i + 1, N)
What(r, i) == LET it == r.spec.items[i] IN IF it.k # "msg" THEN it.k ELSE IF it.pad > 0 THEN "a message of more than " \o ToString(it.pad) \o " bytes" ELSE "a message"
Deliveries(r) ==
  LET o == r.res
      prop == IF r.spec.kind = "junk" THEN "C11" ELSE "C12" IN
  IF Died(r) THEN Fail(r, prop, "the receiver: " \o o.state, {})
  ELSE LET x == Reach(r, 1, {0})
           n == Len(r.steps) IN
       IF x.at <= n
       THEN LET d == {j \in x.R : j < Len(o.got)}
                near == {Arrived(r.spec.items[x.at].msg, Src(r, x.at), r.tp, o.got[j + 1].msg) : j \in {k \in d : o.got[k + 1].msg.callid = r.spec.items[x.at].msg.callid}}
            IN IF near # {} THEN Fail(r, prop, "delivered with other content than was sent: " \o What(r, x.at), UNION near)
               ELSE Fail(r, prop, "not delivered, or not in its turn: " \o What(r, x.at), {})
       ELSE IF Len(o.got) \notin x.R THEN Fail(r, prop, "something was delivered that must not be", {})
       ELSE IF prop = "C11" THEN TRUE
       ELSE /\ IF \E j \in 1..Len(o.got) : ~o.got[j].same THEN Fail(r, prop, "a message changed after it was delivered", {}) ELSE TRUE
            /\ IF o.early # 0 THEN Fail(r, prop, "an error was reported while the socket was open", {}) ELSE TRUE
            /\ IF o.errs # 1 THEN Fail(r, prop, "the end of the socket was reported " \o ToString(o.errs) \o " times", {}) ELSE TRUE
            /\ IF ~o.cdone \/ ~o.edone THEN Fail(r, prop, "channels stay open after the end", {}) ELSE TRUE

-----------------------------------------------------------------------------
(* C15: Send *)
\* What an empty part of a Via, or an empty phrase, means when it is written.
Or(x, d) == IF x = <<>> THEN d ELSE x
AsWritten(m) == [m EXCEPT !.via = [i \in 1..Len(m.via) |-> [m.via[i] EXCEPT !.pr = Or(@, B("SIP")), !.ve = Or(@, B("2.0")), !.tr = Or(@, B("UDP"))]]]
Send(r) ==
  LET m == r.msg   o == r.res   a == o.after
      loop == m.req /\ m.maxf = B("1")
      own == r.res.via0   ct == r.res.contact0
      SubOne(d) == IF d = Zero THEN Zero ELSE LET RECURSIVE Dec(_)
                                                 Dec(q) == IF q[Len(q)] # 48 THEN [q EXCEPT ![Len(q)] = @ - 1] ELSE Append(Dec(SubSeq(q, 1, Len(q) - 1)), 57)
                                             IN Strip0(Dec(d))
      back == [a EXCEPT !.maxf = IF m.maxf = Zero THEN Zero ELSE m.maxf]
      full == IF m.maxf = Zero THEN B("70") ELSE m.maxf
  IN IF Died(r) THEN Fail(r, "C15", "sending: " \o o.state, {})
     ELSE /\ Say(r, "C15", "sending changed the transport", (IF o.via # own THEN {"via"} ELSE {}) \cup (IF o.contact # ct THEN {"contact"} ELSE {}))
          /\ IF Len(o.arr) = 2 /\ o.arr[1] # o.arr[2] THEN Fail(r, "C12", "messages that arrived meanwhile were lost or changed", o.arr) ELSE TRUE
          /\ IF loop THEN (IF o.sent = "ok" \/ Len(o.pkts) > 0 THEN Fail(r, "C15", "a request without hops left was sent", {}) ELSE TRUE)
             ELSE IF o.sent # "ok" THEN Fail(r, "C15", "could not be sent", {})
             ELSE IF Len(o.pkts) # 1 \/ o.pkts[1].sock # r.spec.sock \/ ~o.pkts[1].own THEN Fail(r, "C15", "did not arrive where it was sent", {})
             ELSE LET w == RefMsg(o.pkts[1].txt)
                      x == IF w.k > ANY THEN {"text"} ELSE IF w.k = ANY THEN {} ELSE Diff(w.v, AsWritten(a))
                  IN /\ Say(r, "C15", "what arrived is not what was sent", x)
                     /\ IF m.req
                        THEN /\ Say(r, "C15", "wrongly completed", Uncompleted(own, ct, m, [a EXCEPT !.maxf = full]))
                             /\ IF a.maxf # SubOne(full) THEN Fail(r, "C15", "the hop count was not taken down by one", {}) ELSE TRUE
                        ELSE Say(r, "C15", "a response was touched", Differ(m, a))

-----------------------------------------------------------------------------
(* C14: which messages the nodes get to see when a request travels.        *)
NodeAt(r, d) == {k \in 1..Len(r.nodes) : B(r.nodes[k].ip) = d.host /\ DigitsOf(r.nodes[k].port) = Or5060(d.port)}
\* What the node k sees of a request m (without Via), and everybody after it.
RECURSIVE Travel(_, _, _, _)
Travel(r, d, m, steps) ==
  LET K == NodeAt(r, d) IN
  IF K = {} \/ steps = 0 THEN <<>>
  ELSE LET k == CHOOSE x \in K : TRUE
           nd == r.nodes[k]
           seen == IF nd.kind = "strict" THEN m ELSE Receive(B(nd.ip), DigitsOf(nd.port), m)
           self == <<[disp |-> <<>>, uri |-> [NoURI EXCEPT !.scheme = B("sip"), !.user = B("tp"), !.host = B(nd.ip), !.port = DigitsOf(nd.port)], par |-> <<>>]>>
           out == IF nd.kind = "strict" THEN [d |-> [host |-> m.route[1].uri.host, port |-> m.route[1].uri.port], m |-> StrictForward(m)] ELSE RouteReq(self, seen)
       IN <<[node |-> k, uri |-> seen.uri, route |-> seen.route]>>
          \o (IF k = Len(r.nodes) \/ (nd.kind = "strict" /\ m.route = <<>>) THEN <<>> ELSE Travel(r, out.d, out.m, steps - 1))
Plan(r) == LET self == <<[disp |-> <<>>, uri |-> [NoURI EXCEPT !.scheme = B("sip"), !.user = B("tp"), !.host = B(r.tp.ip), !.port = DigitsOf(r.tp.port)], par |-> <<>>]>>
               f == RouteReq(self, r.msg)
           IN Travel(r, f.d, f.m, 20)
Chain(r) ==
  LET o == r.res
      p == Plan(r)
      n == Len(r.nodes)
      h == [i \in 1..Len(o.hops) |-> [node |-> o.hops[i].node, uri |-> o.hops[i].msg.uri, route |-> o.hops[i].msg.route]]
      bad == {i \in 1..Len(p) : i <= Len(h) /\ h[i] # p[i]}
  IN IF Died(r) THEN Fail(r, "C14", "routing: " \o o.state, {})
     ELSE IF o.sent # "ok" THEN Fail(r, "C14", "the request could not be sent", {})
     \* the specification itself visits all in order and arrives
     ELSE IF Len(p) # n \/ (\E i \in 1..n : p[i].node # i) \/ p[n].uri # r.msg.uri \/ p[n].route # <<>>
          THEN PrintT("FAIL " \o ToJson([id |-> r.id, prop |-> "C14", why |-> "SPECIFICATION", what |-> {}]))
     ELSE IF Len(h) # n \/ (\E i \in 1..Len(h) : h[i].node # i) THEN Fail(r, "C14", "the request does not visit its routers in order", {})
     ELSE IF h[n].uri # r.msg.uri \/ h[n].route # <<>> THEN Fail(r, "C14", "the request does not arrive as it was meant", {})
     ELSE IF bad # {} THEN Fail(r, "C14", "the request travels with another target or route set", {})
     ELSE TRUE

Judge(r) == CASE r.spec.kind = "reply" -> Reply(r)
              [] r.spec.kind \in {"seq", "junk"} -> Deliveries(r)
              [] r.spec.kind = "send" -> Send(r)
              [] r.spec.kind = "chain" -> Chain(r)

VARIABLE n
Init == n = 0
Next == n < Len(Recs) /\ n' = n + 1 /\ Judge(Recs[n'])
Spec == Init /\ [][Next]_n
=============================================================================
