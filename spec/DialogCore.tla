----------------------------- MODULE DialogCore -----------------------------
(***************************************************************************)
(* One outbound SIP call (dialog.NewDialog) as a state machine.            *)
(*                                                                         *)
(* The call is a record d; every reaction of the call to one stimulus is   *)
(* the operator Step(c, d, ev), which returns the next record.  d.out is   *)
(* the list of outputs of that reaction, in order: packets sent to servers *)
(* and values delivered to the application.  c holds the parameters of the *)
(* call (URIs, what names resolve to, number of resends ...).              *)
(*                                                                         *)
(* URIs are records [u, a, lr]: user, address (the name of a server or a   *)
(* domain) and whether the loose routing parameter is present.             *)
(*                                                                         *)
(* Attempts.  Every time a request is offered to a server it gets a fresh  *)
(* Via branch.  An attempt is named <<server, n>>: the n-th fresh branch   *)
(* that server gets to see.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoUri  == [u |-> "", a |-> "", lr |-> FALSE]
NoAtt  == <<"", 0>>
NoRem  == [set |-> FALSE, tag |-> "", contact |-> NoUri, rr |-> <<>>]
NoReq  == [m |-> "", uri |-> NoUri, route |-> <<>>, cseq |-> 0, tag |-> "", att |-> NoAtt]
NoResp == [set |-> FALSE, id |-> 0, m |-> "", cseq |-> 0]

\* States of the call as the application numbers them.
Proceeding == 0
Ringing    == 1
Answered   == 2
HungUp     == 3
StateName  == <<"Proceeding", "Ringing", "Answered", "Hangup">>

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

-----------------------------------------------------------------------------
(* Parameters of a call:                                                   *)
(*   c.uri, c.route   request URI and preset route set of the INVITE       *)
(*   c.cseq           its CSeq number                                      *)
(*   c.mf             its Max-Forwards (0: not given, so 70)               *)
(*   c.totag          To tag given by the application ("" normally)        *)
(*   c.max            maximum number of resends                            *)
(*   c.srv            domain |-> sequence of candidate addresses           *)
(*   c.host           name |-> address a plain lookup gives                *)
(*   c.undial         candidates whose name does not resolve               *)
(* A candidate is an address or a name that c.host maps to an address.     *)

IsName(c, a)  == a \in DOMAIN c.host \/ a \in c.undial
AddrOf(c, a)  == IF a \in DOMAIN c.host THEN c.host[a] ELSE a

\* What an address in a URI resolves to: a sequence of candidates.
Candidates(c, a, wantSRV) ==
  IF a \in DOMAIN c.srv
  THEN IF wantSRV THEN c.srv[a]
       ELSE IF a \in DOMAIN c.host THEN <<c.host[a]>> ELSE <<>>
  ELSE IF a \in c.undial THEN <<>>
  ELSE <<AddrOf(c, a)>>

-----------------------------------------------------------------------------
Init0(c) ==
  [ live |-> TRUE, started |-> FALSE, st |-> Proceeding,
    sock |-> "", routes |-> <<>>,
    uri |-> c.uri, route |-> c.route, hops |-> c.mf,
    req |-> NoReq, isInv |-> TRUE, bhops |-> 0, resends |-> 0, rt |-> FALSE,
    resp |-> NoResp, presends |-> 0, pt |-> FALSE,
    remote |-> NoRem, lseq |-> 0, rseq |-> 0,
    nAtt |-> [s \in c.servers |-> 0],
    refuse |-> c.refuse, refPend |-> FALSE, sockGen |-> 0,
    out |-> <<>> ]

\* -- outputs -------------------------------------------------------------
Emit(d, s, o) == [d EXCEPT !.out = Append(@, [s |-> s, o |-> o])]

Report(d, st) == Emit([d EXCEPT !.st = st], "app", [k |-> "state", v |-> StateName[st + 1]])

\* The call is over: sockets closed, channels closed.
Close(d) == Emit([d EXCEPT !.live = FALSE, !.sock = "", !.rt = FALSE, !.pt = FALSE,
                           !.refPend = FALSE], "app", [k |-> "closed"])

Fail(d, cls, st) == Close(Emit(d, "app", [k |-> "err", c |-> cls, st |-> st]))

\* A datagram for a server.  One that refuses packets never shows it, but an
\* ICMP refusal is under way from then on.
Transmit(d, o) ==
  IF d.sock \in d.refuse THEN [d EXCEPT !.refPend = TRUE]
  ELSE Emit(d, d.sock, o)

\* -- requests -------------------------------------------------------------
ReqPacket(d, r, mf) ==
  [ k |-> r.m, att |-> r.att, uri |-> r.uri, cseq |-> r.cseq, tag |-> r.tag,
    routes |-> r.route, mf |-> mf ]

\* Sends the current request, which uses up one hop.
SendCurrent(d) ==
  LET h == IF d.isInv THEN d.hops - 1 ELSE d.bhops - 1
      e == IF d.isInv THEN [d EXCEPT !.hops = h] ELSE [d EXCEPT !.bhops = h]
  IN IF h = 0 THEN Fail(e, "other", 0)
     ELSE Transmit(e, ReqPacket(e, e.req, h))

RECURSIVE PopRoute(_, _)
\* Offers the current request to the next candidate.
PopRoute(c, d) ==
  IF d.routes = <<>> THEN Fail(d, "other", 0)
  ELSE LET cand == Head(d.routes)
           rest == [d EXCEPT !.routes = Tail(@)]
           same == rest.sock # "" /\ ~IsName(c, cand) /\ rest.sock = cand
       IN IF cand \in c.undial
          THEN PopRoute(c, [rest EXCEPT !.sock = "", !.refPend = FALSE,
                                        !.sockGen = @ + 1])
          ELSE LET a  == AddrOf(c, cand)
                   e  == IF same THEN rest
                         ELSE [rest EXCEPT !.sock = a, !.refPend = FALSE,
                                           !.sockGen = @ + 1]
                   n  == e.nAtt[a] + 1
                   f  == [e EXCEPT !.nAtt[a] = n, !.req.att = <<a, n>>,
                                   !.resends = 0, !.rt = TRUE,
                                   !.hops = IF e.isInv /\ @ = 0 THEN 70 ELSE @]
                   g  == IF f.st < Answered
                         THEN [f EXCEPT !.rseq = 0, !.remote = NoRem,
                                        !.lseq = f.req.cseq]
                         ELSE f
               IN SendCurrent(g)

\* Starts a new request: applies the route set, resolves the next hop.
StartRequest(c, d, r, isInv) ==
  LET strict == r.route # <<>> /\ ~r.route[1].lr
      q  == IF strict
            THEN [r EXCEPT !.uri = r.route[1], !.route = Append(Tail(r.route), r.uri)]
            ELSE r
      hop == IF r.route # <<>> THEN r.route[1].a ELSE r.uri.a
      e  == IF isInv THEN [d EXCEPT !.uri = q.uri, !.route = q.route] ELSE d
      cs == Candidates(c, hop, d.st < Answered)
  IN IF cs = <<>> THEN Fail(e, "other", 0)
     ELSE PopRoute(c, [e EXCEPT !.req = q, !.isInv = isInv, !.routes = cs,
                                !.bhops = IF isInv THEN @ ELSE 70])

Invite(c, d) == [ m |-> "INVITE", uri |-> d.uri, route |-> d.route,
                  cseq |-> c.cseq, tag |-> c.totag, att |-> NoAtt ]

\* -- responses from the remote party ---------------------------------------
Matches(d, m) == /\ m.att = d.req.att
                 /\ m.m = d.req.m
                 /\ m.dcs = 0
                 /\ m.bad \in {"", "via2"}   \* via2: another Via above ours

Publish(d, m) == IF m.sdp \in {"", "novid", "noaudio"} THEN d
                 ELSE Emit(d, "app", [k |-> "peer", v |-> m.sdp])

AckPacket(d, m) ==
  [ k |-> "ACK", att |-> IF m.bad = "via2" THEN <<"top", 0>> ELSE m.att, uri |-> IF m.contact = NoUri THEN d.req.uri ELSE m.contact,
    cseq |-> d.req.cseq, tag |-> m.tag, routes |-> Rev(m.rr), mf |-> 70 ]

OnResponse(c, d, m) ==
  IF ~Matches(d, m) THEN d
  ELSE
  LET final == m.st >= 200
      inv   == d.req.m = "INVITE"
  IN IF final /\ inv /\ m.contact = NoUri /\ m.st < 300 THEN Fail(d, "other", 0)
  ELSE
  LET a == IF final /\ inv THEN Transmit(d, AckPacket(d, m)) ELSE d
      b == [a EXCEPT !.rt = FALSE,
                     !.routes = IF final /\ m.st # 503 THEN <<>> ELSE @]
  IN IF m.st < 200 /\ b.st >= Answered THEN b
  ELSE
  LET p == IF m.st <= 200 THEN Publish(b, m) ELSE b
  IN CASE m.st = 100 -> Report(p, Proceeding)
       [] m.st \in {180, 183} -> Report(p, Ringing)
       [] m.st = 200 /\ inv ->
            IF p.remote.set THEN p
            ELSE Report([p EXCEPT !.remote = [set |-> TRUE, tag |-> m.tag,
                                              contact |-> m.contact, rr |-> m.rr]],
                        Answered)
       [] m.st = 200 /\ d.req.m = "BYE" -> Close(Report(p, HungUp))
       [] m.st = 503 /\ d.isInv -> PopRoute(c, p)
       [] m.st \in {301, 302} /\ d.isInv /\ d.st < Answered /\ m.contact # NoUri ->
            LET e == [p EXCEPT !.uri = m.contact, !.route = <<>>]
            IN StartRequest(c, e, Invite(c, e), TRUE)
       [] m.st > 200 /\ ~(m.st = 503 /\ d.isInv)
          /\ ~(m.st \in {301, 302} /\ d.isInv /\ d.st < Answered /\ m.contact # NoUri) ->
            Fail(p, "resp", m.st)
       [] OTHER -> p

\* -- requests from the remote party ------------------------------------------
RespPacket(m, status) == [ k |-> "resp", st |-> status, id |-> m.id ]

Reply(d, m, status) == IF m.m = "ACK" THEN d ELSE Transmit(d, RespPacket(m, status))

OnRequest(c, d, m) ==
  IF m.mf <= 0 THEN Fail(Reply(d, m, 483), "other", 0)
  ELSE IF d.rseq # 0 /\ m.cseq < d.rseq THEN Reply(d, m, 500)
  ELSE
  LET e == [d EXCEPT !.rseq = m.cseq]
  IN CASE m.m = "BYE" -> Close(Report(Reply(e, m, 200), HungUp))
       [] m.m = "OPTIONS" -> Reply(e, m, 200)
       [] m.m = "INVITE" ->
            LET f == IF e.remote.set /\ m.contact # NoUri
                     THEN [e EXCEPT !.remote.contact = m.contact] ELSE e
                g == Publish(f, m)
            IN Reply([g EXCEPT !.resp = [set |-> TRUE, id |-> m.id, m |-> m.m, cseq |-> m.cseq],
                               !.presends = 0, !.pt = TRUE], m, 200)
       [] m.m = "ACK" -> [e EXCEPT !.resp = NoResp, !.pt = FALSE]
       [] OTHER -> Reply(e, m, 405)

-----------------------------------------------------------------------------
(* The stimuli.                                                            *)
\* Call-IDs that are not this call's: altogether different, longer, shorter, in capitals.
Foreign(m) == m.bad \in {"callid", "callidsuf", "callidcut", "callidcase"}
Deliver(c, d, m) ==
  IF m.e = "resp"
  THEN CASE m.bad = "version" -> Fail(d, "other", 0)
         [] Foreign(m) -> d
         [] OTHER -> OnResponse(c, d, m)
  ELSE CASE m.bad = "version" -> Fail(Reply(d, m, 505), "other", 0)
         [] Foreign(m) -> Reply(d, m, 481)
         [] OTHER -> OnRequest(c, d, m)

RequestTimer(c, d) ==
  LET e == [d EXCEPT !.rt = FALSE]
  IN IF d.resends < c.max
     THEN LET s == SendCurrent(e)
          IN IF s.live THEN [s EXCEPT !.resends = @ + 1, !.rt = TRUE] ELSE s
     ELSE PopRoute(c, e)

ResponseTimer(c, d) ==
  LET e == [d EXCEPT !.pt = FALSE]
  IN IF d.presends < c.max
     THEN LET s == Transmit(e, [k |-> "resp", st |-> 200, id |-> d.resp.id])
          IN [s EXCEPT !.presends = @ + 1, !.pt = TRUE]
     ELSE PopRoute(c, e)

Refused(c, d) == PopRoute(c, [d EXCEPT !.sock = "", !.refPend = FALSE, !.sockGen = @ + 1])

CancelPacket(c, d) ==
  [ k |-> "CANCEL", att |-> d.req.att, uri |-> d.uri, cseq |-> c.cseq,
    tag |-> c.totag, routes |-> d.route, mf |-> 70 ]

OnHangup(c, d) ==
  IF d.st < Answered THEN Transmit(d, CancelPacket(c, d))
  ELSE LET n == d.lseq + 1
           r == [ m |-> "BYE", uri |-> d.remote.contact, route |-> Rev(d.remote.rr),
                  cseq |-> n, tag |-> d.remote.tag, att |-> NoAtt ]
       IN StartRequest(c, [d EXCEPT !.lseq = n], r, FALSE)

Start(c, d) == StartRequest(c, [d EXCEPT !.started = TRUE], Invite(c, d), TRUE)

\* Stimuli that a call in state d can experience apart from messages/hangup.
CanRequestTimer(d)  == d.live /\ d.rt
CanResponseTimer(d) == d.live /\ d.pt
CanRefused(d)       == d.live /\ d.refPend

Step(c, d0, ev) ==
  LET d == [d0 EXCEPT !.out = <<>>]
  IN IF ~d.live THEN d
     ELSE CASE ev.e = "start"   -> Start(c, d)
            [] ev.e = "resp"    -> Deliver(c, d, ev)
            [] ev.e = "req"     -> Deliver(c, d, ev)
            [] ev.e = "hangup"  -> OnHangup(c, d)
            [] ev.e = "rtimer"  -> RequestTimer(c, d)
            [] ev.e = "ptimer"  -> ResponseTimer(c, d)
            [] ev.e = "refused" -> Refused(c, d)
            [] ev.e = "kill"    -> [d EXCEPT !.refuse = @ \cup {ev.s}]
            [] OTHER -> d       \* garbage, messages from strangers
=============================================================================
