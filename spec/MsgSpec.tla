------------------------------ MODULE MsgSpec -------------------------------
(***************************************************************************)
(* What the dialog package does to messages, as functions and relations on *)
(* abstract messages (see SipRef for their form):                          *)
(*   RouteReq, RouteRsp   where a message goes and what becomes of it      *)
(*   Receive              what an element does to a request on arrival     *)
(*   Annotate             received and rport                               *)
(*   Completed            what may be added to a request before sending    *)
(*   Response, Ack, ...   messages made out of others                      *)
(*   Matches, AckMatches  which message belongs to which                   *)
(***************************************************************************)
EXTENDS SipRef

P5060 == B("5060")
Or5060(p) == IF p = Zero THEN P5060 ELSE p
UriPort(u) == IF u.port # Zero THEN u.port ELSE IF u.scheme = B("sips") THEN B("5061") ELSE P5060
SameUriHP(a, b) == a.host = b.host /\ UriPort(a) = UriPort(b)
SameViaHP(a, b) == a.host = b.host /\ Or5060(a.port) = Or5060(b.port)

\* Parameter lookup by name; where a name is repeated, the last one counts.
Hits(ps, n) == {i \in 1..Len(ps) : Lower(ps[i][1]) = n}
HasPar(ps, n) == Hits(ps, n) # {}
GetPar(ps, n) == ps[CHOOSE i \in Hits(ps, n) : \A j \in Hits(ps, n) : j <= i][2]
Without(ps, n) == SelectSeq(ps, LAMBDA p : Lower(p[1]) # n)
Loose(a) == HasPar(a.uri.par, B("lr"))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

-----------------------------------------------------------------------------
(* Routing of requests (RFC 3261 section 16.12).  self is the sender's     *)
(* contact address as a list of at most one.                               *)
NoDest == [ok |-> FALSE, host |-> <<>>, port |-> Zero]
RouteReq(self, m) ==
  LET rt == IF self # <<>> /\ m.route # <<>> /\ SameUriHP(self[1].uri, m.route[1].uri) THEN Tail(m.route) ELSE m.route
      To(u) == [ok |-> TRUE, host |-> u.host, port |-> u.port]
  IN IF rt = <<>> THEN [d |-> To(m.uri), m |-> [m EXCEPT !.route = rt]]
     ELSE IF m.method = B("REGISTER") THEN [d |-> NoDest, m |-> m]
     ELSE IF Loose(rt[1]) THEN [d |-> To(rt[1].uri), m |-> [m EXCEPT !.route = rt]]
     ELSE [d |-> To(rt[1].uri),
           m |-> [m EXCEPT !.uri = rt[1].uri, !.route = Append(Tail(rt), [disp |-> <<>>, uri |-> m.uri, par |-> <<>>])]]

\* Arrival of a request at the element with host h and port p.
Here(u, h, p) == u.host = h /\ Or5060(u.port) = p
Receive(h, p, m) ==
  LET r1 == IF m.route # <<>> /\ Here(m.route[1].uri, h, p) THEN Tail(m.route) ELSE m.route
      strict == m.req /\ r1 # <<>> /\ HasPar(m.uri.par, B("lr")) /\ Here(m.uri, h, p)
  IN IF strict THEN [m EXCEPT !.uri = r1[Len(r1)].uri, !.route = SubSeq(r1, 1, Len(r1) - 1)] ELSE [m EXCEPT !.route = r1]

\* A strict router (RFC 2543) forwards to the first route, which becomes the request URI.
StrictForward(m) == IF m.route = <<>> THEN m ELSE [m EXCEPT !.uri = m.route[1].uri, !.route = Tail(m.route)]

-----------------------------------------------------------------------------
(* Requests arriving from address h, port p (digits) are annotated; the    *)
(* response goes back accordingly.                                         *)
Annotated(via, h, p) ==
  LET v1 == IF via.port = p THEN via.par
            ELSE IF ~HasPar(via.par, B("rport")) THEN Append(via.par, <<B("rport"), p>>)
            ELSE IF GetPar(via.par, B("rport")) # <<>> THEN via.par
            ELSE [i \in 1..Len(via.par) |-> IF i \in Hits(via.par, B("rport")) THEN <<via.par[i][1], p>> ELSE via.par[i]]
      v2 == IF via.host = h \/ HasPar(v1, B("received")) THEN v1 ELSE Append(v1, <<B("received"), h>>)
  IN [via EXCEPT !.par = v2]
Annotate(m, h, p) == IF m.req /\ m.via # <<>> THEN [m EXCEPT !.via = <<Annotated(m.via[1], h, p)>> \o Tail(m.via)] ELSE m

\* Where a response goes.  own is the Via of the transport, as a list of at most one.
PortOk(d) == d # <<>> /\ All(d, Digit) /\ NumLeq(Strip0(d), Max16)
RouteRsp(own, m) ==
  IF m.via = <<>> THEN [d |-> NoDest, m |-> m]
  ELSE LET pop == own # <<>> /\ Len(m.via) > 1 /\ SameViaHP(own[1], m.via[1])
           vs == IF pop THEN Tail(m.via) ELSE m.via
           v == vs[1]
           rp == IF HasPar(v.par, B("rport")) THEN GetPar(v.par, B("rport")) ELSE <<>>
       IN [d |-> IF rp # <<>> /\ ~PortOk(rp) THEN NoDest
                 ELSE [ok |-> TRUE, host |-> IF HasPar(v.par, B("received")) THEN GetPar(v.par, B("received")) ELSE v.host,
                       port |-> IF rp # <<>> THEN Strip0(rp) ELSE v.port],
           m |-> [m EXCEPT !.via = vs]]

\* The source of a request is where the response goes, unless the request itself says otherwise.
Silent(via) == /\ ~HasPar(via.par, B("received"))
               /\ (HasPar(via.par, B("rport")) => GetPar(via.par, B("rport")) = <<>>)

-----------------------------------------------------------------------------
(* Completing requests.                                                    *)
IsTok(t) == t # <<>> /\ All(t, Token)
Cookie == B("z9hG4bK")
GoodBranch(t) == IsTok(t) /\ Len(t) >= 15 /\ Sub(t, 1, 7) = Cookie
GoodTag(t) == IsTok(t) /\ Len(t) >= 8
GoodCallID(t) == t # <<>> /\ CidVal(t).k = ACC /\ Len(t) >= 16
UA == "User-Agent"
Strs(m, not) == {s \in {<<m.str[i][1], m.str[i][2]>> : i \in 1..Len(m.str)} : s[1] \notin not}

\* n (with value good by G) was added to ps if it was missing, and nothing else.
AddedTo(ps, n, G(_), out) == IF HasPar(ps, n) THEN out = ps
                             ELSE HasPar(out, n) /\ Len(out) = Len(ps) + 1 /\ Without(out, n) = ps /\ G(GetPar(out, n))

Kept == {"req", "vmaj", "vmin", "method", "uri", "status", "phrase", "route", "rr", "pai", "rpid", "exp", "minexp", "x", "body"}
\* What is wrong with out as completion of the request m; via and contact are the transport's.
Uncompleted(via, contact, m, out) ==
  {f \in Kept : m[f] # out[f]}
  \cup (IF m.via = <<>>
        THEN IF Len(out.via) = 1 /\ [out.via[1] EXCEPT !.par = <<>>] = [via[1] EXCEPT !.par = <<>>]
                /\ AddedTo(via[1].par, B("branch"), GoodBranch, out.via[1].par) THEN {} ELSE {"via"}
        ELSE IF Len(out.via) = Len(m.via) /\ Tail(out.via) = Tail(m.via)
                /\ [out.via[1] EXCEPT !.par = <<>>] = [m.via[1] EXCEPT !.par = <<>>]
                /\ AddedTo(m.via[1].par, B("branch"), GoodBranch, out.via[1].par) THEN {} ELSE {"via"})
  \cup (IF out.contact = (IF m.contact = <<>> THEN contact ELSE m.contact) THEN {} ELSE {"contact"})
  \cup (IF out.to = (IF m.to = <<>> THEN <<[disp |-> <<>>, uri |-> m.uri, par |-> <<>>]>> ELSE m.to) THEN {} ELSE {"to"})
  \cup (IF Len(out.from) = 0 THEN {"from"}
        ELSE IF m.from = <<>>
        THEN LET c == out.contact[1].uri  u == out.from[1].uri IN
             IF Len(out.from) = 1 /\ u.host = c.host /\ u.user = c.user /\ u.port = c.port /\ u.scheme = c.scheme
                /\ HasPar(out.from[1].par, B("tag")) /\ IsTok(GetPar(out.from[1].par, B("tag"))) THEN {} ELSE {"from"}
        ELSE IF /\ Tail(out.from) = Tail(m.from) /\ [out.from[1] EXCEPT !.par = <<>>] = [m.from[1] EXCEPT !.par = <<>>]
                /\ AddedTo(m.from[1].par, B("tag"), GoodTag, out.from[1].par) THEN {} ELSE {"from"})
  \cup (IF (m.callid # <<>> /\ out.callid = m.callid) \/ (m.callid = <<>> /\ GoodCallID(out.callid)) THEN {} ELSE {"callid"})
  \cup (IF m.cseq = Zero \/ out.cseq = m.cseq THEN {} ELSE {"cseq"})
  \cup (IF (All(out.cseq, Digit) /\ NumLeq(out.cseq, Max31)) \/ out.cseq = m.cseq THEN {} ELSE {"cseq"})
  \cup (IF out.cseqm = (IF m.cseqm = <<>> THEN m.method ELSE m.cseqm) THEN {} ELSE {"cseqm"})
  \cup (IF out.maxf = (IF m.maxf = Zero THEN B("70") ELSE m.maxf) THEN {} ELSE {"maxf"})
  \cup (IF Strs(m, {UA}) = Strs(out, {UA}) THEN {} ELSE {"str"})
  \cup (IF StrOf(out, UA) # <<>> /\ (StrOf(m, UA) = <<>> \/ StrOf(m, UA) = StrOf(out, UA)) THEN {} ELSE {"useragent"})

-----------------------------------------------------------------------------
(* Derived messages: what is wrong with out.                               *)
Phrases ==
  << <<100, "Trying">>, <<180, "Ringing">>, <<181, "Call Is Being Forwarded">>, <<182, "Queued">>, <<183, "Session Progress">>,
     <<200, "OK">>, <<202, "Accepted">>, <<204, "No Notification">>, <<300, "Multiple Choices">>, <<301, "Moved Permanently">>,
     <<302, "Moved Temporarily">>, <<305, "Use Proxy">>, <<380, "Alternative Service">>, <<400, "Bad Request">>, <<401, "Unauthorized">>,
     <<402, "Payment Required">>, <<403, "Forbidden">>, <<404, "Not Found">>, <<405, "Method Not Allowed">>, <<406, "Not Acceptable">>,
     <<407, "Proxy Authentication Required">>, <<408, "Request Timeout">>, <<410, "Gone">>, <<413, "Request Entity Too Large">>,
     <<414, "Request-URI Too Long">>, <<415, "Unsupported Media Type">>, <<416, "Unsupported URI Scheme">>, <<420, "Bad Extension">>,
     <<421, "Extension Required">>, <<423, "Interval Too Brief">>, <<480, "Temporarily Unavailable">>,
     <<481, "Call/Transaction Does Not Exist">>, <<482, "Loop Detected">>, <<483, "Too Many Hops">>, <<484, "Address Incomplete">>,
     <<485, "Ambiguous">>, <<486, "Busy Here">>, <<487, "Request Terminated">>, <<488, "Not Acceptable Here">>, <<491, "Request Pending">>,
     <<493, "Undecipherable">>, <<501, "Not Implemented">>, <<502, "Bad Gateway">>, <<503, "Service Unavailable">>,
     <<505, "Version Not Supported">>, <<513, "Message Too Large">>, <<600, "Busy Everywhere">>, <<603, "Decline">>,
     <<604, "Does Not Exist Anywhere">> >>
PhraseOf(st) == LET H == {i \in 1..Len(Phrases) : Phrases[i][1] = st} IN IF H = {} THEN <<>> ELSE B(Phrases[CHOOSE i \in H : TRUE][2])

Unequal(F, a, b) == {f \in F : a[f] # b[f]}
Ident == {"from", "to", "callid", "cseq"}
WrongResponse(m, st, out) ==
  Unequal(Ident \cup {"via", "cseqm", "rr"}, m, out)
  \cup (IF ~out.req /\ out.status = st THEN {} ELSE {"status"})
  \cup (IF PhraseOf(st) \in {<<>>, out.phrase} /\ out.phrase # <<>> THEN {} ELSE {"phrase"})
  \cup (IF out.body.has \/ out.route # <<>> THEN {"extra"} ELSE {})
\* m is the response to the request inv.
WrongAck(m, inv, out) ==
  Unequal(Ident, m, out)
  \cup (IF out.req /\ out.method = B("ACK") /\ out.cseqm = B("ACK") THEN {} ELSE {"method"})
  \cup (IF out.uri = (IF m.contact # <<>> THEN m.contact[1].uri ELSE inv.uri) THEN {} ELSE {"uri"})
  \cup (IF out.via = <<m.via[1]>> THEN {} ELSE {"via"})
  \cup (IF out.route = Reverse(m.rr) THEN {} ELSE {"route"})
  \cup {f \in {"Authorization", "Proxy-Authorization"} : StrOf(out, f) # StrOf(inv, f)}
  \cup (IF out.body.has THEN {"extra"} ELSE {})
WrongCancel(inv, out) ==
  Unequal(Ident \cup {"uri", "route"}, inv, out)
  \cup (IF out.req /\ out.method = B("CANCEL") /\ out.cseqm = B("CANCEL") THEN {} ELSE {"method"})
  \cup (IF out.via # <<>> /\ out.via[1] = inv.via[1] THEN {} ELSE {"via"})
  \cup (IF out.body.has \/ out.contact # <<>> THEN {"extra"} ELSE {})
\* seq is the number of the last request we sent.
WrongBye(m, inv, seq, out) ==
  (IF out.req /\ out.method = B("BYE") /\ out.cseqm = B("BYE") THEN {} ELSE {"method"})
  \cup (IF out.uri = m.contact[1].uri THEN {} ELSE {"uri"})
  \cup (IF out.from = inv.from /\ out.to = m.to THEN {} ELSE {"from/to"})
  \cup (IF out.callid = inv.callid THEN {} ELSE {"callid"})
  \cup (IF out.cseq = DigitsOf(seq + 1) THEN {} ELSE {"cseq"})
  \cup (IF out.route = Reverse(m.rr) THEN {} ELSE {"route"})
  \cup (IF out.body.has THEN {"extra"} ELSE {})
WrongRequest(via, contact, meth, to, from, out) ==
  LET f == IF from = <<>> THEN contact ELSE from IN
  (IF out.req /\ out.method = meth /\ out.cseqm = meth THEN {} ELSE {"method"})
  \cup (IF out.uri = to[1].uri THEN {} ELSE {"uri"})
  \cup (IF out.to = to THEN {} ELSE {"to"})
  \cup (IF Len(out.from) = Len(f) /\ [out.from[1] EXCEPT !.par = <<>>] = [f[1] EXCEPT !.par = <<>>]
           /\ GoodTag(GetPar(out.from[1].par, B("tag"))) THEN {} ELSE {"from"})
  \cup (IF Len(out.via) = 1 /\ SameViaHP(out.via[1], via[1]) /\ GoodBranch(GetPar(out.via[1].par, B("branch"))) THEN {} ELSE {"via"})
  \cup (IF GoodCallID(out.callid) THEN {} ELSE {"callid"})

-----------------------------------------------------------------------------
(* Matching.                                                               *)
Origin(m) == m.via[Len(m.via)]
BranchOf(v) == IF HasPar(v.par, B("branch")) THEN GetPar(v.par, B("branch")) ELSE <<>>
Matches(req, rsp) ==
  /\ ~rsp.req /\ rsp.cseq = req.cseq /\ rsp.cseqm = req.method
  /\ SameViaHP(Origin(rsp), req.via[1])
  /\ BranchOf(Origin(rsp)) = BranchOf(req.via[1])
AckMatches(m, ack) ==
  /\ ack.req /\ ack.method = B("ACK") /\ ack.cseqm = B("ACK") /\ ack.cseq = m.cseq
  /\ SameViaHP(Origin(ack), m.via[1])

-----------------------------------------------------------------------------
(* Resolution of the next hop.  dns: [a: set of names with their address,  *)
(* srv: list of records].  The result is a sequence of groups: candidates  *)
(* of the same priority may come in any order.                             *)
IsV4(h) == LET p == Split(h, 46) IN Len(p) = 4 /\ \A i \in 1..4 : PortOk(p[i]) /\ Len(p[i]) <= 3 /\ NumLeq(Strip0(p[i]), Max8)
=============================================================================
