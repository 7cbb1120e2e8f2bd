----------------------------- MODULE NetCompose -----------------------------
(* Cases for harness/tportdrv: datagrams for a real transport, messages out *)
(* of one, and chains of routers.  IOEnv.KIND says which; every case is a   *)
(* function of its number.  IOEnv.OCT is the second number of the loopback  *)
(* addresses, so that several checks can run side by side.                  *)
EXTENDS SipGen, MsgSpec, Json, IOUtils, TLC

A0 == IntOf(B(IOEnv.SEED))
Count == IntOf(B(IOEnv.COUNT))
First == IntOf(B(IOEnv.FIRST))
Seed(i) == Sd(Sd(Sd(<<A0 % 46337, 31>>, i % 1000), i \div 1000), 5)
Emit(c) == PrintT("CASE " \o ToJson(c))
Bad(i, what) == PrintT("MODEL " \o ToJson([seed |-> i, what |-> what]))

RECURSIVE Dig(_, _, _)
Dig(i, rads, k) == IF k = 1 THEN i % rads[1] ELSE Dig(i \div rads[1], Tail(rads), k - 1)
Ip(i, role) == "127." \o IOEnv.OCT \o "." \o ToString(((i \div 12) % 250) + 1) \o "." \o ToString(20 * (i % 12) + role)
IpB(i, role) == B(Ip(i, role))
P(ip, port) == [ip |-> ip, port |-> port, kind |-> ""]
Step(k, txt) == [from |-> k, txt |-> txt, pad |-> 0, wait |-> 0]

Ur(host, port, par) == [NoURI EXCEPT !.scheme = B("sip"), !.host = host, !.port = port, !.par = par]
Ad(u) == [disp |-> <<>>, uri |-> u, par |-> <<>>]
Vi(host, port, par) == [pr |-> B("SIP"), ve |-> B("2.0"), tr |-> B("UDP"), host |-> host, port |-> port, par |-> par]
NoBody == [has |-> FALSE, t |-> <<>>, d |-> <<>>]
Plain == [req |-> TRUE, vmaj |-> B("2"), vmin |-> Zero, method |-> B("OPTIONS"), uri |-> Ur(B("final.example"), Zero, <<>>), status |-> 0,
          phrase |-> <<>>, from |-> <<[Ad(Ur(B("f"), Zero, <<>>)) EXCEPT !.par = <<<<B("tag"), B("x")>>>>]>>, to |-> <<Ad(Ur(B("t"), Zero, <<>>))>>, contact |-> <<>>, route |-> <<>>,
          rr |-> <<>>, pai |-> <<>>, rpid |-> <<>>, via |-> <<Vi(B("v"), Zero, <<<<B("branch"), B("z9hG4bK1")>>>>)>>, callid |-> B("c1"),
          cseq |-> B("1"), cseqm |-> B("OPTIONS"), exp |-> Zero, maxf |-> B("70"), minexp |-> Zero, str |-> <<>>, x |-> <<>>, body |-> NoBody]
AsResp(m, st) == [m EXCEPT !.req = FALSE, !.method = <<>>, !.uri = NoURI, !.status = st, !.phrase = B("x"), !.maxf = Zero]
\* A plain text of a message.
PlainTxt(m) == Spell(m, <<0, 0>>)

-----------------------------------------------------------------------------
(* Where responses go: everything a Via can say.  Role 1 is the transport, *)
(* 2 the sender, 3 somebody else.                                          *)
\* host, port, rport, received, Vias, sender's port, transport's port, request or response
ReplyRads == <<6, 4, 5, 3, 2, 2, 2, 2>>
ReplyCase(i) ==
  LET D(k) == Dig(i, ReplyRads, k)
      src == IF D(6) = 0 THEN 7001 ELSE 5060
      tp == IF D(7) = 0 THEN 5060 ELSE 5071
      host == CASE D(1) = 0 -> IpB(i, 2) [] D(1) = 1 -> IpB(i, 3) [] D(1) = 2 -> B("client.example") [] D(1) = 3 -> B("::1")
                [] D(1) = 4 -> IpB(i, 1) [] OTHER -> B("localhost")
      port == CASE D(2) = 0 -> Zero [] D(2) = 1 -> DigitsOf(src) [] D(2) = 2 -> B("7003") [] OTHER -> B("5060")
      rport == CASE D(3) = 0 -> <<>> [] D(3) = 1 -> <<<<B("rport"), <<>>>>>> [] D(3) = 2 -> <<<<B("rport"), DigitsOf(src)>>>>
                 [] D(3) = 3 -> <<<<B("rport"), B("5060")>>>> [] OTHER -> <<<<B("RPORT"), B("7003")>>>>
      rec == CASE D(4) = 0 -> <<>> [] D(4) = 1 -> <<<<B("received"), IpB(i, 3)>>>> [] OTHER -> <<<<B("Received"), IpB(i, 2)>>>>
      v1 == Vi(host, port, <<<<B("branch"), B("z9hG4bKa") \o DigitsOf(i)>>>> \o rport \o <<<<B("x"), B("y")>>>> \o rec)
      v2 == Vi(IpB(i, 3), B("7005"), <<<<B("branch"), B("z9hG4bKb")>>, <<B("rport"), <<>>>>>>)
      here == Ad(Ur(IpB(i, 1), IF tp = 5060 /\ (i % 2) = 0 THEN Zero ELSE DigitsOf(tp), <<<<B("lr"), <<>>>>>>))
      away == Ad(Ur(IpB(i, 1), B("5072"), <<<<B("lr"), <<>>>>>>))
      m0 == [Plain EXCEPT !.route = <<<<>>, <<here>>, <<here, here, away>>, <<away, here>>, <<here, away>>, <<here, here>>, <<away>>>>[(i % 7) + 1],
                          !.via = IF D(5) = 0 THEN <<v1>> ELSE <<v1, v2>>, !.callid = B("fin"), !.rr = IF D(5) = 0 THEN <<>> ELSE <<Ad(Ur(B("p"), Zero, <<>>))>>]
      \* Some as a strict router leaves them: our own address for a target, the real one last.
      m1 == IF (i % 11) > 2 THEN m0 ELSE [m0 EXCEPT !.uri = [here.uri EXCEPT !.par = IF (i % 11) = 2 THEN <<>> ELSE @],
                                                      !.route = (IF (i % 11) = 1 THEN <<away>> ELSE @) \o <<Ad(Plain.uri)>>]
      m == IF D(8) = 1 THEN AsResp(m1, 200) ELSE m1
      Socks == [j \in 1..8 |-> P(Ip(i, IF j <= 4 THEN 2 ELSE 3), <<7001, 5060, 7003, 7005>>[((j - 1) % 4) + 1])]
  IN Emit([id |-> i, op |-> "net", tp |-> P(Ip(i, 1), tp), socks |-> Socks, steps |-> <<Step(IF src = 7001 THEN 1 ELSE 2, PlainTxt(m))>>,
           reply |-> 200, fin |-> B("fin"), spec |-> [kind |-> "reply", items |-> <<[msg |-> m]>>]])

\* The same over IPv6, where all have one address and ports tell them apart.
Reply6Rads == <<5, 3, 4, 3, 2, 2>>
Reply6Case(i) ==
  LET D(k) == Dig(i, Reply6Rads, k)
      base == 21000 + 10 * (i % 3000)
      A(k) == DigitsOf(base + k)
      L == B("::1")
      host == CASE D(1) = 0 -> L [] D(1) = 1 -> B("::2") [] D(1) = 2 -> B("client.example") [] D(1) = 3 -> B("127.0.0.1") [] OTHER -> B("localhost")
      port == CASE D(2) = 0 -> Zero [] D(2) = 1 -> A(1) [] OTHER -> A(3)
      rport == CASE D(3) = 0 -> <<>> [] D(3) = 1 -> <<<<B("rport"), <<>>>>>> [] D(3) = 2 -> <<<<B("rport"), A(1)>>>> [] OTHER -> <<<<B("rport"), A(3)>>>>
      rec == CASE D(4) = 0 -> <<>> [] D(4) = 1 -> <<<<B("received"), L>>>> [] OTHER -> <<<<B("received"), B("127.0.0.1")>>>>
      v1 == Vi(host, port, <<<<B("branch"), B("z9hG4bKa") \o DigitsOf(i)>>>> \o rport \o <<<<B("x"), B("y")>>>> \o rec)
      v2 == Vi(L, A(4), <<<<B("branch"), B("z9hG4bKb")>>, <<B("rport"), <<>>>>>>)
      m0 == [Plain EXCEPT !.via = IF D(5) = 0 THEN <<v1>> ELSE <<v1, v2>>, !.callid = B("fin")]
      m == IF D(6) = 1 THEN AsResp(m0, 200) ELSE m0
  IN Emit([id |-> i, op |-> "net", tp |-> P("::1", base), socks |-> [j \in 1..3 |-> P("::1", base + <<1, 3, 4>>[j])], steps |-> <<Step(1, PlainTxt(m))>>,
           reply |-> 200, fin |-> B("fin"), spec |-> [kind |-> "reply", items |-> <<[msg |-> m]>>]])

-----------------------------------------------------------------------------
(* Sequences of datagrams.                                                 *)
RECURSIVE Dedup(_)
Dedup(ps) == IF ps = <<>> THEN <<>> ELSE <<ps[1]>> \o SelectSeq(Dedup(Tail(ps)), LAMBDA p : Lower(p[1]) # Lower(ps[1][1]))
CleanA(a) == [a EXCEPT !.par = Dedup(@), !.uri.par = Dedup(@)]
CleanAs(as) == [i \in 1..Len(as) |-> CleanA(as[i])]
CleanVs(vs) == [i \in 1..Len(vs) |-> [vs[i] EXCEPT !.par = Dedup(@)]]
Clean(m) == [m EXCEPT !.from = CleanAs(@), !.to = CleanAs(@), !.contact = CleanAs(@), !.route = CleanAs(@), !.rr = CleanAs(@), !.via = CleanVs(@)]
Means(i, t, m) ==
  LET r == RefMsg(t) IN
  IF r.k > MAY THEN Bad(i, "the reference parser does not accept a spelling: " \o ToString(r.k))
  ELSE LET d == Diff(r.v, m) IN IF d # {} THEN Bad(i, "the reference parser reads a spelling as something else: " \o ToString(d)) ELSE TRUE

Sizes == << 1, 900, 1400, 1452, 2000, 2500, 4096, 9000, 20000, 60000 >>
Fin(m) == [m EXCEPT !.callid = B("fin")]
\* k: what the datagram is; msg: what it says, if that is known.
Item(k, m, pad) == [k |-> k, msg |-> m, pad |-> pad]
SeqCase(i) ==
  LET s == Seed(i)
      n == 6 + R(Sd(s, 1), 10)
      Clean1(z) == [Clean(GMsg(z)) EXCEPT !.callid = @ \o B("-n") \o DigitsOf(R(z, 100000))]
      Padded(z, j) == LET m == Clean1(z) IN [m EXCEPT !.callid = B("pad") \o DigitsOf(j), !.x = Append(m.x, <<B("X-Pad"), B("PADPADPAD")>>)]
      One(j) ==
        LET z == Sd(Sd(s, 2), j)
            c == R(Sd(z, 1), 20)
            m == Clean1(Sd(z, 2))
            t == Spell(m, Sd(z, 3))
        IN IF j = n + 1 THEN LET f == Fin(m) IN <<Item("msg", f, 0), Spell(f, Sd(z, 3)), f>>
           ELSE IF c < 9 THEN <<Item("msg", m, 0), t, m>>
           ELSE IF c < 12 THEN LET p == Padded(Sd(z, 4), j) IN <<Item("msg", p, Pick(Sizes, Sd(z, 5))), Spell(p, Sd(z, 6)), p>>
           ELSE IF c < 17 THEN <<Item("text", Plain, 0), Damage(t, 1 + R(Sd(z, 7), 3), Sd(z, 8)), Plain>>
           ELSE IF c = 17 THEN <<Item("text", Plain, 0), <<>>, Plain>>
           ELSE IF c = 18 THEN <<Item("text", Plain, 0), Wild(1, 40, Sd(z, 9)), Plain>>
           ELSE <<Item("text", Plain, 0), Sub(t, 1, R(Sd(z, 10), Len(t))), Plain>>
      base == TLCEval([j \in 1..n + 1 |-> One(j)])
      \* some are sent twice
      Dup(j) == j <= n /\ base[j][1].pad = 0 /\ Chance(Sd(Sd(s, 3), j), 15)
      RECURSIVE Lay(_)
      Lay(j) == IF j > n + 1 THEN <<>> ELSE (IF Dup(j) THEN <<base[j], base[j]>> ELSE <<base[j]>>) \o Lay(j + 1)
      all == TLCEval(Lay(1))
      \* the number of a padded one is its place
      Fix(j) == IF all[j][1].pad = 0 THEN all[j]
                ELSE LET p == [all[j][3] EXCEPT !.callid = B("pad") \o DigitsOf(j)]
                     IN <<Item("msg", p, all[j][1].pad), Spell(p, Sd(Sd(s, 4), j)), p>>
      fixed == TLCEval([j \in 1..Len(all) |-> Fix(j)])
      Socks == <<P(Ip(i, 2), 7001), P(Ip(i, 2), 7002), P(Ip(i, 3), 5060)>>
  IN /\ \A j \in 1..Len(fixed) : fixed[j][1].k = "text" \/ Means(i, fixed[j][2], fixed[j][3])
     /\ Emit([id |-> i, op |-> "net", tp |-> P(Ip(i, 1), IF i % 2 = 0 THEN 5060 ELSE 5075), socks |-> Socks,
              steps |-> [j \in 1..Len(fixed) |-> [from |-> 1 + R(Sd(Sd(s, 5), j), 3), txt |-> fixed[j][2], pad |-> fixed[j][1].pad,
                                                    wait |-> IF i % 6 = 2 /\ j = 2 + R(Sd(s, 8), 4) THEN Pick(<<60, 250, 1200>>, Sd(s, 9)) ELSE 0]],
              slow |-> IF i % 5 = 0 THEN 3 ELSE 0,
              hold |-> IF i % 4 = 1 /\ (\A j \in 1..Len(fixed) : fixed[j][1].pad <= 20000) THEN <<1 + R(Sd(s, 6), 3), Pick(<<60, 220, 700, 1300>>, Sd(s, 7))>> ELSE <<0, 0>>,
              fin |-> B("fin"),
              spec |-> [kind |-> "seq", items |-> [j \in 1..Len(fixed) |-> fixed[j][1]]]])

-----------------------------------------------------------------------------
(* Datagrams to choke on, each followed by a message that must get through. *)
Name(h) == CASE h = 1 -> "Via: SIP/2.0/UDP h" [] h = 2 -> "From: <sip:a>" [] h = 3 -> "To: <sip:b>" [] h = 4 -> "Call-ID: j" [] h = 5 -> "CSeq: 1 INVITE"
             [] h = 6 -> "Max-Forwards: 5" [] h = 7 -> "Contact: <sip:c>" [] h = 8 -> "Content-Type: application/sdp" [] h = 9 -> "Content-Length: 5"
             [] OTHER -> "Route: <sip:r;lr>"
HeadSet(mask, resp, end) ==
  LET RECURSIVE Go(_, _)
      Go(h, k) == IF h > 10 THEN <<>> ELSE (IF (k % 2) = 1 THEN B(Name(h)) \o CRLF ELSE <<>>) \o Go(h + 1, k \div 2)
  IN (IF resp THEN B("SIP/2.0 200 OK") ELSE B("INVITE sip:u@h SIP/2.0")) \o CRLF \o Go(1, mask) \o (IF end THEN CRLF \o (IF ((mask \div 256) % 2) = 1 THEN B("v=0") \o CRLF ELSE <<>>) ELSE <<>>)
SdpBits == << "v=0", "o=- 1 1 IN IP4 1.2.3.4", "s=x", "c=IN IP4 1.2.3.4", "c=IN IP6 ::1", "t=0 0", "m=audio 1 RTP/AVP 0", "m=audio 99999 RTP/AVP 0 300", "m=video 2 RTP/AVP 31",
              "m=audio", "a=rtpmap:101 x/8000", "a=rtpmap:", "a=fmtp:101", "a=ptime:", "a=sendrecv", "m=image 0 udptl t38", "=", "m=audio x RTP/AVP y", "c=IN IP4", "o=", "a=rtpmap:0 a/b/c" >>
SdpTxt(s) == Concat([j \in 1..R(Sd(s, 1), 9) |-> B(Pick(SdpBits, Sd(Sd(s, 2), j))) \o (IF Chance(Sd(Sd(s, 3), j), 90) THEN CRLF ELSE <<10>>)])
JunkSdp(s) == LET b == SdpTxt(s) IN
  HeadSet(159, FALSE, FALSE) \o B("Content-Length: ") \o DigitsOf(Len(b))
  \o CRLF \o CRLF \o b
Odd == << "Via: ,", "Via: SIP/2.0/UDP h;rport=x", "Via: SIP/2.0/UDP h;received=x;rport=99999", "Via: SIP/2.0/UDP [::1]:0", "Via:", "Route: <sip:h>,<sip:h>", "Route: <sip:127.0.0.1:0;lr>",
          "Contact: *", "Contact:", "Max-Forwards: 0", "Max-Forwards: 4294967296", "CSeq: 0 X", "CSeq: 99999999999999999999 INVITE", "Expires: -1", "From:", "To: ;tag=", "Content-Length: 99999999",
          "Content-Type:", "X:", ": y", " folded", "Record-Route: <sip:a", "Call-ID: ", "P-Asserted-Identity: ,", "Timestamp: 1 ", "Subject: \"" >>
JunkOdd(s) == LET RECURSIVE Go(_)
                  Go(h) == IF h > 5 THEN <<>> ELSE (IF Chance(Sd(Sd(s, 1), h), 80) THEN B(Name(h)) \o CRLF ELSE <<>>) \o Go(h + 1)
                  o == Concat([j \in 1..1 + R(Sd(s, 2), 3) |-> B(Pick(Odd, Sd(Sd(s, 3), j))) \o CRLF])
              IN (IF Chance(s, 30) THEN B("SIP/2.0 180 Ringing") ELSE B(Pick(<<"INVITE sip:u@h SIP/2.0", "BYE sip:127.0.0.1;lr SIP/2.0", "ACK sip:h:0 SIP/2.0", "X sip:: SIP/2.0">>, Sd(s, 4))))
                 \o CRLF \o (IF Chance(Sd(s, 5), 50) THEN o \o Go(1) ELSE Go(1) \o o) \o CRLF
\* One long thing and almost nothing else.
JunkGiant(s) == LET x == [k \in 1..(50 + R(s, 400)) |-> 97 + R(Sd(s, k), 26)] IN
  CASE R(s, 4) = 0 -> B("SIP/2.0 200 ") \o x \o CRLF \o CRLF [] R(s, 4) = 1 -> x \o B(" sip:h SIP/2.0") \o CRLF \o CRLF
    [] R(s, 4) = 2 -> B("A sip:h SIP/2.0") \o CRLF \o B("f:\"") \o x \o B("\"<sip:a>") \o CRLF \o CRLF
    [] OTHER -> B("A sip:h SIP/2.0") \o CRLF \o B("i:") \o x \o CRLF \o CRLF
Junk(i, j, s) ==
  CASE i % 4 = 0 -> HeadSet(((i \div 4) * 12 + j) % 1024, ((i \div 4) * 12 + j) >= 1024, TRUE)
    [] i % 4 = 1 -> CASE j % 4 = 0 -> JunkSdp(s) [] j = 5 -> JunkGiant(s) [] j % 4 = 1 -> Wild(0, 30, s) [] j % 4 = 2 -> JunkOdd(s) [] OTHER -> HeadSet(R(s, 1024), Chance(Sd(s, 1), 50), TRUE)
    [] i % 4 = 2 -> Damage(Spell(GMsg(Sd(s, 1)), Sd(s, 2)), 1 + R(s, 4), Sd(s, 3))
    [] OTHER -> CASE j % 3 = 0 -> JunkOdd(s) [] j % 3 = 1 -> JunkSdp(s) [] OTHER -> Damage(JunkOdd(s), 1, Sd(s, 4))
JunkCase(i) ==
  LET s == Seed(i)
      Probe(j) == [Plain EXCEPT !.callid = IF j = 12 THEN B("fin") ELSE B("probe") \o DigitsOf(j), !.cseq = DigitsOf(1 + R(Sd(Sd(s, 1), j), 60000)),
                           !.from = <<CleanA(GAddr(Sd(Sd(s, 4), j)))>>, !.via = <<Vi(IpB(i, 2), B("7001"), <<<<B("branch"), B("z9hG4bKp") \o DigitsOf(j)>>>>)>>]
      items == TLCEval([k \in 1..24 |-> IF k % 2 = 1 THEN Item("junk", Plain, 0) ELSE Item("msg", Probe(k \div 2), 0)])
      txts == TLCEval([k \in 1..24 |-> IF k % 2 = 1 THEN Junk(i, (k + 1) \div 2 - 1, Sd(Sd(s, 2), k)) ELSE Spell(items[k].msg, Sd(Sd(s, 3), k))])
  IN /\ \A k \in 1..12 : Means(i, txts[2 * k], items[2 * k].msg)
     /\ Emit([id |-> i, op |-> "net", tp |-> P(Ip(i, 1), IF i % 2 = 0 THEN 5060 ELSE 5076), socks |-> <<P(Ip(i, 2), 7001), P(Ip(i, 3), 5060)>>,
              steps |-> [k \in 1..24 |-> Step(1 + ((k + i) % 2), txts[k])], reply |-> IF i % 3 = 0 THEN 0 ELSE 404, fin |-> B("fin"),
              spec |-> [kind |-> "junk", items |-> items]])

-----------------------------------------------------------------------------
(* Sending one message.                                                    *)
Bit(n, k) == (n \div k) % 2 = 1
\* The messages of a crowd (of up to twelve) leave one transport, each with its own Call-ID.
Crowd == IOEnv.KIND = "crowd"
SendCase(n) ==
  LET s == Seed(n)
      i == IF Crowd THEN n - (n % 12) ELSE n
      m0 == Clean(GMsg(Sd(s, 1)))
      b == R(Sd(s, 2), 512)
      Mark == B("crowd") \o DigitsOf(n) \o B("x")
      toSock == Chance(Sd(s, 3), 50)
      dest == IF toSock THEN Ur(IpB(i, 2), B("7001"), <<>>) ELSE Ur(IpB(i, 3), Zero, <<>>)
      byRoute == Chance(Sd(s, 4), 40)
      d == [dest EXCEPT !.user = m0.uri.user, !.par = IF byRoute THEN <<<<B("LR"), <<>>>>>> ELSE m0.uri.par]
      v1 == [m0.via[1] EXCEPT !.par = Without(@, B("branch")) \o (IF Bit(b, 1) THEN <<>> ELSE <<<<B("branch"), B("z9hG4bKgiven")>>>>)]
      f1 == [m0.from[1] EXCEPT !.par = Without(@, B("tag")) \o (IF Bit(b, 2) THEN <<>> ELSE <<<<B("tag"), B("giventag")>>>>)]
      req == [m0 EXCEPT !.req = TRUE, !.method = IF m0.req THEN (IF m0.method = B("REGISTER") THEN B("INFO") ELSE m0.method) ELSE B("INFO"),
                        !.status = 0, !.phrase = <<>>,
                        !.uri = IF byRoute THEN GUri(Sd(s, 5)) ELSE d,
                        !.route = IF byRoute THEN <<[Ad(d) EXCEPT !.disp = B("r")]>> \o m0.route ELSE <<>>,
                        !.via = IF Bit(b, 4) THEN <<>> ELSE <<v1>> \o Tail(m0.via),
                        !.from = IF Bit(b, 8) THEN <<>> ELSE <<f1>>, !.to = IF Bit(b, 16) THEN <<>> ELSE @,
                        !.contact = IF Bit(b, 32) THEN <<>> ELSE @,
                        !.callid = IF Crowd THEN Mark ELSE IF Bit(b, 64) THEN <<>> ELSE @, !.cseq = IF Bit(b, 128) THEN Zero ELSE @, !.cseqm = IF Bit(b, 256) THEN <<>> ELSE @,
                        !.maxf = Pick(<<Zero, B("1"), B("2"), B("70"), B("255"), @>>, Sd(s, 6))]
      rv == [m0.via[1] EXCEPT !.host = IF toSock THEN IpB(i, 2) ELSE IpB(i, 3), !.port = IF toSock THEN B("7001") ELSE Zero,
                              !.par = Without(Without(@, B("rport")), B("received"))]
      rsp == [m0 EXCEPT !.req = FALSE, !.method = <<>>, !.uri = NoURI, !.status = IF m0.req THEN 180 + R(Sd(s, 7), 400) ELSE @, !.phrase = B("x"), !.maxf = Zero, !.callid = IF Crowd THEN Mark ELSE @,
                        !.via = <<rv>> \o Tail(m0.via)]
      m == IF Chance(Sd(s, 8), 20) THEN rsp ELSE req
  IN Emit([id |-> n, op |-> "send", mark |-> IF Crowd THEN Mark ELSE <<>>, tp |-> P(Ip(i, 1), IF i % 2 = 0 THEN 5060 ELSE 5077),
           socks |-> <<P(Ip(i, 2), 7001), P(Ip(i, 3), 5060)>>, msg |-> m,
           spec |-> [kind |-> "send", sock |-> IF toSock THEN 1 ELSE 2]])

-----------------------------------------------------------------------------
(* Routes through loose and strict routers: the number of routers, which    *)
(* of them are strict, and how ports are written.                           *)
\* own entry first?, ports, routers, kinds
ChainRads == <<2, 3, 6, 32>>
ChainCase(i) ==
  LET D(k) == Dig(i, ChainRads, k)
      n == D(3)
      port(j) == CASE D(2) = 0 -> 5060 [] D(2) = 1 -> 5080 + j [] OTHER -> (IF (j % 2) = 0 THEN 5060 ELSE 5081)
      wport(j) == IF port(j) = 5060 /\ (D(2) = 0 \/ (j % 4) = 0) THEN Zero ELSE DigitsOf(port(j))
      strict(j) == (D(4) \div (CASE j = 1 -> 1 [] j = 2 -> 2 [] j = 3 -> 4 [] j = 4 -> 8 [] OTHER -> 16)) % 2 = 1
      node(j) == [ip |-> Ip(i, 1 + j), port |-> port(j), kind |-> IF j <= n /\ strict(j) THEN "strict" ELSE "loose"]
      route(j) == [disp |-> IF (j % 2) = 0 THEN <<>> ELSE B("R"),
                   uri |-> [Ur(IpB(i, 1 + j), wport(j), IF strict(j) THEN (IF (j % 3) = 0 THEN <<<<B("transport"), B("udp")>>>> ELSE <<>>) ELSE <<<<B("lr"), <<>>>>>>)
                              EXCEPT !.user = B("r") \o DigitsOf(j)], par |-> IF (j % 2) = 0 THEN <<>> ELSE <<<<B("q"), B("1")>>>>]
      target == [Ur(IpB(i, 2 + n), wport(n + 1), IF (i % 3) = 0 THEN <<<<B("x"), B("y z")>>>> ELSE <<>>) EXCEPT !.user = B("bob")]
      own == [disp |-> <<>>, uri |-> [Ur(IpB(i, 1), B("5079"), <<<<B("lr"), <<>>>>>>) EXCEPT !.user = B("tp")], par |-> <<>>]
      m == [Plain EXCEPT !.uri = target, !.via = <<>>, !.route = (IF D(1) = 1 THEN <<own>> ELSE <<>>) \o [j \in 1..n |-> route(j)]]
  IN Emit([id |-> i, op |-> "chain", tp |-> P(Ip(i, 1), 5079), nodes |-> [j \in 1..n + 1 |-> node(j)], msg |-> m, spec |-> [kind |-> "chain", target |-> target]])

Case(i) == CASE IOEnv.KIND = "reply" -> ReplyCase(i)
             [] IOEnv.KIND = "reply6" -> Reply6Case(i)
             [] IOEnv.KIND = "seq" -> SeqCase(i)
             [] IOEnv.KIND = "junk" -> JunkCase(i)
             [] IOEnv.KIND \in {"send", "crowd"} -> SendCase(i)
             [] IOEnv.KIND = "chain" -> ChainCase(i)

VARIABLE n
Init == n = 0
Next == n < Count /\ n' = n + 1 /\ Case(First + n)
Spec == Init /\ [][Next]_n
=============================================================================
