----------------------------- MODULE MsgCompose -----------------------------
(* Cases for harness/msgdrv.  IOEnv.KIND says which; every case is a        *)
(* function of its number, and where the kinds are small (route, reply,     *)
(* match, resolve) all combinations are enumerated.                         *)
EXTENDS SipGen, MsgSpec, Json, IOUtils

A0 == IntOf(B(IOEnv.SEED))
Count == IntOf(B(IOEnv.COUNT))
First == IntOf(B(IOEnv.FIRST))
Seed(i) == Sd(Sd(Sd(<<A0 % 46337, 23>>, i % 1000), i \div 1000), 5)
Emit(c) == PrintT("CASE " \o ToJson(c))

\* The k-th digit of i in mixed radix.
RECURSIVE Dig(_, _, _)
Dig(i, rads, k) == IF k = 1 THEN i % rads[1] ELSE Dig(i \div rads[1], Tail(rads), k - 1)
Bit(i, k) == (i \div (CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64
                        [] k = 7 -> 128 [] k = 8 -> 256 [] k = 9 -> 512 [] OTHER -> 1024)) % 2 = 1

Ur(host, port, par) == [NoURI EXCEPT !.scheme = B("sip"), !.host = host, !.port = port, !.par = par]
Ad(u) == [disp |-> <<>>, uri |-> u, par |-> <<>>]
Vi(host, port, par) == [pr |-> B("SIP"), ve |-> B("2.0"), tr |-> B("UDP"), host |-> host, port |-> port, par |-> par]
OwnVia == [pr |-> <<>>, ve |-> <<>>, tr |-> <<>>, host |-> B("10.9.8.7"), port |-> B("5071"), par |-> <<>>]
OwnContact == [disp |-> B("us"), uri |-> [Ur(B("10.9.8.7"), B("5071"), <<<<B("transport"), B("udp")>>, <<B("lr"), <<>>>>>>) EXCEPT !.user = B("me")], par |-> <<>>]

NoBody == [has |-> FALSE, t |-> <<>>, d |-> <<>>]
Plain == [req |-> TRUE, vmaj |-> B("2"), vmin |-> Zero, method |-> B("OPTIONS"), uri |-> Ur(B("final.example"), B("5099"), <<>>), status |-> 0,
          phrase |-> <<>>, from |-> <<Ad(Ur(B("f"), Zero, <<>>))>>, to |-> <<Ad(Ur(B("t"), Zero, <<>>))>>, contact |-> <<>>, route |-> <<>>,
          rr |-> <<>>, pai |-> <<>>, rpid |-> <<>>, via |-> <<Vi(B("v"), Zero, <<<<B("branch"), B("z9hG4bK1")>>>>)>>, callid |-> B("c1"),
          cseq |-> B("1"), cseqm |-> B("OPTIONS"), exp |-> Zero, maxf |-> B("70"), minexp |-> Zero, str |-> <<>>, x |-> <<>>, body |-> NoBody]

\* Only one parameter of a name.
RECURSIVE Dedup(_)
Dedup(ps) == IF ps = <<>> THEN <<>> ELSE <<ps[1]>> \o SelectSeq(Dedup(Tail(ps)), LAMBDA p : Lower(p[1]) # Lower(ps[1][1]))
CleanA(a) == [a EXCEPT !.par = Dedup(@), !.uri.par = Dedup(@)]
CleanAs(as) == [i \in 1..Len(as) |-> CleanA(as[i])]
CleanVs(vs) == [i \in 1..Len(vs) |-> [vs[i] EXCEPT !.par = Dedup(@)]]
Clean(m) == [m EXCEPT !.from = CleanAs(@), !.to = CleanAs(@), !.contact = CleanAs(@), !.route = CleanAs(@), !.rr = CleanAs(@), !.via = CleanVs(@)]

Populate(i) ==
  LET s == Seed(i)
      m0 == Clean(GMsg(Sd(s, 1)))
      b == R(Sd(s, 2), 2048)
      bits == IF i < 2048 THEN i ELSE b
      v1 == [m0.via[1] EXCEPT !.par = Without(@, B("branch")) \o (IF Bit(bits, 0) THEN <<>> ELSE <<<<B("branch"), B("z9hG4bKgiven")>>>>)]
      f1 == [m0.from[1] EXCEPT !.par = Without(@, B("tag")) \o (IF Bit(bits, 1) THEN <<>> ELSE <<<<B("Tag"), B("giventag")>>>>)]
      c1 == Head(IF m0.contact = <<>> THEN <<OwnContact>> ELSE m0.contact)
      m == [m0 EXCEPT !.via = IF Bit(bits, 2) THEN <<>> ELSE <<v1>> \o Tail(m0.via),
                      !.from = IF Bit(bits, 3) THEN <<>> ELSE <<f1>>,
                      !.to = IF Bit(bits, 4) THEN <<>> ELSE @,
                      !.contact = IF Bit(bits, 5) THEN <<>> ELSE IF @ = <<>> THEN <<c1>> ELSE @,
                      !.callid = IF Bit(bits, 6) THEN <<>> ELSE @,
                      !.cseq = IF Bit(bits, 7) THEN Zero ELSE @,
                      !.cseqm = IF Bit(bits, 8) THEN <<>> ELSE @,
                      !.maxf = IF Bit(bits, 9) THEN Zero ELSE @,
                      !.str = IF Bit(bits, 10) THEN SelectSeq(@, LAMBDA x : x[1] # UA) ELSE @]
      ct == [OwnContact EXCEPT !.uri.user = GHost(Sd(s, 7))]
  IN Emit([id |-> i, op |-> "populate", msg |-> m, via |-> <<OwnVia>>, contact |-> <<ct>>])

\* self?, own route first?, routes, kinds, ports, REGISTER?, own by default port?, spelling
RouteRads == <<2, 2, 4, 8, 3, 2, 2, 3>>
RouteCase(i) ==
  LET D(k) == Dig(i, RouteRads, k)
      Port(j) == CASE D(5) = 0 -> Zero [] D(5) = 1 -> DigitsOf(5060 + j) [] OTHER -> (IF (j % 2) = 0 THEN B("5060") ELSE Zero)
      Tcp == <<<<B("transport"), B("udp")>>>>
      Lr(j) == IF Bit(D(4), j - 1)
               THEN CASE D(8) = 0 -> <<<<B("LR"), <<>>>>>> [] D(8) = 1 -> Tcp \o <<<<B("lr"), B(<<"on", "true", "no">>[j])>>>> [] OTHER -> <<<<B("lr"), <<>>>>>> \o Tcp
               ELSE CASE D(8) = 0 -> <<>> [] D(8) = 1 -> <<<<B("lrx"), <<>>>>>> [] OTHER -> <<<<B("l"), B("lr")>>, <<B("x"), B("lr")>>>>
      Name(j) == IF D(8) = 2 THEN B(<<"P1.example", "10.9.8.77", "p3.example">>[j]) ELSE B("10.0.0.") \o DigitsOf(j)
      own == IF D(7) = 1 THEN [OwnContact EXCEPT !.uri.port = B("5060")] ELSE OwnContact
      ownRoute == Ad(Ur(own.uri.host, IF D(7) = 1 THEN Zero ELSE own.uri.port, <<<<B("lr"), <<>>>>>>))
      rs == [j \in 1..D(3) |-> Ad(Ur(Name(j), Port(j), Lr(j)))]
      m == [Plain EXCEPT !.route = (CASE D(2) = 0 -> <<>> [] D(8) = 2 -> <<ownRoute, ownRoute>> [] OTHER -> <<ownRoute>>) \o rs,
                         !.uri.port = IF D(5) = 0 THEN Zero ELSE @,
                         !.method = IF D(6) = 1 THEN B("REGISTER") ELSE @, !.cseqm = IF D(6) = 1 THEN B("REGISTER") ELSE @]
  IN Emit([id |-> i, op |-> "route", msg |-> m, via |-> <<OwnVia>>, contact |-> IF D(1) = 1 THEN <<own>> ELSE <<>>])

\* own Via known?, Vias, topmost is ours?, received, rport, port
ReplyRads == <<2, 3, 3, 2, 6, 3>>
ReplyCase(i) ==
  LET D(k) == Dig(i, ReplyRads, k)
      port == CASE D(6) = 0 -> Zero [] D(6) = 1 -> B("5060") [] OTHER -> B("5099")
      rec == IF D(4) = 1 THEN <<<<B("received"), B("10.1.1.1")>>>> ELSE <<>>
      rp == CASE D(5) = 0 -> <<>> [] D(5) = 1 -> <<<<B("rport"), <<>>>>>> [] D(5) = 2 -> <<<<B("rport"), B("17000")>>>>
              [] D(5) = 3 -> <<<<B("RPort"), B("65535")>>>> [] D(5) = 4 -> <<<<B("rport"), B("5060")>>>> [] OTHER -> <<<<B("rport"), B("65536")>>>>
      branch == <<<<B("branch"), B("z9hG4bK1")>>>>
      ext(j) == Vi(B("10.3.3.") \o DigitsOf(j), port, branch \o rp \o rec)
      ours == [OwnVia EXCEPT !.pr = B("SIP"), !.ve = B("2.0"), !.tr = B("UDP"), !.par = branch]
      ours60 == [ours EXCEPT !.port = Zero]
      own == IF D(3) = 2 THEN [OwnVia EXCEPT !.port = P5060] ELSE OwnVia
      vs == CASE D(3) = 0 -> [j \in 1..D(2) + 1 |-> ext(j)]
              [] D(3) = 1 -> <<ours>> \o [j \in 1..D(2) |-> ext(j)]
              [] OTHER -> <<ours60>> \o [j \in 1..D(2) |-> ext(j)]
      m == [Plain EXCEPT !.req = FALSE, !.method = <<>>, !.uri = NoURI, !.status = 200, !.phrase = B("OK"), !.via = vs, !.maxf = Zero]
  IN Emit([id |-> i, op |-> "route", msg |-> m, via |-> IF D(1) = 1 THEN <<own>> ELSE <<>>, contact |-> <<OwnContact>>])

AsResp(m, st) == [m EXCEPT !.req = FALSE, !.method = <<>>, !.uri = NoURI, !.status = st, !.phrase = B("x"), !.maxf = Zero]
Statuses == [j \in 1..Len(Phrases) |-> Phrases[j][1]]
Derive(i) ==
  LET s == Seed(i)
      a == Clean(GMsg(Sd(s, 1)))
      b == Clean(GMsg(Sd(s, 2)))
      req == [a EXCEPT !.req = TRUE, !.status = 0, !.phrase = <<>>, !.method = IF a.req THEN a.method ELSE B("INFO"), !.uri = GUri(Sd(s, 3)),
                       !.str = SelectSeq(@, LAMBDA x : x[1] \notin {"Authorization", "Proxy-Authorization"})]
      inv == [req EXCEPT !.method = B("INVITE"), !.cseqm = B("INVITE"), !.cseq = DigitsOf(R(Sd(s, 4), 60000)),
                         !.str = (IF Chance(Sd(s, 5), 50) THEN <<<<"Authorization", B("Digest a")>>>> ELSE <<>>)
                                 \o (IF Chance(Sd(s, 6), 50) THEN <<<<"Proxy-Authorization", B("Digest b")>>>> ELSE <<>>)]
      rsp == [AsResp(b, 200) EXCEPT !.callid = inv.callid, !.cseq = inv.cseq, !.cseqm = inv.cseqm, !.rr = GAddrs(70, Sd(s, 7))]
      rspc == IF rsp.contact = <<>> THEN [rsp EXCEPT !.contact = <<GAddr(Sd(s, 8))>>] ELSE rsp
      rec == [id |-> i, op |-> "derive"]
      Only1(m) == [m EXCEPT !.via = <<m.via[1]>>]
  IN CASE i % 6 = 0 -> Emit(rec @@ [fn |-> "response", msg |-> req, status |-> Pick(Statuses, Sd(s, 9))])
       [] i % 6 = 1 -> Emit(rec @@ [fn |-> "ack", msg |-> rsp, other |-> inv])
       [] i % 6 = 2 -> Emit(rec @@ [fn |-> "cancel", msg |-> Only1(inv)])
       [] i % 6 = 3 -> Emit(rec @@ [fn |-> "bye", msg |-> rspc, other |-> inv, lseq |-> R(Sd(s, 10), 50000)])
       [] i % 6 = 4 -> Emit(rec @@ [fn |-> "bye0", msg |-> rspc, other |-> inv])
       [] OTHER -> Emit(rec @@ [fn |-> "request", msg |-> [req EXCEPT !.method = IF a.req THEN @ ELSE B("MESSAGE")], via |-> <<OwnVia>>,
                                contact |-> <<OwnContact>>,
                                addrs |-> IF Chance(Sd(s, 11), 50) THEN <<>> ELSE <<[a.from[1] EXCEPT !.par = Without(@, B("tag"))]>>])

\* seq, method, host, port, branch, response or request, Vias before, case of the branch parameter's name
MatchRads == <<3, 3, 2, 9, 4, 2, 3, 2, 2>>
MatchCase(i) ==
  LET D(k) == Dig(i, MatchRads, k)
      ps == << Zero, B("5060"), B("5061") >>
      bn == IF D(8) = 1 THEN B("Branch") ELSE B("branch")
      br(t) == <<<<bn, t>>, <<B("rport"), <<>>>>>>
      isAck == D(9) = 1
      req == [Plain EXCEPT !.method = IF isAck THEN B("INVITE") ELSE B("BYE"), !.cseqm = IF isAck THEN B("INVITE") ELSE B("BYE"), !.cseq = B("21"),
                           !.via = <<Vi(B("10.0.0.1"), ps[(D(4) % 3) + 1], <<<<B("branch"), B("z9hG4bKab")>>>>)>>]
      o == Vi(IF D(3) = 0 THEN B("10.0.0.1") ELSE B("10.0.0.2"), ps[(D(4) \div 3) + 1],
              CASE D(5) = 0 -> br(B("z9hG4bKab")) [] D(5) = 1 -> br(B("z9hG4bKac")) [] D(5) = 2 -> br(<<>>) [] OTHER -> <<>>)
      pre == [j \in 1..D(7) |-> IF j = 1 THEN Vi(B("10.0.0.1"), Zero, br(B("z9hG4bKab"))) ELSE Vi(B("10.7.7.7"), Zero, br(B("z9hG4bKzz")))]
      seq == CASE D(1) = 0 -> B("21") [] D(1) = 1 -> B("22") [] OTHER -> B("20")
      rsp == [(IF D(6) = 0 THEN AsResp(Plain, 200) ELSE [Plain EXCEPT !.method = B("BYE")])
                EXCEPT !.cseq = seq, !.cseqm = CASE D(2) = 0 -> B("BYE") [] D(2) = 1 -> B("INVITE") [] OTHER -> B("bye"), !.via = pre \o <<o>>]
      ack == [(IF D(6) = 0 THEN [Plain EXCEPT !.method = B("ACK")] ELSE IF D(5) = 0 THEN AsResp(Plain, 200) ELSE [Plain EXCEPT !.method = B("BYE")])
                EXCEPT !.cseq = seq, !.cseqm = CASE D(2) = 0 -> B("ACK") [] D(2) = 1 -> B("INVITE") [] OTHER -> B("ack"), !.via = pre \o <<o>>]
  IN Emit([id |-> i, op |-> "match", fn |-> IF isAck THEN "ack" ELSE "response", msg |-> req, other |-> IF isAck THEN ack ELSE rsp])

CopyCase(i) ==
  LET s == Seed(i)
      m == GMsg(Sd(s, 1))
      c == [m EXCEPT !.contact = IF @ = <<>> THEN Many(GAddr, 2, Sd(s, 2)) ELSE @,
                     !.body = NoBody,
                     !.route = IF i % 3 = 0 THEN Many(GAddr, 2, Sd(s, 3)) ELSE @, !.rr = IF i % 3 = 1 THEN Many(GAddr, 2, Sd(s, 4)) ELSE @,
                     !.pai = IF i % 3 = 2 THEN Many(GAddr, 2, Sd(s, 5)) ELSE @, !.rpid = IF i % 3 = 0 THEN Many(GAddr, 2, Sd(s, 6)) ELSE @,
                     !.x = IF i % 2 = 0 THEN Many(GX, 3, Sd(s, 7)) ELSE @]
  IN Emit([id |-> i, op |-> "copy", fn |-> <<"msg", "addr", "via", "uri", "msg">>[(i % 5) + 1], msg |-> c])

\* kind of host, port, service lookup wanted?, SRV records
HostKinds == << "10.1.2.3", "::1", "fe80::1", "255.1.2.3", "name.example", "NAME.example", "none.example", "six.example", "srvonly.example" >>
SrvSets == << <<>>,
  << <<"a.example", 5070, 10>> >>,
  << <<"b.example", 5071, 20>>, <<"a.example", 5070, 10>> >>,
  << <<"c.example", 5072, 0>>, <<"b.example", 5071, 20>>, <<"a.example", 5070, 10>>, <<"d.example", 1, 5>> >>,
  << <<"b.example", 5071, 10>>, <<"a.example", 5070, 10>>, <<"c.example", 65535, 30>> >>,
  << <<"a.example", 5080, 3>>, <<"a.example", 5070, 2>>, <<"a.example", 5060, 1>> >>,
  << <<"a.example", 5060, 1>>, <<"b.example", 5060, 2>>, <<"c.example", 5060, 3>>, <<"d.example", 5060, 4>>, <<"e.example", 5060, 5>> >>,
  << <<"i.example", 5060, 9>>, <<"a.example", 5061, 65535>>, <<"b.example", 5060, 2>>, <<"c.example", 5060, 3>>, <<"d.example", 5060, 4>>, <<"e.example", 5060, 5>>,
     <<"f.example", 5060, 300>>, <<"g.example", 5060, 7>>, <<"h.example", 5060, 8>>, <<"a.example", 5060, 1000>>, <<"a.example", 5062, 0>> >>,
  << <<"a.example", 5070, 0>>, <<"a.example", 5071, 0>>, <<"a.example", 5072, 0>>, <<"b.example", 5070, 1>>, <<"a.example", 5070, 1>> >> >>
ResolveRads == <<9, 4, 2, 9>>
ResolveCase(i) ==
  LET D(k) == Dig(i, ResolveRads, k)
      h == HostKinds[D(1) + 1]
      srv == IF h \in {"name.example", "NAME.example", "six.example", "srvonly.example"} THEN SrvSets[D(4) + 1] ELSE <<>>
      low == IF h = "NAME.example" THEN "name.example" ELSE h
  IN Emit([id |-> i, op |-> "resolve", host |-> h, port |-> <<0, 5060, 1, 65535>>[D(2) + 1], want |-> D(3) = 1,
           dns |-> [a |-> <<[name |-> "name.example", ip |-> "10.4.4.4"], [name |-> "six.example", ip |-> "2001:db8::6"]>>,
                    srv |-> [j \in 1..Len(srv) |-> [name |-> "_sip._udp." \o low, target |-> srv[j][1], port |-> srv[j][2], prio |-> srv[j][3],
                                                    weight |-> j]]]])

\* Lists of addresses and Vias that are alike in part.
ListCase(i) ==
  LET s == Seed(i)
      LHosts == <<B("10.1.1.1"), B("a.example"), B("::1"), B("b.example")>>
      LPorts == <<Zero, B("5060"), B("5061"), B("5070"), Zero>>
      LSch == <<B("sip"), B("sip"), B("sips"), B("sip")>>
      LNames == <<B("a"), B("tag"), B("lr"), B("x-y"), B("branch"), B("expires")>>
      LNameAs(q, t) == IF Chance(t, 40) THEN [k \in 1..Len(q) |-> IF q[k] \in 97..122 /\ ((k % 2) = 1) THEN q[k] - 32 ELSE q[k]] ELSE q
      LPars(t) == Dedup([k \in 1..R(Sd(t, 1), 5) |-> <<LNameAs(Pick(LNames, Sd(Sd(t, 2), k)), Sd(Sd(t, 4), k)), IF Chance(Sd(Sd(t, 3), k), 30) THEN <<>> ELSE DigitsOf(k)>>])
      LA(t) == [disp |-> IF Chance(t, 40) THEN B("d") ELSE <<>>, uri |-> [Ur(Pick(LHosts, Sd(t, 1)), Pick(LPorts, Sd(t, 2)), LPars(Sd(t, 3))) EXCEPT !.scheme = Pick(LSch, Sd(t, 4)), !.user = DigitsOf(R(Sd(t, 5), 9))],
               par |-> LPars(Sd(t, 6))]
      LBr(t) == Pick(<< <<>>, <<<<B("branch"), B("z9hG4bKa")>>>>, <<<<B("branch"), B("z9hG4bKb")>>>>, <<<<B("Branch"), B("z9hG4bKa")>>>>, <<<<B("branch"), B("z9hG4bKa")>>>>, <<<<B("x"), B("1")>>>> >>, t)
      LV(t) == Vi(Pick(LHosts, Sd(t, 1)), Pick(LPorts, Sd(t, 2)), LBr(Sd(t, 3)))
      LAs(t) == [k \in 1..R(Sd(t, 1), 5) |-> LA(Sd(Sd(t, 2), k))]
      LVs(t) == [k \in 1..(1 + R(Sd(t, 1), 4)) |-> LV(Sd(Sd(t, 2), k))]
      f == [LA(Sd(s, 9)) EXCEPT !.uri.hdr = LPars(Sd(s, 10))]
  IN Emit([id |-> i, op |-> "lists", addrs |-> LAs(Sd(s, 1)), contact |-> LAs(Sd(s, 2)), via |-> IF Chance(Sd(s, 3), 8) THEN <<>> ELSE LVs(Sd(s, 3)), vias2 |-> LVs(Sd(s, 4)),
           status |-> 100 + (i % 600), msg |-> [Plain EXCEPT !.from = <<f>>, !.x = LPars(Sd(s, 11))], names |-> [k \in 1..6 |-> LNameAs(LNames[k], Sd(Sd(s, 12), k))]])

IdsCase(i) == Emit([id |-> i, op |-> "ids", via |-> <<OwnVia>>, contact |-> <<OwnContact>>, n |-> 300])

Case(i) == CASE IOEnv.KIND = "populate" -> Populate(i)
             [] IOEnv.KIND = "route" -> RouteCase(i)
             [] IOEnv.KIND = "reply" -> ReplyCase(i)
             [] IOEnv.KIND = "derive" -> Derive(i)
             [] IOEnv.KIND = "match" -> MatchCase(i)
             [] IOEnv.KIND = "copy" -> CopyCase(i)
             [] IOEnv.KIND = "resolve" -> ResolveCase(i)
             [] IOEnv.KIND = "lists" -> ListCase(i)
             [] IOEnv.KIND = "ids" -> IdsCase(i)

VARIABLE n
Init == n = 0
Next == n < Count /\ n' = n + 1 /\ Case(First + n)
Spec == Init /\ [][Next]_n
=============================================================================
