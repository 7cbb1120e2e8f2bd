------------------------------- MODULE SipGen -------------------------------
(***************************************************************************)
(* SIP messages and the ways to spell them.                                *)
(*                                                                         *)
(* GMsg(s) is a message, Spell(m, s) one of the texts that RFC 3261 allows *)
(* for it, Damage(t, s) a text after a few edits, all as functions of a    *)
(* seed s = <<a, b>>, so that every case can be made again from its seed.  *)
(* The module SipCompose checks with TLC that the reference parser reads   *)
(* every spelling as the message it was made from, and hands the cases to  *)
(* the implementation.                                                     *)
(***************************************************************************)
EXTENDS SipRef

Sd(s, i) == <<(s[1] * 171 + i * 7919 + s[2]) % 46337, (s[2] * 157 + i * 1009 + s[1]) % 46327>>
R(s, n) == (s[1] * 3 + s[2] * 5 + s[1] \div 7) % n
Pick(seq, s) == seq[R(s, Len(seq)) + 1]
Chance(s, p) == R(s, 100) < p
Range(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Many(G(_), n, s) == [i \in 1..n |-> G(Sd(s, i))]

AlnumSeq  == B("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
LowerSeq  == B("abcdefghijklmnopqrstuvwxyz0123456789")
TokenSeq  == AlnumSeq \o B("-.!*_+`'~") \o <<37>>
WordSeq   == TokenSeq \o B("()<>:/[]?{}")
NastySeq  == B(";:@?=&/,\"<>\\ []#{}|^$+") \o <<37, 37, 13, 10, 0, 9, 127, 195, 169, 255, 34, 92>>
PrintSeq  == Range(32, 126)
PunctSeq  == B(" ;:@?=&/,\"<>\\[]()") \o <<37>>
AnySeq    == Range(0, 255)
\* Multibyte characters, first those at the edges of what RFC 3261 calls UTF8-NONASCII.
Edges     == <<192, 223, 224, 239, 240, 247, 248, 251, 252, 253>>
Umlauts   == [j \in 1..20 |-> LET b == Edges[(j + 1) \div 2] IN <<b>> \o [k \in 1..(LeadLen(b) - 1) |-> IF (j % 2) = 0 THEN 128 ELSE 191]]
             \o << <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>> >>

Tok(seq, lo, hi, s) == [i \in 1..(lo + R(Sd(s, 90), hi - lo + 1)) |-> Pick(seq, Sd(s, i))]
\* Arbitrary bytes, with a liking for those that matter.
Wild(lo, hi, s) == [i \in 1..(lo + R(Sd(s, 90), hi - lo + 1)) |->
                      LET z == Sd(s, i) IN
                      Pick((CASE R(z, 10) < 5 -> AlnumSeq [] R(z, 10) \in 5..7 -> NastySeq [] OTHER -> AnySeq), Sd(z, 5))]
\* Printable text, possibly with characters outside ASCII.
RECURSIVE Text0(_, _)
Text0(n, s) == IF n = 0 THEN <<>>
               ELSE (CASE R(s, 10) < 5 -> <<Pick(AlnumSeq, Sd(s, 1))>>
                       [] R(s, 10) \in 5..7 -> <<Pick(PunctSeq, Sd(s, 1))>>
                       [] R(s, 10) = 8 -> <<Pick(PrintSeq, Sd(s, 1))>>
                       [] OTHER -> IF Chance(Sd(s, 2), 50) THEN Pick(Umlauts, Sd(s, 1)) ELSE <<Pick(AlnumSeq, Sd(s, 1))>>)
                    \o Text0(n - 1, Sd(s, 3))
Text1(lo, hi, s) == Text0(lo + R(Sd(s, 90), hi - lo + 1), s)
Digits1(n, s) == [i \in 1..n |-> IF i = 1 THEN 49 + R(Sd(s, i), 9) ELSE 48 + R(Sd(s, i), 10)]

-----------------------------------------------------------------------------
(* Messages.                                                               *)
Hosts == << B("a"), B("example.com"), B("10.0.0.1"), B("biloxi-2.example.org"), B("::1"), B("2001:db8::17"), B("fe80::1.2.3.4"),
            B("x1"), B("127.0.0.1") >>
Ports == << Zero, Zero, B("5060"), B("5061"), B("1"), B("65535"), B("80") >>
GHost(s) == IF Chance(s, 70) THEN Pick(Hosts, Sd(s, 1)) ELSE Tok(LowerSeq, 1, 6, Sd(s, 2))
GPort(s) == IF Chance(s, 70) THEN Pick(Ports, Sd(s, 1)) ELSE Digits1(1 + R(Sd(s, 2), 4), Sd(s, 3))

GName(s) == IF Chance(s, 40) THEN Pick(<<B("lr"), B("transport"), B("LR"), B("maddr"), B("user")>>, Sd(s, 1)) ELSE Wild(1, 4, Sd(s, 2))
GUriPair(s) == <<GName(Sd(s, 1)), IF Chance(s, 40) THEN <<>> ELSE Wild(1, 5, Sd(s, 2))>>
GUri(s) ==
  LET user == IF Chance(s, 30) THEN <<>> ELSE IF Chance(s, 60) THEN Tok(AlnumSeq, 1, 5, Sd(s, 1)) ELSE Wild(1, 6, Sd(s, 2))
      n == R(Sd(s, 7), 4)
  IN [scheme |-> Pick(<<B("sip"), B("sip"), B("sips")>>, Sd(s, 3)), user |-> user,
      pass |-> IF user = <<>> \/ Chance(Sd(s, 4), 60) THEN <<>> ELSE Wild(1, 5, Sd(s, 5)),
      host |-> GHost(Sd(s, 6)), port |-> GPort(Sd(s, 8)),
      par |-> IF n > 2 THEN <<>> ELSE Many(GUriPair, n, Sd(s, 9)),
      hdr |-> IF Chance(Sd(s, 10), 75) THEN <<>> ELSE Many(GUriPair, 1 + R(Sd(s, 11), 2), Sd(s, 12))]

GParVal(s) == CASE R(s, 5) = 0 -> <<>>
                [] R(s, 5) \in {1, 2} -> Tok(TokenSeq, 1, 6, Sd(s, 1))
                [] OTHER -> Text1(1, 6, Sd(s, 1))
GPar(s) == <<IF Chance(s, 40) THEN Pick(<<B("tag"), B("branch"), B("rport"), B("received"), B("q")>>, Sd(s, 1)) ELSE Tok(TokenSeq, 1, 4, Sd(s, 2)),
             GParVal(Sd(s, 3))>>
GDisp(s) == CASE R(s, 6) \in {0, 1} -> <<>>
              [] R(s, 6) = 2 -> Tok(AlnumSeq, 1, 6, Sd(s, 1))
              [] R(s, 6) = 3 -> Tok(TokenSeq, 1, 3, Sd(s, 1)) \o <<SP>> \o Tok(TokenSeq, 1, 3, Sd(s, 2))
              [] OTHER -> Text1(1, 8, Sd(s, 1))
GAddr(s) == [disp |-> GDisp(Sd(s, 1)), uri |-> GUri(Sd(s, 2)), par |-> Many(GPar, R(Sd(s, 3), 3), Sd(s, 4))]
GAddrs(p, s) == IF ~Chance(s, p) THEN <<>> ELSE Many(GAddr, 1 + R(Sd(s, 1), 3), Sd(s, 2))
GVia(s) == [pr |-> IF Chance(s, 85) THEN B("SIP") ELSE Tok(TokenSeq, 1, 3, Sd(s, 1)),
            ve |-> IF Chance(s, 85) THEN B("2.0") ELSE Tok(TokenSeq, 1, 3, Sd(s, 2)),
            tr |-> Pick(<<B("UDP"), B("TCP"), B("TLS"), B("udp"), B("x-y")>>, Sd(s, 3)),
            host |-> GHost(Sd(s, 4)), port |-> GPort(Sd(s, 5)), par |-> Many(GPar, R(Sd(s, 6), 4), Sd(s, 7))]

Methods == << B("INVITE"), B("ACK"), B("BYE"), B("CANCEL"), B("OPTIONS"), B("REGISTER"), B("INFO"), B("X-y!") >>
GCallID(s) == Tok(WordSeq, 1, 6, s) \o (IF Chance(Sd(s, 1), 50) THEN <<>> ELSE <<64>> \o Tok(WordSeq, 1, 6, Sd(s, 2)))
GNum(s) == CASE R(s, 6) = 0 -> Max31 [] R(s, 6) = 1 -> B("1") [] R(s, 6) = 2 -> B("4294967295") [] OTHER -> Digits1(1 + R(Sd(s, 1), 5), Sd(s, 2))
GNum0(p, s) == IF Chance(s, p) THEN GNum(Sd(s, 1)) ELSE Zero
\* The text of a header: no white space at either end.
RECURSIVE Inner(_)
Inner(t) == IF t # <<>> /\ t[1] = SP THEN Inner(Tail(t)) ELSE TrimR(t)
GText(s) == LET t == Inner(Text1(1, 10, s)) IN IF t = <<>> THEN B("x") ELSE t
GBytes(s) == Wild(1, 12, s)

\* Names that are nearly those of known headers, and plain ones.
KnownNames == [i \in 1..Len(HeaderTab) |-> B(HeaderTab[i][3])]
XName(s) ==
  LET k == Pick(KnownNames, Sd(s, 1))
      c == CASE R(s, 5) = 0 -> Sub(k, 1, 1 + R(Sd(s, 2), Len(k)))
             [] R(s, 5) = 1 -> k \o <<Pick(TokenSeq, Sd(s, 2))>>
             [] R(s, 5) = 2 -> <<Pick(TokenSeq, Sd(s, 2))>>
             [] R(s, 5) = 3 -> LET p == 1 + R(Sd(s, 2), Len(k)) IN [k EXCEPT ![p] = Pick(AlnumSeq, Sd(s, 3))]
             [] OTHER -> Tok(TokenSeq, 1, 8, Sd(s, 2))
  IN IF Lower(c) \in DOMAIN HeaderOf THEN B("X-Other") ELSE c
GX(s) == <<XName(Sd(s, 1)), IF Chance(s, 10) THEN <<>> ELSE GText(Sd(s, 2))>>

StrSeq == [i \in 1..Len(StrTab) |-> StrTab[i][1]]
GMsg(s) ==
  LET req == Chance(Sd(s, 1), 60)
      meth == Pick(Methods, Sd(s, 2))
      nstr == R(Sd(s, 3), 4)
      pick == {R(Sd(Sd(s, 4), i), Len(StrSeq)) + 1 : i \in 1..nstr}
      has == Chance(Sd(s, 5), 40)
      exp == GNum0(25, Sd(s, 20))
  IN [req |-> req, vmaj |-> IF Chance(Sd(s, 6), 90) THEN B("2") ELSE Digits1(2, Sd(s, 7)),
      vmin |-> IF Chance(Sd(s, 8), 90) THEN Zero ELSE Digits1(2, Sd(s, 9)),
      method |-> IF req THEN meth ELSE <<>>, uri |-> IF req THEN GUri(Sd(s, 10)) ELSE [NoURI EXCEPT !.port = Zero],
      status |-> IF req THEN 0 ELSE 100 + R(Sd(s, 11), 900),
      phrase |-> IF req THEN <<>> ELSE Text1(1, 8, Sd(s, 12)),
      from |-> Many(GAddr, 1, Sd(s, 13)), to |-> Many(GAddr, 1, Sd(s, 14)), contact |-> GAddrs(50, Sd(s, 15)),
      route |-> GAddrs(20, Sd(s, 16)), rr |-> GAddrs(20, Sd(s, 17)), pai |-> GAddrs(10, Sd(s, 18)), rpid |-> GAddrs(10, Sd(s, 19)),
      via |-> Many(GVia, 1 + R(Sd(s, 21), 3), Sd(s, 22)),
      callid |-> GCallID(Sd(s, 23)), cseq |-> GNum0(90, Sd(s, 24)), cseqm |-> meth,
      exp |-> exp, maxf |-> IF req THEN GNum(Sd(s, 25)) ELSE Zero, minexp |-> GNum0(15, Sd(s, 26)),
      str |-> LET RECURSIVE Collect(_)
                  Collect(i) == IF i > Len(StrSeq) THEN <<>>
                                ELSE (IF i \in pick THEN <<<<StrSeq[i], GText(Sd(Sd(s, 27), i))>>>> ELSE <<>>) \o Collect(i + 1)
              IN Collect(1),
      x |-> Many(GX, R(Sd(s, 28), 3), Sd(s, 29)),
      body |-> IF has THEN [has |-> TRUE, t |-> Tok(TokenSeq, 1, 4, Sd(s, 30)) \o <<47>> \o Tok(TokenSeq, 1, 4, Sd(s, 31)), d |-> GBytes(Sd(s, 32))]
               ELSE [has |-> FALSE, t |-> <<>>, d |-> <<>>]]

-----------------------------------------------------------------------------
(* Spellings.                                                              *)
Spaces == << <<>>, <<>>, <<>>, <<SP>>, <<SP>>, <<HTAB>>, <<SP, SP>>, <<CR, LF, SP>>, <<SP, CR, LF, HTAB>>, <<CR, LF, SP, SP>> >>
Sws(s) == Pick(Spaces, s)
Lws(s) == LET t == Sws(s) IN IF t = <<>> THEN <<SP>> ELSE t
Wsps(s) == Pick(<< <<>>, <<>>, <<SP>>, <<HTAB>>, <<SP, SP>> >>, s)
AnyCase(t, s) == [i \in 1..Len(t) |-> IF Chance(Sd(s, i), 50) THEN t[i]
                                      ELSE IF t[i] \in UpperS THEN t[i] + 32 ELSE IF t[i] \in LowerS THEN t[i] - 32 ELSE t[i]]
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

HexL == B("0123456789abcdef")
HexU == B("0123456789ABCDEF")
\* Escapes what is not in class c, and now and then something else.
Esc(t, c, s) == Concat([i \in 1..Len(t) |->
   LET z == Sd(s, i)
       h == IF Chance(Sd(z, 1), 50) THEN HexL ELSE HexU
   IN IF c[t[i]] /\ ~Chance(z, 8) THEN <<t[i]>> ELSE <<37, h[t[i] \div 16 + 1], h[(t[i] % 16) + 1]>>])

SpPair(p, c, s) == Esc(p[1], c, Sd(s, 1)) \o (IF p[2] = <<>> THEN <<>> ELSE <<61>> \o Esc(p[2], c, Sd(s, 2)))
SpHost(h) == IF Has(h, 58) THEN <<91>> \o h \o <<93>> ELSE h
SpUri(u, s) ==
  AnyCase(u.scheme, Sd(s, 1)) \o <<58>>
  \o (IF u.user = <<>> THEN <<>>
      ELSE Esc(u.user, User, Sd(s, 2)) \o (IF u.pass = <<>> THEN <<>> ELSE <<58>> \o Esc(u.pass, Pass, Sd(s, 3))) \o <<64>>)
  \o SpHost(AnyCase(u.host, Sd(s, 4)))
  \o (IF u.port = Zero THEN <<>> ELSE <<58>> \o u.port)
  \o Concat([i \in 1..Len(u.par) |-> <<59>> \o SpPair(u.par[i], ParamC, Sd(Sd(s, 5), i))])
  \o (IF u.hdr = <<>> THEN <<>>
      ELSE <<63>> \o Join([i \in 1..Len(u.hdr) |-> SpPair(u.hdr[i], HeaderC, Sd(Sd(s, 6), i))], <<38>>))

\* Quotes text; characters may be escaped without need.
RECURSIVE Qt(_, _)
Qt(t, s) == IF t = <<>> THEN <<>>
            ELSE IF t[1] >= 128 THEN LET n == MbLen(t, 1) IN Sub(t, 1, n) \o Qt(From(t, n + 1), Sd(s, 1))
            ELSE IF FoldAt(t, 1) THEN Sub(t, 1, 3) \o Qt(From(t, 4), Sd(s, 1))
            ELSE (IF (~Qdtext[t[1]] /\ t[1] \notin {SP, HTAB}) \/ Chance(s, 10) THEN <<92, t[1]>> ELSE <<t[1]>>) \o Qt(Tail(t), Sd(s, 1))
Quote(t, s) == <<DQ>> \o Qt(t, s) \o <<DQ>>

SpVal(v, s) == IF All(v, Token) /\ Chance(s, 60) THEN v
               ELSE IF GenHost(v) /\ Chance(s, 60) THEN v ELSE Quote(v, Sd(s, 1))
SpParams(ps, s) ==
  Concat([i \in 1..Len(ps) |->
    LET z == Sd(s, i) IN
    Sws(Sd(z, 1)) \o <<59>> \o Sws(Sd(z, 2)) \o ps[i][1]
    \o (IF ps[i][2] = <<>> THEN (IF Chance(Sd(z, 7), 15) THEN Sws(Sd(z, 3)) \o <<61>> \o Sws(Sd(z, 4)) \o <<DQ, DQ>> ELSE <<>>)
        ELSE Sws(Sd(z, 3)) \o <<61>> \o Sws(Sd(z, 4)) \o SpVal(ps[i][2], Sd(z, 5)))])

Words(t) == t # <<>> /\ \A w \in {Split(t, SP)[i] : i \in 1..Len(Split(t, SP))} : w # <<>> /\ All(w, Token)
SpAddr(a, s) ==
  LET u == SpUri(a.uri, Sd(s, 1))
      bare == a.disp = <<>> /\ (\A i \in 1..Len(u) : u[i] \notin {44, 59, 63}) /\ Chance(s, 60)
      d == IF a.disp = <<>> THEN (IF Chance(Sd(s, 2), 10) THEN <<DQ, DQ>> \o Sws(Sd(s, 3)) ELSE <<>>)
           ELSE IF Words(a.disp) /\ Chance(Sd(s, 4), 50) THEN a.disp \o Lws(Sd(s, 5))
           ELSE Quote(a.disp, Sd(s, 6)) \o Sws(Sd(s, 7))
  IN (IF bare THEN u ELSE d \o <<60>> \o u \o <<62>>) \o SpParams(a.par, Sd(s, 8))
SpVia(v, s) ==
  v.pr \o Sws(Sd(s, 1)) \o <<47>> \o Sws(Sd(s, 2)) \o v.ve \o Sws(Sd(s, 3)) \o <<47>> \o Sws(Sd(s, 4)) \o v.tr \o Lws(Sd(s, 5))
  \o SpHost(v.host) \o (IF v.port = Zero THEN <<>> ELSE Sws(Sd(s, 6)) \o <<58>> \o Sws(Sd(s, 7)) \o v.port) \o SpParams(v.par, Sd(s, 8))

\* "Name: " of a header, by its full or compact name.
SpName(full, comp, s) ==
  LET n == IF comp # "" /\ Chance(s, 40) THEN B(comp) ELSE B(full)
  IN (IF Chance(Sd(s, 1), 50) THEN n ELSE AnyCase(n, Sd(s, 2))) \o Wsps(Sd(s, 3)) \o <<58>> \o Sws(Sd(s, 4))

\* A list as header lines: each element joins the line before or begins one.
RECURSIVE SpList(_, _, _, _)
SpList(els, full, comp, s) ==
  IF els = <<>> THEN <<>>
  ELSE LET rest == SpList(Tail(els), full, comp, Sd(s, 1))
           new == SpName(full, comp, Sd(s, 2)) \o els[1]
       IN IF rest = <<>> \/ Chance(s, 50) THEN <<new>> \o rest
          ELSE \* drop the name of the next line and join
               LET nx == rest[1]  c == Find(nx, 1, 58)
               IN <<new \o Sws(Sd(s, 3)) \o <<44>> \o Sws(Sd(s, 4)) \o From(nx, Skip(nx, c + 1))>> \o Tail(rest)
SpAddrs(as, i, s) == SpList([j \in 1..Len(as) |-> SpAddr(as[j], Sd(Sd(s, 1), j))], ListTab[i][2], ListTab[i][3], Sd(s, 2))

OneLine(full, comp, val, s) == <<SpName(full, comp, s) \o val>>
NumLine(i, v, s) == IF v = Zero THEN <<>> ELSE OneLine(NumTab[i][2], "", v, s)
CompOf(f) == StrTab[CHOOSE i \in 1..Len(StrTab) : StrTab[i][1] = f][2]

\* Merges queues of lines in any order that keeps each queue's own order.
RECURSIVE Merge(_, _)
Merge(qs, s) ==
  LET ne == SelectSeq(qs, LAMBDA q : q # <<>>) IN
  IF ne = <<>> THEN <<>>
  ELSE LET k == R(s, Len(ne)) + 1
       IN ne[k][1] \o CRLF \o Merge([ne EXCEPT ![k] = Tail(ne[k])], Sd(s, 1))

SpPhrase(p, s) ==
  LET RECURSIVE Go(_, _)
      Go(t, z) == IF t = <<>> THEN <<>>
                  ELSE IF t[1] >= 128 THEN LET n == MbLen(t, 1) IN Sub(t, 1, n) \o Go(From(t, n + 1), Sd(z, 1))
                  ELSE Esc(<<t[1]>>, Reason, z) \o Go(Tail(t), Sd(z, 1))
  IN Go(p, s)

SpStart(m, s) ==
  LET ver == B("SIP/") \o m.vmaj \o <<46>> \o m.vmin
  IN IF m.req THEN m.method \o <<SP>> \o SpUri(m.uri, s) \o <<SP>> \o ver
     ELSE ver \o <<SP>> \o DigitsOf(m.status) \o <<SP>> \o SpPhrase(m.phrase, s)

Spell(m, s) ==
  SpStart(m, Sd(s, 1)) \o CRLF
  \o Merge(<< SpAddrs(m.from, 1, Sd(s, 2)), SpAddrs(m.to, 2, Sd(s, 3)), SpAddrs(m.contact, 3, Sd(s, 4)), SpAddrs(m.route, 4, Sd(s, 5)),
              SpAddrs(m.rr, 5, Sd(s, 6)), SpAddrs(m.pai, 6, Sd(s, 7)), SpAddrs(m.rpid, 7, Sd(s, 8)),
              SpList([j \in 1..Len(m.via) |-> SpVia(m.via[j], Sd(Sd(s, 9), j))], "Via", "v", Sd(s, 10)),
              OneLine("Call-ID", "i", m.callid, Sd(s, 11)),
              OneLine("CSeq", "", m.cseq \o Lws(Sd(s, 12)) \o m.cseqm, Sd(s, 13)),
              NumLine(1, m.exp, Sd(s, 14)), NumLine(2, m.maxf, Sd(s, 15)), NumLine(3, m.minexp, Sd(s, 16)),
              IF m.body.has THEN OneLine("Content-Type", "c", m.body.t \o (IF Chance(Sd(s, 17), 30) THEN B(";charset=utf-8") ELSE <<>>), Sd(s, 18)) ELSE <<>>,
              IF m.body.has \/ Chance(Sd(s, 19), 60) THEN OneLine("Content-Length", "l", DigitsOf(Len(m.body.d)), Sd(s, 20)) ELSE <<>>,
              Concat([j \in 1..Len(m.x) |-> << m.x[j][1] \o Wsps(Sd(Sd(s, 21), j)) \o <<58>> \o Sws(Sd(Sd(s, 22), j)) \o m.x[j][2] >>]) >>
           \o [j \in 1..Len(m.str) |-> OneLine(m.str[j][1], CompOf(m.str[j][1]), m.str[j][2], Sd(Sd(s, 23), j))],
           Sd(s, 24))
  \o CRLF \o m.body.d

-----------------------------------------------------------------------------
(* Damage.                                                                 *)
Frags == << CRLF, <<13, 10, 32>>, <<13, 10, 9>>, <<32>>, <<9>>, B(";"), B("="), B("\""), B("\\"), B(","), B("<"), B(">"), <<37, 52, 49>>,
            <<37, 48, 100>>, <<37>>, <<195, 169>>, <<255>>, <<127>>, <<0>>, B(":"), B("@"), B("?"), B("&"), B("/"), B("["), B("]"),
            B("0"), B("9"), B("65536"), B("99999999999999999999"), B("SIP/2.0"), B("Via: "), B("To: "), B("v:"), B("a"), <<13>>, <<10>>,
            B("*"), B("("), B("lr"), B("tag="), B("sip:"), B("x=y"), B(";;"), B("5060"), CRLF \o CRLF, B("256"), B("-1"), B("Content-Length: 5") >>
RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SetToSeqOf(S \ {m})
\* Only ever changes numbers: the digits at a random place become others.
NumAt(t, s) == LET ds == {i \in 1..Len(t) : Digit[t[i]] /\ (i = 1 \/ ~Digit[t[i - 1]])}
                   sd == SetToSeqOf(ds)
               IN IF ds = {} THEN 0 ELSE sd[R(s, Len(sd)) + 1]
BigNums == << B("0"), B("00"), B("255"), B("256"), B("65535"), B("65536"), B("131132"), B("70000"), B("2147483647"), B("4294967296"),
              B("9223372036854775807"), B("9223372036854775808"), B("18446744073709551617"), B("99999999999999999999999"), B(""), B("1a") >>
DamageOnce(t, s) ==
  LET p == R(Sd(s, 1), Len(t) + 1)
      f == Pick(Frags, Sd(s, 2))
      n == 1 + R(Sd(s, 3), 5)
      q == NumAt(t, Sd(s, 4))
  IN CASE R(s, 12) \in {0, 1, 2} -> Sub(t, 1, p) \o f \o From(t, p + 1)
       [] R(s, 12) \in {3, 4} -> Sub(t, 1, p) \o From(t, p + 1 + n)
       [] R(s, 12) \in {5, 6} -> Sub(t, 1, p) \o f \o From(t, p + 2)
       [] R(s, 12) = 7 -> Sub(t, 1, p) \o <<R(Sd(s, 5), 256)>> \o From(t, p + 2)
       [] R(s, 12) = 8 -> Sub(t, 1, p)
       [] R(s, 12) = 9 -> t \o Sub(f, 1, n)
       [] OTHER -> IF q = 0 THEN t ELSE Sub(t, 1, q - 1) \o Pick(BigNums, Sd(s, 6)) \o From(t, Run(t, q, Digit))
RECURSIVE Damage(_, _, _)
Damage(t, n, s) == IF n = 0 THEN t ELSE Damage(DamageOnce(t, Sd(s, 1)), n - 1, Sd(s, 2))
=============================================================================
