----------------------------- MODULE SdpCompose -----------------------------
(* Session descriptions, the ways to write them and to get them wrong, as   *)
(* functions of a case number; IOEnv.KIND says which cases.  The generator  *)
(* is checked against SdpRef: every spelling means what it was made from.   *)
EXTENDS SdpRef, Json, IOUtils

Gen == INSTANCE SipGen
Sd(s, i) == Gen!Sd(s, i)
R(s, n) == Gen!R(s, n)
Pick(q, s) == Gen!Pick(q, s)
Chance(s, p) == Gen!Chance(s, p)

A0 == IntOf(B(IOEnv.SEED))
Count == IntOf(B(IOEnv.COUNT))
First == IntOf(B(IOEnv.FIRST))
Seed(i) == Sd(Sd(Sd(<<A0 % 46337, 53>>, i % 1000), i \div 1000), 5)
Emit(c) == PrintT("CASE " \o ToJson(c))
Bad(i, what) == PrintT("MODEL " \o ToJson([seed |-> i, what |-> what]))

AlnumSeq == Gen!AlnumSeq
\* A word: no space, no line break.
Weird == Set("") \cup {0, 9, 127, 128, 195, 169, 255, 37, 61, 58, 47, 59, 34, 92}
WeirdSeq == <<0, 9, 127, 195, 169, 255, 37, 61, 58, 59, 34, 92, 45, 46, 43>>
Wd(lo, hi, s) == [i \in 1..(lo + R(Sd(s, 90), hi - lo + 1)) |-> LET z == Sd(s, i) IN IF Chance(z, 80) THEN Pick(AlnumSeq, Sd(z, 1)) ELSE Pick(WeirdSeq, Sd(z, 2))]
\* Text that may hold spaces too, and anything else but line breaks and the excluded bytes.
Tx(lo, hi, ex, s) == SelectSeq([i \in 1..(lo + R(Sd(s, 90), hi - lo + 1)) |-> LET z == Sd(s, i) IN
                        CASE R(z, 10) < 6 -> Pick(AlnumSeq, Sd(z, 1)) [] R(z, 10) \in 6..8 -> Pick(WeirdSeq \o <<32, 32, 47>>, Sd(z, 2)) [] OTHER -> R(Sd(z, 3), 256)],
                        LAMBDA b : b \notin ({CR, LF} \cup ex))
OrElse(x, d) == IF x = <<>> THEN d ELSE x

V4s == <<"10.0.0.38", "1.2.3.4", "127.0.0.1", "255.255.255.255", "69.28.157.198">>
V6s == <<"dead:beef::666", "::1", "2001:db8::17", "fe80::1.2.3.4", "::">>
GAdr(s) == IF Chance(s, 65) THEN B(Pick(V4s, Sd(s, 1))) ELSE B(Pick(V6s, Sd(s, 1)))
Names == <<"PCMU", "telephone-event", "opus", "G729", "MP3", "x", "CN", "PCMA">>
Rates == <<"8000", "16000", "48000", "0", "1", "44100", "2147483647", "90000">>
GPt(s) == IF Chance(s, 45) THEN DigitsOf(Pick(<<0, 3, 8, 9, 10, 11, 18, 31, 34, 4, 13>>, Sd(s, 1))) ELSE IF Chance(Sd(s, 2), 50) THEN DigitsOf(R(Sd(s, 3), 128)) ELSE DigitsOf(96 + R(Sd(s, 4), 32))
GCodec(s) ==
  LET p == GPt(Sd(s, 1)) IN
  IF Chance(Sd(s, 2), 40) /\ IntOf(p) \in StdPts THEN [StdCodec(IntOf(p)) EXCEPT !.fmtp = IF Chance(s, 70) THEN <<>> ELSE Tx(1, 8, {}, Sd(s, 7))]
  ELSE [pt |-> p, name |-> IF Chance(Sd(s, 3), 70) THEN B(Pick(Names, Sd(s, 4))) ELSE OrElse(Tx(1, 5, {47}, Sd(s, 4)), B("n")),
        rate |-> B(Pick(Rates, Sd(s, 5))), param |-> IF Chance(Sd(s, 6), 60) THEN <<>> ELSE IF Chance(s, 50) THEN B("2") ELSE Tx(1, 3, {47}, Sd(s, 6)),
        fmtp |-> IF Chance(Sd(s, 8), 60) THEN <<>> ELSE IF Chance(s, 40) THEN B("0-16") ELSE Tx(1, 8, {}, Sd(s, 7))]
Fresh(cs, ex) == LET RECURSIVE F(_, _)
                     F(i, seen) == IF i > Len(cs) THEN <<>> ELSE IF cs[i].pt \in seen THEN F(i + 1, seen) ELSE <<cs[i]>> \o F(i + 1, seen \cup {cs[i].pt})
                 IN F(1, ex)
GMedia(s, ex) ==
  LET cs == Fresh([i \in 1..(1 + R(Sd(s, 1), IF Chance(s, 3) THEN 50 ELSE IF Chance(s, 10) THEN 12 ELSE 4)) |-> GCodec(Sd(Sd(s, 2), i))], ex)
  IN [port |-> DigitsOf(Pick(<<0, 1, 80, 5004, 30126, 32898, 65535, 65534, R(Sd(s, 3), 65536)>>, Sd(s, 4))),
      proto |-> IF Chance(Sd(s, 5), 75) THEN B(Pick(<<"RTP/AVP", "RTP/SAVP", "TCP/IP", "UDPTL", "udp">>, Sd(s, 6))) ELSE Wd(1, 8, Sd(s, 7)),
      codecs |-> IF cs = <<>> THEN <<[StdCodec(0) EXCEPT !.pt = DigitsOf(CHOOSE p \in 0..127 : DigitsOf(p) \notin ex)]>> ELSE cs]
AttrNames == <<"silenceSupp", "inactive", "candidate", "rtcp", "crypto", "sendrecv", "ptime", "rtpmap", "maxptime", "fmtp", "ssrc", "sendonlyx", "audio">>
GAttr(s) ==
  LET n == IF Chance(s, 60) THEN B(Pick(AttrNames, Sd(s, 1))) ELSE OrElse(Tx(1, 6, {58}, Sd(s, 2)), B("n"))
      v == IF Chance(Sd(s, 3), 35) THEN <<>> ELSE Tx(1, 12, {}, Sd(s, 4))
  IN IF v = <<>> /\ n \in {B("sendrecv"), B("sendonly"), B("recvonly")} THEN <<n, B("x")>>
     ELSE IF n \in {B("rtpmap"), B("fmtp"), B("ptime")} THEN <<n, <<>>>> ELSE <<n, v>>
GOther(s) == <<IF Chance(s, 70) THEN <<Pick(B("iuepbzrkyvIXAMx"), Sd(s, 1))>> ELSE <<LET b == R(Sd(s, 2), 256) IN IF b \in Known \cup {Equal, CR, LF} THEN 98 ELSE b>>,
               OrElse(Tx(1, 10, {}, Sd(s, 3)), B("x"))>>
GSdp(s) ==
  LET what == R(Sd(s, 1), 4)       \* audio, audio and video, video, audio
      a == IF what = 2 THEN <<>> ELSE <<GMedia(Sd(s, 2), {})>>
      v == IF what \in {0, 3} THEN <<>> ELSE <<GMedia(Sd(s, 3), IF a = <<>> THEN {} ELSE {a[1].codecs[i].pt : i \in 1..Len(a[1].codecs)})>>
      dir == R(Sd(s, 4), 4)
  IN [user |-> IF Chance(Sd(s, 5), 50) THEN B("-") ELSE Wd(1, 5, Sd(s, 6)), id |-> IF Chance(s, 50) THEN B("3366701332") ELSE Wd(1, 6, Sd(s, 7)),
      ver |-> IF Chance(Sd(s, 8), 50) THEN B("1") ELSE Wd(1, 6, Sd(s, 8)), oaddr |-> GAdr(Sd(s, 9)), addr |-> GAdr(Sd(s, 10)),
      session |-> IF Chance(Sd(s, 11), 40) THEN B("-") ELSE OrElse(Tx(1, 12, {}, Sd(s, 12)), B("s")),
      time |-> IF Chance(Sd(s, 13), 60) THEN B("0 0") ELSE OrElse(Tx(1, 8, {}, Sd(s, 14)), B("1 2")),
      ptime |-> Pick(<<Zero, B("20"), B("1"), B("10"), B("2147483647")>>, Sd(s, 15)), so |-> dir = 1, ro |-> dir = 2,
      \* now and then more than fits into a packet
      attrs |-> IF Chance(Sd(s, 20), 3) THEN [i \in 1..(40 + R(Sd(s, 16), 20)) |-> LET a1 == GAttr(Sd(Sd(s, 17), i)) IN IF a1[2] = <<>> THEN a1 ELSE <<a1[1], a1[2] \o Tx(30, 60, {}, Sd(Sd(s, 21), i))>>]
                ELSE [i \in 1..R(Sd(s, 16), 5) |-> GAttr(Sd(Sd(s, 17), i))], other |-> [i \in 1..R(Sd(s, 18), 4) |-> GOther(Sd(Sd(s, 19), i))],
      audio |-> a, video |-> v]

-----------------------------------------------------------------------------
(* Writing.                                                                *)
Fam(a) == IF Has(a, Colon) THEN B("IP6 ") ELSE B("IP4 ")
\* The lines of one codec.
MapLine(c) == B("a=rtpmap:") \o c.pt \o <<SP>> \o c.name \o <<Slash>> \o c.rate \o (IF c.param = <<>> THEN <<>> ELSE <<Slash>> \o c.param)
CodecLines(c, s) ==
  (IF IntOf(c.pt) \in StdPts /\ [c EXCEPT !.fmtp = <<>>] = StdCodec(IntOf(c.pt)) /\ Chance(s, 60) THEN <<>> ELSE <<MapLine(c)>>)
  \o (IF c.fmtp = <<>> THEN <<>> ELSE <<B("a=fmtp:") \o c.pt \o <<SP>> \o c.fmtp>>)
RECURSIVE CatPts(_)
CatPts(cs) == IF cs = <<>> THEN <<>> ELSE <<SP>> \o cs[1].pt \o CatPts(Tail(cs))
RECURSIVE CatCodecs(_, _)
CatCodecs(cs, s) == IF cs = <<>> THEN <<>> ELSE CodecLines(cs[1], Sd(s, 1)) \o CatCodecs(Tail(cs), Sd(s, 2))
MLine(kind, m, s) == <<B("m=") \o B(kind) \o <<SP>> \o m.port \o (IF Chance(s, 20) THEN B("/2") ELSE <<>>) \o <<SP>> \o m.proto \o CatPts(m.codecs)>>
\* One line list into another, keeping the order of both.
RECURSIVE Merge(_, _, _)
Merge(a, b, s) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                  ELSE IF Chance(s, 50) THEN <<a[1]>> \o Merge(Tail(a), b, Sd(s, 1)) ELSE <<b[1]>> \o Merge(a, Tail(b), Sd(s, 1))
RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o CRLF \o Join(Tail(ls))
Chaff == <<"", "x", "zz", "m=application 9 TCP 0", "m=text 1 RTP/AVP 96", "a=rtpmap:300 x/1", "a=:evil", "==y", "=", "a=ptime:x", "m=audiox 1 RTP/AVP 0", "a=rtpmap", "a=", "b=">>
ChaffOk(d, x) == ~(x = "a=rtpmap") /\ ~(x = "a=ptime:x" /\ d.ptime # Zero)
RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Cat(Tail(qs))
Chop(t) == IF Len(t) > 2 THEN Sub(t, 1, Len(t) - 2) ELSE t
SpellLines(d, s) ==
  LET o == <<B("o=") \o d.user \o <<SP>> \o d.id \o <<SP>> \o d.ver \o B(" IN ") \o Fam(d.oaddr) \o d.oaddr>>
      c == <<B("c=IN ") \o Fam(d.addr) \o d.addr>> \o (IF Chance(Sd(s, 1), 30) THEN <<B("c=IN IP4 9.9.9.9")>> ELSE IF Chance(Sd(s, 2), 15) THEN <<B("c=junk")>> ELSE <<>>)
      n == <<B("s=") \o d.session>>
      t == IF d.time = B("0 0") /\ Chance(Sd(s, 3), 40) THEN <<>> ELSE <<B("t=") \o d.time>>
      md == (IF d.audio = <<>> THEN <<>> ELSE MLine("audio", d.audio[1], Sd(s, 4))) \o (IF d.video = <<>> THEN <<>> ELSE MLine("video", d.video[1], Sd(s, 5)))
      cod == CatCodecs((IF d.audio = <<>> THEN <<>> ELSE d.audio[1].codecs) \o (IF d.video = <<>> THEN <<>> ELSE d.video[1].codecs), Sd(s, 6))
      at == [i \in 1..Len(d.attrs) |-> B("a=") \o d.attrs[i][1] \o (IF d.attrs[i][2] = <<>> THEN (IF Chance(Sd(s, 30 + i), 20) /\ d.attrs[i][1] \notin {B("rtpmap"), B("fmtp"), B("ptime")} THEN <<Colon>> ELSE <<>>)
                                                                   ELSE <<Colon>> \o d.attrs[i][2])]
      ot == [i \in 1..Len(d.other) |-> d.other[i][1] \o <<Equal>> \o d.other[i][2]]
      fl == (IF d.ptime = Zero THEN <<>> ELSE <<B("a=ptime:") \o d.ptime>>)
            \o (IF d.so THEN <<B("a=sendonly")>> ELSE IF d.ro THEN <<B("a=recvonly")>> ELSE IF Chance(Sd(s, 7), 50) THEN <<B("a=sendrecv")>> ELSE <<>>)
      ch == SelectSeq([i \in 1..R(Sd(s, 8), 4) |-> Pick(Chaff, Sd(Sd(s, 9), i))], LAMBDA x : ChaffOk(d, x))
      chaff == [i \in 1..Len(ch) |-> B(ch[i])]
      tidy == Chance(Sd(s, 10), 40)       \* the usual order
  IN IF tidy THEN o \o n \o c \o t \o md \o cod \o at \o fl \o ot
     ELSE Merge(Merge(Merge(o, c, Sd(s, 11)), Merge(n, t, Sd(s, 12)), Sd(s, 13)), Merge(Merge(Merge(md, cod, Sd(s, 14)), at, Sd(s, 15)), Merge(Merge(ot, chaff, Sd(s, 16)), fl, Sd(s, 17)), Sd(s, 18)), Sd(s, 19))
SpellSdp(d, s) == LET x == Join(<<B("v=0")>> \o SpellLines(d, Sd(s, 1))) IN IF Chance(Sd(s, 2), 20) THEN Chop(x) ELSE x

-----------------------------------------------------------------------------
(* Getting it wrong: lines dropped, doubled, swapped or replaced, then bytes. *)
Lines0 == <<"o=- 1 1 IN IP4 1.1.1.1", "o=- 1 1 IN IP4", "o=- 1 1 IN IP4 1.1.1.1 x", "o=- 1 1 ATM IP4 1.1.1.1", "o=- 1 1 IN IP5 1.1.1.1", "o=- 1 1 IN IP4 224.2.1.1/127", "o=  1 IN IP4 1.1.1.1", "o=- 1 1 in IP4 1.1.1.1",
            "c=IN IP4 1.1.1.1", "c=IN IP4 224.2.1.1/127", "c=IN IP6 ::1", "c=ATM IP4 1.1.1.1", "c=IN IP4", "c=IN IP4 ", "c=IN IP4 1.1.1.1 ", "c=IN  IP4 1.1.1.1", "c=IN ip4 1.1.1.1", "c=IN IP6 FF15::101/3", "c=IN IP4 host.example", "c=IN IP5 1.1.1.1", "c=1.1.1.1",
            "m=audio 5004 RTP/AVP 0", "m=audio 5004 RTP/AVP", "m=audio 65536 RTP/AVP 0", "m=audio 65535 RTP/AVP 0", "m=audio -1 RTP/AVP 0", "m=audio x RTP/AVP 0", "m=audio  RTP/AVP 0", "m=audio 5004/2 RTP/AVP 0", "m=audio /2 RTP/AVP 0", "m=audio 5004/ RTP/AVP 0",
            "m=audio 5004 RTP/AVP 0 ", "m=audio 5004 RTP/AVP 0  8", "m=audio 5004 RTP/AVP 1", "m=audio 5004 RTP/AVP 2", "m=audio 5004 RTP/AVP 19", "m=audio 5004 RTP/AVP 24", "m=audio 5004 RTP/AVP 35", "m=audio 5004 RTP/AVP 95", "m=audio 5004 RTP/AVP 96", "m=audio 5004 RTP/AVP 101",
            "m=audio 5004 RTP/AVP 127", "m=audio 5004 RTP/AVP 128", "m=audio 5004 RTP/AVP 255", "m=audio 5004 RTP/AVP 256", "m=audio 5004 RTP/AVP -1", "m=audio 5004 RTP/AVP x", "m=audio 5004 RTP/AVP 0x0", "m=audio 5004 RTP/AVP 00", "m=audio 5004 RTP/AVP 8 18 0 3", "m=audio 5004  0",
            "m=audio 99999999999999999999 RTP/AVP 0", "m=audio 5004 RTP/AVP 99999999999999999999", "m=audio", "m=audio ", "m=video 1 RTP/AVP 31", "m=video 1 RTP/AVP 101", "m=video 0 x 34 31 26", "m=video 70000 RTP/AVP 31", "m=Audio 5004 RTP/AVP 0", "m=image 1 udptl t38",
            "a=rtpmap:0 PCMA/8000", "a=rtpmap:0 PCMU", "a=rtpmap:0 PCMU/", "a=rtpmap:0 PCMU/x", "a=rtpmap:0 PCMU/8k", "a=rtpmap:0 PCMU/-8000", "a=rtpmap:0 PCMU/+8000", "a=rtpmap:0 PCMU/99999999999999999999", "a=rtpmap:0 PCMU/8000/2/3", "a=rtpmap:0 /8000", "a=rtpmap:0", "a=rtpmap:0 ", "a=rtpmap: 0 PCMU/8000",
            "a=rtpmap:00 X/1", "a=rtpmap:101 telephone-event/8000", "a=rtpmap:96 X/1/2", "a=rtpmap:127 Y/2", "a=rtpmap:128 Z/2", "a=rtpmap:255 Z/2", "a=rtpmap:10 ten/10", "a=rtpmap:1 one/1", "a=rtpmap:110 x/1", "a=rtpmap:35 v/35", "a=fmtp:0 a=b", "a=fmtp:101 0-15", "a=fmtp:10 ten", "a=fmtp:1 one", "a=fmtp:0", "a=fmtp:0  x", "a=fmtp:8 x",
            "a=ptime:20", "a=ptime:0", "a=ptime:-1", "a=ptime:x", "a=ptime:", "a=ptime:99999999999999999999", "a=ptime", "a=maxptime:30", "a=sendonly", "a=recvonly", "a=sendrecv", "a=inactive", "a=sendonly:", "a=:", "a=x:y:z", "a=x:", "s=", "s= ", "s=x", "t=", "t=1 2", "v=0", "v=1", "x", "=", "b=AS:64", "z=", "a", "c", "m", "o">>
Base == <<"v=0", "o=- 1 1 IN IP4 1.2.3.4", "s=-", "c=IN IP4 1.2.3.4", "t=0 0", "m=audio 32898 RTP/AVP 0 101", "a=rtpmap:101 telephone-event/8000", "a=fmtp:101 0-16", "a=ptime:20", "a=sendrecv">>
BaseL == [i \in 1..Len(Base) |-> B(Base[i])]
LineEdit(L, s) ==
  LET p == 1 + R(Sd(s, 1), Len(L))
      x == B(Pick(Lines0, Sd(s, 2)))
      q == 1 + R(Sd(s, 3), Len(L))
  IN CASE R(s, 8) \in {0, 1} -> Sub(L, 1, p) \o <<x>> \o From(L, p + 1)
       [] R(s, 8) \in {2, 3, 4} -> [L EXCEPT ![p] = x]
       [] R(s, 8) = 5 -> Sub(L, 1, p - 1) \o From(L, p + 1)
       [] R(s, 8) = 6 -> [L EXCEPT ![p] = L[q], ![q] = L[p]]
       [] OTHER -> Sub(L, 1, p) \o <<L[p]>> \o From(L, p + 1)
RECURSIVE LineEdits(_, _, _)
LineEdits(L, n, s) == IF n = 0 \/ Len(L) < 2 THEN L ELSE LineEdits(LineEdit(L, Sd(s, 1)), n - 1, Sd(s, 2))
\* Every line of the list in every place of the base: put before it, or put for it.
Places == Len(Lines0) * 2 * Len(Base)
Placed(i) == LET x == B(Lines0[1 + (i % Len(Lines0))])
                 p == 1 + ((i \div Len(Lines0)) % Len(Base))
             IN IF i \div (Len(Lines0) * Len(Base)) = 0 THEN Sub(BaseL, 1, p - 1) \o <<x>> \o From(BaseL, p + 1) ELSE Sub(BaseL, 1, p) \o <<x>> \o From(BaseL, p + 1)
\* Codec tables: which of two payload types, which maps and formats, in which order.
TabPts == <<"0", "8", "18", "96", "101", "35", "10">>
Tables == 7 * 7 * 4 * 4 * 2 * 2
Table(i) ==
  LET Dg(k, n) == (i \div k) % n
      p1 == B(TabPts[1 + Dg(1, 7)])   p2 == B(TabPts[1 + Dg(7, 7)])
      m(p, x) == CASE x = 0 -> <<>> [] x = 1 -> <<B("a=rtpmap:") \o p \o B(" A/1")>> [] x = 2 -> <<B("a=fmtp:") \o p \o B(" f")>> [] OTHER -> <<B("a=rtpmap:") \o p \o B(" B/2/3"), B("a=fmtp:") \o p \o B(" g h")>>
      ls == IF Dg(784, 2) = 0 THEN m(p1, Dg(49, 4)) \o m(p2, Dg(196, 4)) ELSE m(p2, Dg(196, 4)) \o m(p1, Dg(49, 4))
      md == <<IF Dg(1568, 2) = 0 THEN B("m=audio 9 RTP/AVP ") \o p1 \o <<SP>> \o p2 ELSE B("m=audio 9 RTP/AVP ") \o p1, IF Dg(1568, 2) = 0 THEN B("m=text 1 x 0") ELSE B("m=video 9 RTP/AVP ") \o p2>>
  IN Sub(BaseL, 1, 5) \o (IF i % 3 = 0 THEN ls \o md ELSE md \o ls)

Case(i) ==
  LET s == Seed(i) IN
  CASE IOEnv.KIND = "build" ->
         LET d == TLCEval(GSdp(Sd(s, 1)))
             t == TLCEval(SpellSdp(d, Sd(s, 2)))
             r == TLCEval(RefSdp(t)) IN
         /\ IF Representable(d) THEN TRUE ELSE Bad(i, "not representable")
         /\ IF r.k = ACC /\ SdpDiff(r.d, d) = {} THEN TRUE ELSE Bad(i, [k |-> r.k, t |-> t])
         /\ Emit([id |-> i, op |-> "build", sdp |-> d, txt |-> t])
    [] IOEnv.KIND = "new" ->
         LET d == GSdp(Sd(s, 1))
             a == IF d.audio = <<>> THEN d.video ELSE d.audio
         IN Emit([id |-> i, op |-> "new", txt |-> <<>>, sdp |-> [d EXCEPT !.addr = IF Has(@, Colon) /\ Has(@, 46) THEN B("2001:db8::17") ELSE @,  \* as addresses are written
                     !.audio = <<[a[1] EXCEPT !.proto = B("RTP/AVP"), !.codecs = IF Chance(Sd(s, 7), 8) THEN <<>> ELSE @]>>]])
    [] IOEnv.KIND = "bare" ->  \* parts are left out
         LET d == TLCEval(GSdp(Sd(s, 1)))
             Out(k, v) == IF Chance(Sd(Sd(s, 3), k), 50) THEN <<>> ELSE v
         IN Emit([id |-> i, op |-> "bare", txt |-> <<>>, sdp |-> [d EXCEPT !.user = Out(1, @), !.id = Out(2, @), !.ver = Out(3, @), !.oaddr = Out(4, @), !.addr = Out(5, @),
                                                                          !.session = Out(6, @), !.time = Out(7, @)]])
    [] IOEnv.KIND = "spell" ->
         LET d == GSdp(Sd(s, 1)) IN Emit([id |-> i, op |-> "parse", txt |-> SpellSdp(d, Sd(s, 2))])
    [] IOEnv.KIND = "lines" ->
         LET L == IF Chance(Sd(s, 1), 50) THEN BaseL ELSE <<B("v=0")>> \o SpellLines(GSdp(Sd(s, 2)), Sd(s, 3))
         IN Emit([id |-> i, op |-> "parse", txt |-> Join(LineEdits(L, 1 + R(Sd(s, 4), 3), Sd(s, 5)))])
    [] IOEnv.KIND = "places" -> Emit([id |-> i, op |-> "parse", txt |-> Join(Placed(i % Places))])
    [] IOEnv.KIND = "tables" -> Emit([id |-> i, op |-> "parse", txt |-> Join(Table(i % Tables))])
    [] IOEnv.KIND = "damage" ->
         LET t == IF Chance(Sd(s, 1), 50) THEN Join(BaseL) ELSE SpellSdp(GSdp(Sd(s, 2)), Sd(s, 3))
         IN Emit([id |-> i, op |-> "parse", txt |-> Gen!Damage(t, 1 + R(Sd(s, 4), 3), Sd(s, 5))])

VARIABLE n
Init == n = 0
Next == n < Count /\ n' = n + 1 /\ Case(First + n)
Spec == Init /\ [][Next]_n
ASSUME IF IOEnv.KIND = "sizes" THEN PrintT(<<Places, Tables>>) ELSE TRUE
=============================================================================
