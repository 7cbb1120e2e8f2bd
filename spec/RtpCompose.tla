----------------------------- MODULE RtpCompose -----------------------------
(* Headers, packets, histories of sending, receiving and closing, frames to *)
(* mix and samples to convert, as functions of a case number; IOEnv.KIND    *)
(* says which.  The definitions are checked on the way.                     *)
EXTENDS RtpRef, RtpSettled, Json, IOUtils

Gen == INSTANCE SipGen
Sd(s, i) == Gen!Sd(s, i)
R(s, n) == Gen!R(s, n)
Pick(q, s) == Gen!Pick(q, s)
Chance(s, p) == Gen!Chance(s, p)

A0 == Gen!IntOf(Gen!B(IOEnv.SEED))
Count == Gen!IntOf(Gen!B(IOEnv.COUNT))
First == Gen!IntOf(Gen!B(IOEnv.FIRST))
Seed(i) == Sd(Sd(Sd(<<A0 % 46337, 59>>, i % 1000), i \div 1000), 5)
Emit(c) == PrintT("CASE " \o ToJson(c))
Bad(i, what) == PrintT("MODEL " \o ToJson([seed |-> i, what |-> what]))

Byte(s) == IF Chance(s, 30) THEN Pick(<<0, 1, 127, 128, 255, 64, 16>>, Sd(s, 1)) ELSE R(Sd(s, 2), 256)
Bytes(n, s) == [i \in 1..n |-> Byte(Sd(s, i))]
Half(s) == IF Chance(s, 40) THEN Pick(<<0, 1, 255, 256, 32767, 32768, 65280, 65534, 65535>>, Sd(s, 1)) ELSE (R(Sd(s, 2), 256) * 256) + R(Sd(s, 3), 256)
Long(s) == <<Half(Sd(s, 1)), Half(Sd(s, 2))>>
Sample(s) == CASE R(s, 10) < 3 -> Pick(<<0, 1, -1, 3, 4, -4, -5, 32767, -32768, 32635, -32635, 32636, -32636, 132, -132, 255, 256, -256>>, Sd(s, 1))
               [] R(s, 10) \in 3..5 -> Pick(<<-1, 1>>, Sd(s, 2)) * (Pow2[1 + R(Sd(s, 3), 15)] + R(Sd(s, 4), 9) - 4)
               [] R(s, 10) = 6 -> Pick(<<-1, 1>>, Sd(s, 2)) * (32760 + R(Sd(s, 4), 8))
               [] OTHER -> Half(Sd(s, 5)) - 32768
Samples(s) == CASE R(s, 10) = 0 -> LET x == Sample(Sd(s, 1)) IN [i \in 1..160 |-> x]
                [] R(s, 10) = 1 -> LET x == 1 + R(Sd(s, 1), 160)  y == Sample(Sd(s, 2)) IN [i \in 1..160 |-> IF i = x THEN y ELSE 0]
                [] OTHER -> [i \in 1..160 |-> Sample(Sd(s, i))]

-----------------------------------------------------------------------------
(* Packets to receive.                                                     *)
GHdr(pt, s) == [pad |-> FALSE, mark |-> Chance(Sd(s, 1), 20), pt |-> pt, seq |-> Half(Sd(s, 2)), ts |-> Long(Sd(s, 3)), ssrc |-> Long(Sd(s, 4))]
GoodPkt(s) == HdrBytes(GHdr(Ulaw, s)) \o (IF Chance(Sd(s, 7), 15) THEN LET b == Byte(Sd(s, 5)) IN [i \in 1..160 |-> b] ELSE [i \in 1..160 |-> ((R(Sd(s, 5), 256) + (i * (1 + R(Sd(s, 6), 100)))) % 256)])
BadPkt(s) ==
  LET g == GoodPkt(Sd(s, 20)) IN
  CASE R(s, 12) = 0 -> <<>>
    [] R(s, 12) = 1 -> SubSeq(g, 1, 171)
    [] R(s, 12) = 2 -> g \o <<Byte(Sd(s, 1))>>
    [] R(s, 12) = 3 -> SubSeq(g, 1, Pick(<<1, 4, 11, 12, 13, 52, 92, 170>>, Sd(s, 1)))
    [] R(s, 12) = 4 -> [g EXCEPT ![1] = Pick(<<0, 64, 192>>, Sd(s, 1))]
    [] R(s, 12) = 5 -> [g EXCEPT ![1] = @ + 16]
    [] R(s, 12) \in {6, 7} -> [g EXCEPT ![2] = Pick(<<1, 8, 9, 18, 101, 127, 3, 13, 96>>, Sd(s, 1)) + Bit(Chance(Sd(s, 2), 50), 128)]
    [] R(s, 12) = 8 -> g \o Bytes(Pick(<<2, 4, 16, 80, 160>>, Sd(s, 1)), Sd(s, 2))
    [] R(s, 12) = 9 -> HdrBytes(GHdr(TelEvent, s)) \o EvBytes([event |-> 5, e |-> TRUE, r |-> FALSE, vol |-> 10, dur |-> 400])
    [] R(s, 12) = 10 -> g \o [i \in 1..Pick(<<1200, 1876, 1877, 3000>>, Sd(s, 1)) |-> i % 256]
    [] OTHER -> Bytes(R(Sd(s, 1), 30), Sd(s, 2))

Recv(i, way, s) == [id |-> i, op |-> "recv", ops |-> [j \in 1..Len(way) |-> [o |-> way[j],
                      b |-> IF way[j] = "good" THEN GoodPkt(Sd(s, j)) ELSE IF way[j] = "bad" THEN BadPkt(Sd(s, j)) ELSE <<>>]]]
WaysQ == TLCEval(Ways(S0, 5, 3))
WaysT == TLCEval(Ways(S0, 7, 4))
\* A longer random way.
RECURSIVE Walk(_, _, _)
Walk(st, n, s) ==
  LET ops == SelectSeq(<<"good", "good", "bad", "take", "take", "take", "give", "give", "peek", "noerr", "expire", "err">> \o (IF n < 1 THEN <<"close", "close", "cae">> ELSE <<>>),
                       LAMBDA op : May(st, op) /\ (op = "expire" => Chance(Sd(s, 3), 10)) /\ (op \in {"good", "bad"} => st.n < 40))
  IN IF st.st = "closed" THEN <<>>
     ELSE IF ops = <<>> \/ n < -5 THEN <<"close">> ELSE LET op == Pick(ops, Sd(s, 1)) IN <<op>> \o Walk(Does(st, op), n - 1, Sd(s, 2))

-----------------------------------------------------------------------------
(* Histories of sending.                                                   *)
Op(o, n) == [o |-> o, n |-> n, x |-> <<>>, samps |-> NoSamples, late |-> 0]
Frame(s) == [Op("frame", 0) EXCEPT !.x = Samples(s)]
RawTo(pt, len, samps, s) == [Op("raw", pt) EXCEPT !.x = Bytes(len, s), !.samps = samps]
Digits == Gen!B("0123456789*#ABCDabcd!")
Alphabet(k, s) ==
  CASE k \in {0, 1} -> Frame(s)
    [] k = 2 -> RawTo(Pick(<<0, 8, 9, 18, 96, 127>>, Sd(s, 1)), Pick(<<1, 20, 33, 160, 172>>, Sd(s, 2)), Pick(<<<<0, 160>>, <<0, 240>>, <<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<1, 0>>, <<32768, 0>>>>, Sd(s, 3)), Sd(s, 4))
    [] k = 3 -> Op("digit", Pick(Digits, s))
    [] k = 4 -> Op("digit", Pick(<<0, 32, 34, 43, 44, 47, 58, 64, 69, 70, 101, 102, 128, 176, 255>>, s))
    [] k = 5 -> Op("peer", 1)
    [] k = 6 -> Op("peer", 2)
    [] k = 7 -> Op("peer", 0)
    [] k = 8 -> Op("deny", 1)
    [] k = 9 -> Op("deny", 0)
    [] k = 10 -> RawTo(R(Sd(s, 1), 128), Pick(<<0, 1487, 1488, 1489, 2000, 9000>>, Sd(s, 2)), Long(Sd(s, 3)), Sd(s, 4))
    [] k = 11 -> [Op("digit", Pick(Digits, s)) EXCEPT !.late = 1 + R(Sd(s, 1), 80)]
    [] OTHER -> Op("peer", 3)        \* one that cannot be reached
Starts == << <<666, <<0, 0>>>>, <<65535, <<0, 0>>>>, <<65533, <<65535, 65535>>>>, <<0, <<65535, 65376>>>>, <<65530, <<65535, 65000>>>>, <<32767, <<32767, 65535>>>>, <<1, <<1, 2>>>>, <<255, <<0, 65400>>>> >>
Send(i, ops, s) == [id |-> i, op |-> "send", start |-> LET st == Pick(Starts, Sd(s, 1)) IN [seq |-> st[1], ts |-> st[2], ssrc |-> Long(Sd(s, 2))], ops |-> ops]
\* Weights for long histories.
Likely == <<0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10, 11, 12, 5, 6, 5, 6>>
History(n, s) == <<Op("peer", 1)>> \o [j \in 1..n |-> Alphabet(Pick(Likely, Sd(Sd(s, j), 1)), Sd(Sd(s, j), 2))]
\* All of three.
Shorts == 12 * 12 * 12
Short(i) == LET K(d) == (i \div d) % 12
                k3 == <<K(1), K(12), K(144)>>
                \* 0..11 without the second frame
                A(j) == Alphabet(IF k3[j] = 0 THEN 0 ELSE k3[j] + 1, Sd(Seed(i), j))
            IN <<Op("peer", 1), A(1), A(2), A(3), Op("deny", 0), Op("peer", 2), Frame(Sd(Seed(i), 9))>>

-----------------------------------------------------------------------------
Case(i) ==
  LET s == Seed(i) IN
  CASE IOEnv.KIND = "hdr" ->
         LET h == [pad |-> IsBit(i \div 256, 1), mark |-> IsBit(i \div 512, 1), pt |-> i % 256, seq |-> Half(Sd(s, 1)), ts |-> Long(Sd(s, 2)), ssrc |-> Long(Sd(s, 3))] IN
         /\ IF HdrGood(HdrBytes(h)) /\ HdrOf(HdrBytes(h)) = [h EXCEPT !.pt = @ % 128] THEN TRUE ELSE Bad(i, h)
         /\ Emit([id |-> i, op |-> "hdr", h |-> h, pre |-> Bytes(Pick(<<0, 0, 1, 12, 5>>, Sd(s, 4)), Sd(s, 5)), room |-> Pick(<<0, 1, 11, 12, 13, 172, 1500>>, Sd(s, 6))])
    [] IOEnv.KIND = "read" ->
         LET n == Pick(<<0, 1, 2, 4, 10, 11, 11, 12, 12, 12, 12, 12, 13, 16, 20, 40>>, Sd(s, 1))
             b == [j \in 1..n |-> IF j = 1 THEN i % 256 ELSE IF j = 2 THEN (i \div 256) % 256 ELSE Byte(Sd(Sd(s, 2), j))]
         IN Emit([id |-> i, op |-> "read", b |-> b])
    [] IOEnv.KIND = "event" ->
         LET e == [event |-> i % 256, e |-> IsBit(i \div 256, 1), r |-> IsBit(i \div 512, 1), vol |-> Byte(Sd(s, 1)), dur |-> Half(Sd(s, 2))] IN
         /\ IF EvOf(EvBytes(e)) = [e EXCEPT !.vol = @ % 64] THEN TRUE ELSE Bad(i, e)
         /\ Emit([id |-> i, op |-> "event", ev |-> e, b |-> Bytes(4 + R(Sd(s, 3), 4), Sd(s, 4))])
    [] IOEnv.KIND = "chars" -> Emit([id |-> i, op |-> "char", n |-> i % 256])
    [] IOEnv.KIND = "ulaw" ->
         IF i % 129 = 128 THEN /\ IF \A c \in 0..255 : LawOf(c) THEN TRUE ELSE Bad(i, "law of codes")
                               /\ Emit([id |-> i, op |-> "linear", from |-> 0, n |-> 256])
         ELSE LET lo == ((i % 129) * 512) - 32768 IN
              /\ IF \A x \in lo..(lo + 511) : LawAt(x) THEN TRUE ELSE Bad(i, "law of samples")
              /\ Emit([id |-> i, op |-> "ulaw", from |-> lo, n |-> 512])
    [] IOEnv.KIND = "mix" ->
         Emit([id |-> i, op |-> "mix", a |-> Samples(Sd(s, 1)), b |-> Samples(Sd(s, 2)), at |-> i % 16, bt |-> (i \div 16) % 16,
               same |-> R(Sd(s, 3), 8) = 0, place |-> R(Sd(s, 4), 4)])
    [] IOEnv.KIND = "send" -> Emit(Send(i, History(3 + R(Sd(s, 1), 12), Sd(s, 2)), s))
    [] IOEnv.KIND = "digits" ->
         Emit(Send(i, <<Op("peer", 1)>> \o (IF Chance(Sd(s, 1), 50) THEN <<Frame(Sd(s, 2))>> ELSE <<>>) \o <<Op("digit", i % 256), Frame(Sd(s, 3)), Op("digit", Pick(Digits, Sd(s, 4))), RawTo(8, 20, <<0, 160>>, Sd(s, 5))>>, s))
    [] IOEnv.KIND = "short" -> Emit(Send(i, Short(i % Shorts), s))
    [] IOEnv.KIND = "ways" -> Emit(Recv(i, WaysQ[1 + (i % Len(WaysQ))], s))
    [] IOEnv.KIND = "allways" -> Emit(Recv(i, WaysT[1 + (i % Len(WaysT))], s))
    [] IOEnv.KIND = "walk" -> Emit(Recv(i, Walk(S0, 10 + R(Sd(s, 1), 25), Sd(s, 2)), s))
    [] IOEnv.KIND = "storm" ->
         Emit([id |-> i, op |-> "storm", pkts |-> [j \in 1..(20 + R(Sd(s, 1), 80)) |-> IF Chance(Sd(Sd(s, 2), j), 75) THEN GoodPkt(Sd(Sd(s, 3), j)) ELSE BadPkt(Sd(Sd(s, 4), j))],
               takes |-> R(Sd(s, 5), 60), hold |-> Pick(<<0, 0, 1, 20, 200>>, Sd(s, 6)), gap |-> Pick(<<0, 0, 1, 30>>, Sd(s, 7)), keep |-> Chance(Sd(s, 8), 50), wait |-> Pick(<<0, 0, 5, 50, 300>>, Sd(s, 9))])
    [] IOEnv.KIND = "noise" ->
         LET ctor == Pick(<<"plain", "dbm0", "dbov", "dbov">>, Sd(s, 1))
             l == 4 * (R(Sd(s, 2), 2000) - 1800) IN       \* -72 to 8 dB
         Emit([id |-> i, op |-> "noise", ctor |-> ctor, level |-> IF ctor = "dbov" THEN l ELSE l + Dbm0, seed |-> Long(Sd(s, 3)), n |-> 4096])
    [] IOEnv.KIND = "slam" -> Emit([id |-> i, op |-> "slam", n |-> 400, pkts |-> [j \in 1..(2 + (i % 5)) |-> GoodPkt(Sd(s, j))]])
    [] IOEnv.KIND = "ports" -> Emit([id |-> i, op |-> "ports", n |-> 60, taken |-> IF i % 3 = 2 THEN 0 ELSE 1600])
    [] IOEnv.KIND = "asked" -> Emit([id |-> i, op |-> "asked", odd |-> IsBit(i, 1), taken |-> IsBit(i, 2)])

VARIABLE n
Init == n = 0
Next == n < Count /\ n' = n + 1 /\ Case(First + n)
Spec == Init /\ [][Next]_n
ASSUME IF IOEnv.KIND = "sizes" THEN PrintT(<<Len(WaysQ), Len(WaysT), Shorts>>) ELSE TRUE
=============================================================================
