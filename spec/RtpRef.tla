------------------------------- MODULE RtpRef -------------------------------
(***************************************************************************)
(* Media: RTP and telephone-event headers bit by bit (RFC 3550, RFC 4733), *)
(* the outgoing stream of a session as a state machine, G.711 mu-law, and  *)
(* saturating mixing.  Bytes are 0..255, 32-bit numbers are pairs of       *)
(* 16-bit halves, most significant first.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions

Two(n) == <<n \div 256, n % 256>>
Word(b, i) == (b[i] * 256) + b[i + 1]
Four(w) == Two(w[1]) \o Two(w[2])
Bit(x, f) == IF x THEN f ELSE 0
IsBit(b, f) == (b \div f) % 2 = 1
\* a + b modulo 2^32
Add(a, b) == LET lo == a[2] + b[2]  hi == a[1] + b[1] + (lo \div 65536) IN <<hi % 65536, lo % 65536>>

-----------------------------------------------------------------------------
(* Headers.                                                                *)
HdrBytes(h) == <<128 + Bit(h.pad, 32), Bit(h.mark, 128) + (h.pt % 128)>> \o Two(h.seq) \o Four(h.ts) \o Four(h.ssrc)
HdrGood(b) == Len(b) >= 12 /\ b[1] \div 64 = 2 /\ ~IsBit(b[1], 16)
HdrOf(b) == [pad |-> IsBit(b[1], 32), mark |-> IsBit(b[2], 128), pt |-> b[2] % 128, seq |-> Word(b, 3),
             ts |-> <<Word(b, 5), Word(b, 7)>>, ssrc |-> <<Word(b, 9), Word(b, 11)>>]
EvBytes(e) == <<e.event, Bit(e.e, 128) + Bit(e.r, 64) + (e.vol % 64)>> \o Two(e.dur)
EvOf(b) == [event |-> b[1], e |-> IsBit(b[2], 128), r |-> IsBit(b[2], 64), vol |-> b[2] % 64, dur |-> Word(b, 3)]

\* The characters of the events 0..16, and the events of all characters.
EventChars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 42, 35, 65, 66, 67, 68, 33>>
CharOf(e) == IF e \in 0..16 THEN EventChars[e + 1] ELSE -1
EventOf(c) == LET u == IF c \in 97..100 THEN c - 32 ELSE c
              IN IF \E e \in 0..16 : EventChars[e + 1] = u THEN CHOOSE e \in 0..16 : EventChars[e + 1] = u ELSE -1

-----------------------------------------------------------------------------
(* G.711 mu-law: bias 132, eight segments of sixteen steps.                 *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000>>
Clip == 32635
Enc(x) ==
  LET a == IF x < 0 THEN -x ELSE x
      m == (IF a > Clip THEN Clip ELSE a) + 132
      seg == CHOOSE s \in 0..7 : Pow2[s + 8] <= m /\ m < 2 * Pow2[s + 8]
  IN 255 - (Bit(x < 0, 128) + (seg * 16) + ((m \div Pow2[seg + 4]) % 16))
Dec(c) ==
  LET v == 255 - c
      mag == (((v % 16) * 8 + 132) * Pow2[((v \div 16) % 8) + 1]) - 132
  IN IF v >= 128 THEN -mag ELSE mag
EncT == TLCEval([x \in -32768..32767 |-> Enc(x)])
DecT == TLCEval([c \in 0..255 |-> Dec(c)])
Step(c) == 8 * Pow2[(((255 - c) \div 16) % 8) + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
\* What the definition has to satisfy, at one sample.
LawAt(x) ==
  LET c == Enc(x) IN
  /\ c \in 0..255
  /\ (Abs(x) <= Clip => 2 * Abs(Dec(c) - x) <= Step(c))
  /\ (Abs(x) > Clip => Abs(Dec(c)) = 32124 /\ (Dec(c) < 0) = (x < 0))
  /\ (x < 32767 => Dec(c) <= Dec(Enc(x + 1)))
LawOf(c) == Dec(Enc(Dec(c))) = Dec(c)

-----------------------------------------------------------------------------
(* Mixing.                                                                 *)
Sat(x) == IF x > 32767 THEN 32767 ELSE IF x < -32768 THEN -32768 ELSE x
Mixed(a, b) == [i \in 1..Len(a) |-> Sat(a[i] + b[i])]

-----------------------------------------------------------------------------
(* The outgoing stream.  A state is where the next packet will be placed;   *)
(* what a failed write does to it is left open, so there are sets of them.  *)
Pos(seq, ts, ssrc) == [seq |-> seq, ts |-> ts, ssrc |-> ssrc]
After(p, n, samples) == [p EXCEPT !.seq = (@ + n) % 65536, !.ts = Add(@, samples)]
FrameSamples == <<0, 160>>
NoSamples == <<0, 0>>
\* A write that failed may have used up its number and its samples.
Perhaps(p, samples) == {p, After(p, 1, NoSamples), After(p, 0, samples), After(p, 1, samples)}
Ulaw == 0
TelEvent == 101
AudioHdr(p, pt) == HdrBytes([pad |-> FALSE, mark |-> FALSE, pt |-> pt, seq |-> p.seq, ts |-> p.ts, ssrc |-> p.ssrc])

\* A burst of the event code: starts, then three ends.
FullDuration == 400
Body(k) == SubSeq(k, 13, Len(k))
Burst(code, ks, whole) ==
  LET E(i) == EvOf(Body(ks[i]))
      H(i) == HdrOf(ks[i])
      N == Len(ks)
      ends == {i \in 1..N : E(i).e}
  IN IF \E i \in 1..N : Len(ks[i]) # 16 \/ ~HdrGood(ks[i]) THEN {"no events of four octets"}
     ELSE (IF \E i \in 1..N : H(i).pt # TelEvent THEN {"payload type"} ELSE {})
       \cup (IF \E i \in 1..N : E(i).event # code THEN {"event"} ELSE {})
       \cup (IF \E i \in 1..N : E(i).r \/ E(i).vol # E(1).vol THEN {"volume"} ELSE {})
       \cup (IF \E i \in 1..N : H(i).ts # H(1).ts THEN {"time"} ELSE {})
       \cup (IF \E i \in 1..N : H(i).mark # (i = 1) THEN {"marker"} ELSE {})
       \cup (IF \E i \in 1..(N - 1) : E(i).e /\ ks[i + 1] # <<>> /\ Body(ks[i + 1]) # Body(ks[i]) THEN {"ends"} ELSE {})
       \cup (IF Cardinality(ends) > 3 \/ (whole /\ Cardinality(ends) # 3) THEN {"number of ends"} ELSE {})
       \cup (IF \E i \in 1..(N - 1) : ~E(i).e /\ E(i + 1).dur <= E(i).dur THEN {"durations"} ELSE {})
       \cup (IF \E i \in ends : E(i).dur # FullDuration THEN {"full duration"} ELSE {})
       \cup (IF N > 0 /\ (E(1).e \/ E(1).dur = 0) THEN {"start"} ELSE {})

-----------------------------------------------------------------------------
(* Comfort noise.  Levels are in hundredths of a decibel below (or above)   *)
(* full scale; dBm0 is 6.16 dB more.  Statistics are in hundredths of the   *)
(* root mean square that the level asks for, within about five times their  *)
(* own standard deviation.                                                  *)
Dbm0 == 616
Tenth == <<10000, 11220, 12589, 14125, 15849, 17783, 19953, 22387, 25119, 28184, 31623, 35481, 39811, 44668, 50119, 56234, 63096, 70795, 79433, 89125>>   \* 10^(k/20)
\* 10^(-c/2000) for what is left below a decibel, c = 0, 4, 8, .. 96
Cent == <<10000, 9954, 9908, 9863, 9817, 9772, 9727, 9683, 9638, 9594, 9550, 9506, 9462, 9419, 9376, 9333, 9290, 9247, 9204, 9162, 9120, 9078, 9036, 8995, 8954>>
\* Ten times the root mean square at l <= 2000 hundredths of dBov; l a multiple of 4.
Rms10(l) ==
  LET up == l + 12000                  \* above -120 dBov
      db == up \div 100                \* whole decibels, rounded up
      c == IF up % 100 = 0 THEN 0 ELSE 100 - (up % 100)
      d == IF c = 0 THEN db ELSE db + 1
      full == (8192 * Tenth[(d % 20) + 1]) \div 250     \* ten times full scale and the odd decibels
      dec == d \div 20                 \* decades above -120 dBov: 6 is full scale
      v == IF dec >= 6 THEN full * Pow10[dec - 5] ELSE full \div Pow10[7 - dec]
  IN IF v < 200000 THEN (v * Cent[(c \div 4) + 1]) \div 10000 ELSE ((v \div 100) * Cent[(c \div 4) + 1]) \div 100
SumOf(f) == FoldFunction(LAMBDA a, b : a + b, 0, f)
=============================================================================
