------------------------------- MODULE SdpRef -------------------------------
(***************************************************************************)
(* What a session description (RFC 4566, as far as this library goes)      *)
(* means.  RefSdp(s) gives a verdict on the bytes s -- ACC, ANY (left open) *)
(* or REJ -- and, unless rejected, the description it stands for.          *)
(*                                                                         *)
(* A description: user, id, ver, oaddr (origin), addr (connection),        *)
(* session, time, ptime (0: none), so, ro (directions), attrs and other    *)
(* (pairs), audio and video (no or one medium: port, proto, codecs with    *)
(* pt, name, rate, param, fmtp).                                           *)
(***************************************************************************)
EXTENDS SipChars

ACC == 0   ANY == 2   REJ == 3
Worst(a, b) == IF a > b THEN a ELSE b

\* The position of the next CRLF from i on, or Len(s)+1.
RECURSIVE Crlf(_, _)
Crlf(s, i) == IF i > Len(s) \/ (s[i] = CR /\ At(s, i + 1) = LF) THEN i ELSE Crlf(s, i + 1)
RECURSIVE LinesOf(_, _)
LinesOf(s, i) == LET e == Crlf(s, i) IN IF e > Len(s) THEN <<Sub(s, i, e - 1)>> ELSE <<Sub(s, i, e - 1)>> \o LinesOf(s, e + 2)
RECURSIVE Split(_, _)
Split(s, b) == LET e == Find(s, 1, b) IN IF e > Len(s) THEN <<s>> ELSE <<Sub(s, 1, e - 1)>> \o Split(From(s, e + 1), b)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, p) == From(s, Len(p) + 1)
Slash == 47   Colon == 58   Equal == 61

-----------------------------------------------------------------------------
(* The registered payload types.                                           *)
Std == << <<0, "PCMU", "8000", "">>, <<3, "GSM", "8000", "">>, <<4, "G723", "8000", "">>, <<5, "DVI4", "8000", "">>, <<6, "DVI4", "16000", "">>,
          <<7, "LPC", "8000", "">>, <<8, "PCMA", "8000", "">>, <<9, "G722", "8000", "">>, <<10, "L16", "44100", "2">>, <<11, "L16", "44100", "">>,
          <<12, "QCELP", "8000", "">>, <<13, "CN", "8000", "">>, <<14, "MPA", "90000", "">>, <<15, "G728", "8000", "">>, <<16, "DVI4", "11025", "">>,
          <<17, "DVI4", "22050", "">>, <<18, "G729", "8000", "">>, <<25, "CelB", "90000", "">>, <<26, "JPEG", "90000", "">>, <<28, "nv", "90000", "">>,
          <<31, "H261", "90000", "">>, <<32, "MPV", "90000", "">>, <<33, "MP2T", "90000", "">>, <<34, "H263", "90000", "">> >>
StdPts == {Std[i][1] : i \in 1..Len(Std)}
StdCodec(n) == LET x == Std[CHOOSE i \in 1..Len(Std) : Std[i][1] = n]
               IN [pt |-> DigitsOf(n), name |-> B(x[2]), rate |-> B(x[3]), param |-> B(x[4]), fmtp |-> <<>>]

-----------------------------------------------------------------------------
(* Numbers: [k, v]; leading zeros are left open.                           *)
Num(d, max) ==
  IF d = <<>> \/ ~All(d, Digit) THEN [k |-> REJ, v |-> Zero]
  ELSE IF ~NumLeq(Strip0(d), max) THEN [k |-> REJ, v |-> Zero]
  ELSE [k |-> IF Strip0(d) = d THEN ACC ELSE ANY, v |-> Strip0(d)]

V4C == Cls(DigitS \cup {46})
\* Does a look like an address of the family?  Names and oddities are left open.
AddrV(a, fam) ==
  IF a = <<>> \/ Has(a, Slash) THEN REJ
  ELSE IF fam = B("IP4") THEN (IF All(a, V4C) THEN ACC ELSE ANY)
  ELSE (IF All(a, V6) /\ Has(a, Colon) THEN ACC ELSE ANY)

Conn(s) == LET t == Split(s, SP) IN
  IF Len(t) # 3 \/ t[1] # B("IN") \/ t[2] \notin {B("IP4"), B("IP6")} THEN [k |-> REJ]
  ELSE [k |-> AddrV(t[3], t[2]), addr |-> t[3]]
Orig(s) == LET t == Split(s, SP) IN
  IF Len(t) # 6 \/ t[4] # B("IN") \/ t[5] \notin {B("IP4"), B("IP6")} THEN [k |-> REJ]
  ELSE [k |-> Worst(IF Has(t[6], Slash) THEN REJ ELSE Worst(AddrV(t[6], t[5]), ACC) % 3, IF <<>> \in {t[1], t[2], t[3], t[6]} THEN ANY ELSE ACC),
        user |-> t[1], id |-> t[2], ver |-> t[3], addr |-> t[6]]

\* "name/rate/param"
Rtpmap(s) == LET t == Split(s, Slash) IN
  IF Len(t) < 2 THEN [k |-> REJ]
  ELSE LET r == Num(t[2], Max31)
           signed == Len(t[2]) > 1 /\ t[2][1] \in Set("+-") /\ All(Tail(t[2]), Digit)
           big == t[2] # <<>> /\ All(t[2], Digit) /\ r.k = REJ
           k0 == IF signed \/ (big /\ NumLeq(Strip0(t[2]), Max63)) THEN ANY ELSE r.k
       IN [k |-> Worst(k0, IF t[1] = <<>> \/ Len(t) > 3 THEN ANY ELSE ACC), name |-> t[1], rate |-> r.v, param |-> IF Len(t) >= 3 THEN t[3] ELSE <<>>]

\* One codec of an m= line; maps and fmtps are the lists of what follows "a=rtpmap:" and "a=fmtp:".
CodecOf(p, maps, fmtps) ==
  LET n == Num(p, B("127"))
      pre == Append(n.v, SP)
      mine == SelectSeq(maps, LAMBDA x : Starts(x, pre))
      fm == SelectSeq(fmtps, LAMBDA x : Starts(x, pre))
      f == IF fm = <<>> THEN <<>> ELSE Rest(fm[1], pre)
      dup == IF Len(mine) > 1 \/ Len(fm) > 1 THEN ANY ELSE ACC
      r == IF mine = <<>> THEN [k |-> IF IntOf(n.v) \in StdPts THEN ACC ELSE REJ] ELSE Rtpmap(Rest(mine[1], pre))
  IN IF n.k = REJ THEN [k |-> REJ]
     ELSE IF r.k = REJ /\ dup = ACC THEN [k |-> REJ]
     ELSE IF r.k = REJ THEN [k |-> ANY, v |-> StdCodec(0)]
     ELSE [k |-> Worst(n.k, Worst(dup, r.k)),
           v |-> IF mine = <<>> THEN [StdCodec(IntOf(n.v)) EXCEPT !.fmtp = f]
                 ELSE [pt |-> n.v, name |-> r.name, rate |-> r.rate, param |-> r.param, fmtp |-> f]]
\* "port proto pt pt pt"
Media(s, maps, fmtps) ==
  LET t == Split(s, SP) IN
  IF Len(t) < 3 THEN [k |-> REJ]
  ELSE LET port == Num(Split(t[1], Slash)[1], Max16)
           cs == TLCEval([i \in 1..(Len(t) - 2) |-> CodecOf(t[i + 2], maps, fmtps)])
           ks == {port.k} \cup {cs[i].k : i \in 1..Len(cs)} \cup (IF t[2] = <<>> THEN {ANY} ELSE {})
           k == CHOOSE x \in ks : \A y \in ks : x >= y
       IN IF k = REJ THEN [k |-> REJ]
          ELSE [k |-> k, v |-> [port |-> port.v, proto |-> t[2], codecs |-> [i \in 1..Len(cs) |-> cs[i].v]]]

-----------------------------------------------------------------------------
LineStarts(L, p) == LET q == SelectSeq(L, LAMBDA x : Starts(x, p)) IN [i \in 1..Len(q) |-> Rest(q[i], p)]
Known == {109, 115, 116, 99, 111, 97}      \* m s t c o a
Pair2(x, b) == LET e == Find(x, 1, b) IN IF e > Len(x) THEN <<x, <<>>>> ELSE <<Sub(x, 1, e - 1), From(x, e + 1)>>
LoneBreak(s) == \E i \in 1..Len(s) : (s[i] = CR /\ At(s, i + 1) # LF) \/ (s[i] = LF /\ At(s, i - 1) # CR)

RefSdp(s) ==
  LET V0 == B("v=0") \o CRLF IN
  IF ~Starts(s, V0) THEN [k |-> REJ]
  ELSE
  LET L == TLCEval(SelectSeq(LinesOf(Rest(s, V0), 1), LAMBDA x : Len(x) >= 3 /\ x[2] = Equal))
      os == LineStarts(L, B("o="))   cs == LineStarts(L, B("c="))   ss == LineStarts(L, B("s="))   ts == LineStarts(L, B("t="))
      as == TLCEval(LineStarts(L, B("a=")))
      au == LineStarts(L, B("m=audio "))   vi == LineStarts(L, B("m=video "))
      maps == LineStarts(as, B("rtpmap:"))   fm == LineStarts(as, B("fmtp:"))   pt == LineStarts(as, B("ptime:"))
      dir == SelectSeq(as, LAMBDA x : x \in {B("sendrecv"), B("sendonly"), B("recvonly")})
      attrs == SelectSeq(as, LAMBDA x : /\ x \notin {B("sendrecv"), B("sendonly"), B("recvonly")} /\ x[1] # Colon
                                        /\ ~Starts(x, B("rtpmap:")) /\ ~Starts(x, B("fmtp:")) /\ ~Starts(x, B("ptime:")))
      other == SelectSeq(L, LAMBDA x : x[1] \notin Known /\ x[1] # Equal)
      o == [i \in 1..Len(os) |-> Orig(os[i])]
      c == IF cs = <<>> THEN [k |-> REJ] ELSE Conn(cs[1])
      med(x) == IF x = <<>> THEN [k |-> ACC, m |-> <<>>]
                ELSE IF x[1] = <<>> THEN [k |-> ANY, m |-> <<>>]
                ELSE LET r == TLCEval(Media(x[1], maps, fm)) IN IF r.k = REJ THEN [k |-> IF Len(x) > 1 THEN ANY ELSE REJ, m |-> <<>>] ELSE [k |-> IF Len(x) > 1 THEN ANY ELSE r.k, m |-> <<r.v>>]
      a == TLCEval(med(au))   v == TLCEval(med(vi))
      ps == [i \in 1..Len(pt) |-> Num(pt[i], Max31)]
      pv == {ps[i].v : i \in {j \in 1..Len(ps) : ps[j].k = ACC /\ ps[j].v # Zero}}
      open == \/ Len(os) > 1 \/ Len(ss) > 1 \/ Len(ts) > 1 \/ Cardinality(pv) > 1
              \/ Cardinality({dir[i] : i \in 1..Len(dir)}) > 1
              \/ \E i \in 1..Len(ps) : ps[i].k # ACC /\ ~(~All(pt[i], Digit) /\ pt[i][1] \notin Set("+-"))
              \/ LoneBreak(s)
      rej == \/ os = <<>> \/ (\A i \in 1..Len(o) : o[i].k = REJ) \/ c.k = REJ \/ a.k = REJ \/ v.k = REJ
             \/ (au = <<>> /\ vi = <<>>)
  IN IF rej THEN [k |-> IF LoneBreak(s) THEN ANY ELSE REJ, d |-> 0]
     ELSE LET good == CHOOSE i \in 1..Len(o) : o[i].k # REJ IN
     [k |-> Worst(IF open THEN ANY ELSE ACC, Worst(o[good].k, Worst(c.k, Worst(a.k, v.k)))),
      named |-> ss # <<>>,
      d |-> [user |-> o[good].user, id |-> o[good].id, ver |-> o[good].ver, oaddr |-> o[good].addr, addr |-> c.addr,
             session |-> IF ss = <<>> THEN <<>> ELSE ss[1], time |-> IF ts = <<>> THEN B("0 0") ELSE ts[1],
             ptime |-> IF pv # {} THEN CHOOSE x \in pv : TRUE ELSE Zero,
             so |-> \E i \in 1..Len(dir) : dir[i] = B("sendonly"), ro |-> \E i \in 1..Len(dir) : dir[i] = B("recvonly"),
             attrs |-> [i \in 1..Len(attrs) |-> Pair2(attrs[i], Colon)], other |-> [i \in 1..Len(other) |-> Pair2(other[i], Equal)],
             audio |-> a.m, video |-> v.m]]

-----------------------------------------------------------------------------
(* Descriptions that can be written down and read again.                   *)
PtsOf(m) == [i \in 1..Len(m.codecs) |-> m.codecs[i].pt]
AllPts(d) == (IF d.audio = <<>> THEN <<>> ELSE PtsOf(d.audio[1])) \o (IF d.video = <<>> THEN <<>> ELSE PtsOf(d.video[1]))
Clear(s) == ~Has(s, CR) /\ ~Has(s, LF)
Word1(s) == s # <<>> /\ Clear(s) /\ ~Has(s, SP)
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
GoodCodec(c) == /\ c.name # <<>> /\ Clear(c.name) /\ ~Has(c.name, Slash) /\ Clear(c.param) /\ ~Has(c.param, Slash) /\ Clear(c.fmtp)
GoodMedia(m) == Word1(m.proto) /\ m.codecs # <<>> /\ \A i \in 1..Len(m.codecs) : GoodCodec(m.codecs[i])
Representable(d) ==
  /\ Word1(d.user) /\ Word1(d.id) /\ Word1(d.ver) /\ Word1(d.oaddr) /\ Word1(d.addr) /\ ~Has(d.oaddr, Slash) /\ ~Has(d.addr, Slash)
  /\ d.session # <<>> /\ Clear(d.session) /\ d.time # <<>> /\ Clear(d.time)
  /\ ~(d.so /\ d.ro) /\ d.audio \o d.video # <<>>
  /\ Distinct(AllPts(d))
  /\ \A i \in 1..Len(d.audio) : GoodMedia(d.audio[i])
  /\ \A i \in 1..Len(d.video) : GoodMedia(d.video[i])
  /\ \A i \in 1..Len(d.attrs) : /\ d.attrs[i][1] # <<>> /\ Clear(d.attrs[i][1]) /\ Clear(d.attrs[i][2]) /\ ~Has(d.attrs[i][1], Colon)
                                /\ (d.attrs[i][2] = <<>> => d.attrs[i][1] \notin {B("sendrecv"), B("sendonly"), B("recvonly")})
                                /\ (d.attrs[i][2] # <<>> => d.attrs[i][1] \notin {B("rtpmap"), B("fmtp"), B("ptime")})
  /\ \A i \in 1..Len(d.other) : /\ Len(d.other[i][1]) = 1 /\ d.other[i][1][1] \notin (Known \cup {Equal, CR, LF}) /\ d.other[i][2] # <<>> /\ Clear(d.other[i][2])

Fields == {"user", "id", "ver", "oaddr", "addr", "session", "time", "ptime", "so", "ro", "attrs", "other", "audio", "video"}
SdpDiff(a, b) == {f \in Fields : a[f] # b[f]}
=============================================================================
