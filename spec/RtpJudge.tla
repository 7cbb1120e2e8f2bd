------------------------------ MODULE RtpJudge ------------------------------
(* Judges recordings of harness/rtpdrv against RtpRef and RtpSettled.       *)
EXTENDS RtpRef, RtpSettled, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.REC)
Want == IOEnv.PROP
Fail(r, prop, why, what) == IF Want = "all" \/ Want = prop THEN PrintT("FAIL " \o ToJson([id |-> r.id, prop |-> prop, why |-> why, what |-> what])) ELSE TRUE
Say(r, prop, why, what) == IF what = {} THEN TRUE ELSE Fail(r, prop, why, what)
If(ok, r, prop, why) == IF ok THEN TRUE ELSE Fail(r, prop, why, {})
Owner(r) == CASE r.op \in {"hdr", "read", "event", "char"} -> {"C24"} [] r.op \in {"ulaw", "linear"} -> {"C29"} [] r.op = "mix" -> {"C30"}
              [] r.op = "noise" -> {"C33"} [] r.op = "send" -> {"C25", "C26"} [] r.op = "recv" -> {"C27", "C28"} [] r.op = "storm" -> {"C27", "C28"} [] OTHER -> {"C28"}
Diff(a, b) == {f \in DOMAIN a : a[f] # b[f]}

-----------------------------------------------------------------------------
Headers(r) ==
  CASE r.op = "hdr" ->
         /\ If(r.res.out = r.pre \o HdrBytes(r.h), r, "C24", "header written wrong")
         /\ If(r.res.kept, r, "C24", "writing a header touches what was there")
         /\ IF ~r.res.ok THEN Fail(r, "C24", "does not read the header it wrote", {})
            ELSE Say(r, "C24", "header read back differently", Diff([r.h EXCEPT !.pt = @ % 128], r.res.h))
    [] r.op = "read" ->
         IF HdrGood(r.b) # r.res.ok THEN Fail(r, "C24", IF r.res.ok THEN "accepts what is no header" ELSE "refuses a header", {})
         ELSE IF r.res.ok THEN Say(r, "C24", "header read differently", Diff(HdrOf(r.b), r.res.h)) ELSE TRUE
    [] r.op = "event" ->
         /\ If(r.res.out = EvBytes(r.ev) \o SubSeq(r.b, 5, Len(r.b)), r, "C24", "event header written wrong")
         /\ Say(r, "C24", "event header read back differently", Diff([r.ev EXCEPT !.vol = @ % 64], r.res.ev))
         /\ Say(r, "C24", "event header read differently", Diff(EvOf(r.b), r.res.ev2))
    [] r.op = "char" ->
         /\ If(r.res.event = EventOf(r.n), r, "C24", "event of a character")
         /\ If(r.res.char = CharOf(r.n), r, "C24", "character of an event")
    [] r.op = "ulaw" -> Say(r, "C29", "samples encoded differently", {r.from + i - 1 : i \in {j \in 1..r.n : r.res.codes[j] # Enc(r.from + j - 1)}})
    [] r.op = "linear" -> Say(r, "C29", "codes decoded differently", {r.from + i - 1 : i \in {j \in 1..r.n : r.res.codes[j] # Dec(r.from + j - 1)}})
    [] OTHER ->    \* mix
         LET b == IF r.same THEN r.a ELSE r.b
             want == Mixed(r.a, b) IN
         /\ Say(r, "C30", "mixed differently", {i \in 1..160 : r.res.dst[i] # want[i]})
         /\ If(r.same \/ r.res.src = r.b, r, "C30", "the source is changed")
         /\ If(r.res.kept, r, "C30", "memory around the frames is changed")

-----------------------------------------------------------------------------
(* A history of sending: the set of positions the stream may be at.         *)
Pkts(o) == [i \in 1..Len(o.pkts) |-> o.pkts[i].b]
To(o) == {o.pkts[i].to : i \in 1..Len(o.pkts)}
Both(r, what, why, x) == Fail(r, what, why, x)
\* Where a packet that was seen says the stream was.
Fits(S, k) == {p \in S : SubSeq(k, 3, 12) = Two(p.seq) \o Four(p.ts) \o Four(p.ssrc)}
Numbers(ks) == \A i \in 1..(Len(ks) - 1) : Word(ks[i + 1], 3) = (Word(ks[i], 3) + 1) % 65536 /\ SubSeq(ks[i + 1], 5, 12) = SubSeq(ks[i], 5, 12)

RECURSIVE Run(_, _, _, _, _)
\* S the positions, peer, deny: do writes fail?
Run(r, j, S, peer, deny) ==
  IF j > Len(r.ops) THEN TRUE
  ELSE
  LET o == r.ops[j]
      d == r.res.ops[j]
      ks == Pkts(d)
      may == peer \notin {0, 3} /\ deny = 0
      Lost(what) == Fail(r, "C25", "packet out of sequence", what)
      Wrong(what) == Fail(r, "C25", what, {})
      Single(pt, payload, samples) ==
        IF peer = 0 THEN IF ks # <<>> THEN Wrong("sent without a peer") ELSE IF d.err THEN Wrong("an error without a peer") ELSE Run(r, j + 1, S, peer, deny)
        ELSE IF ~may THEN IF ks # <<>> THEN Wrong("sent where sending fails") ELSE IF ~d.err THEN Wrong("a failed write is no error")
                          ELSE Run(r, j + 1, UNION {Perhaps(p, samples) : p \in S}, peer, deny)
        ELSE IF d.err \/ Len(ks) # 1 THEN Wrong("not sent as one packet")
        ELSE IF To(d) # {peer} THEN Wrong("sent to another address")
        ELSE IF Len(ks[1]) < 12 THEN Wrong("no header")
        ELSE LET F == Fits(S, ks[1]) IN
             IF F = {} THEN Lost({})
             ELSE IF IsBit(ks[1][2], 128) THEN Wrong("audio is marked") /\ Fail(r, "C26", "audio is marked", {})
             ELSE IF ks[1] # AudioHdr(CHOOSE p \in F : TRUE, pt) \o payload THEN Wrong("packet differs")
             ELSE IF ~d.kept THEN Wrong("sending changes the audio")
             ELSE Run(r, j + 1, {After(p, 1, samples) : p \in F}, peer, deny)
  IN CASE o.o = "peer" -> Run(r, j + 1, S, o.n, deny)
       [] o.o = "deny" -> Run(r, j + 1, S, peer, o.n)
       [] o.o = "frame" -> Single(Ulaw, [i \in 1..160 |-> EncT[o.x[i]]], FrameSamples)
       [] o.o = "raw" -> Single(o.n, o.x, o.samps)
       [] OTHER ->
            LET code == EventOf(o.n) IN
            IF code = -1 THEN
              IF ks # <<>> THEN Fail(r, "C26", "an invalid digit sends something", {})
              ELSE IF ~d.err THEN Fail(r, "C26", "an invalid digit is no error", {})
              ELSE /\ If(~d.moved, r, "C26", "an invalid digit moves the stream")
                   /\ Run(r, j + 1, S, peer, deny)
            ELSE IF peer = 0 THEN IF ks # <<>> THEN Wrong("sent without a peer") ELSE IF d.err THEN Fail(r, "C26", "an error without a peer", {}) ELSE Run(r, j + 1, S, peer, deny)
            ELSE IF ~may /\ ks # <<>> THEN Wrong("sent where sending fails")
            ELSE IF ~may /\ ~d.err THEN Fail(r, "C26", "a failed write is no error", {})
            ELSE IF may /\ d.err /\ o.late = 0 THEN Fail(r, "C26", "a digit is refused", {})
            ELSE IF ks = <<>> THEN IF d.err THEN Run(r, j + 1, UNION {Perhaps(p, NoSamples) : p \in S}, peer, deny)
                                   ELSE Fail(r, "C26", "a digit sends nothing", {})
            ELSE IF To(d) # {peer} THEN Wrong("sent to another address")
            ELSE LET bad == Burst(code, ks, ~d.err) IN
                 IF bad = {"no events of four octets"} THEN Fail(r, "C26", "burst", bad)
                 ELSE /\ Say(r, "C26", "burst", bad)
                      /\ LET F == Fits(S, ks[1]) IN
                           IF F = {} \/ ~Numbers(ks) THEN Lost({})
                           ELSE LET G == {After(p, Len(ks), NoSamples) : p \in F} IN
                                Run(r, j + 1, IF d.err THEN UNION {Perhaps(p, NoSamples) : p \in G} ELSE G, peer, deny)
Sending(r) == Run(r, 1, {Pos(r.start.seq, r.start.ts, r.start.ssrc)}, 0, 0)

-----------------------------------------------------------------------------
(* A history of receiving.                                                 *)
Frame(b) == [i \in 1..160 |-> DecT[b[i + 12]]]
RECURSIVE Heard(_, _, _, _)
\* s: RtpSettled; ps: the packets sent so far
Heard(r, j, s, ps) ==
  IF j > Len(r.ops) THEN
    IF r.res.closed # "ok" THEN Fail(r, "C28", "closing: " \o r.res.closed, {})
    ELSE /\ If(r.res.held, r, "C27", "a frame changes in the hands of the application")
         /\ Say(r, "C28", "after closing", (IF r.res.cdone THEN {} ELSE {"the channel of frames is open"}) \cup (IF r.res.edone THEN {} ELSE {"the channel of errors is open"})
                                           \cup (IF r.res.free THEN {} ELSE {"the port is taken"}))
  ELSE LET op == r.ops[j].o
           d == r.res.ops[j]
           p == IF op \in {"good", "bad"} THEN Append(ps, r.ops[j].b) ELSE ps
           go == Heard(r, j + 1, Does(s, op), p)
       IN CASE op = "take" -> IF d.got # "frame" THEN Fail(r, "C27", "no frame: " \o d.got, {})
                              ELSE IF d.f # Frame(ps[s.offer]) THEN Fail(r, "C27", "another frame", {})
                              ELSE go
            [] op = "peek" -> IF d.got = Nothing(s) THEN go
                              ELSE IF d.got = "frame" THEN Fail(r, "C27", "a frame that should not be", {})
                              ELSE IF s.st \in Reading THEN Fail(r, "C27", "reception ends", {}) ELSE Fail(r, "C28", "reception does not end", {})
            [] op = "noerr" -> IF s.st = "failed" THEN IF d.got = "closed" THEN go ELSE Fail(r, "C28", "the error comes again: " \o d.got, {})
                               ELSE IF d.got = "none" THEN go ELSE Fail(r, "C28", "an error out of nothing: " \o d.got, {})
            [] op = "err" -> IF d.got = "error" THEN go ELSE Fail(r, "C28", "the error is not reported: " \o d.got, {})
            [] op = "give" -> IF ~d.kept THEN Fail(r, "C27", "a frame changes in the hands of the application", {})
                              ELSE IF d.got # "ok" THEN Fail(r, "C27", "the frame is not taken back", {}) ELSE go
            [] OTHER -> go

\* Under load: some first part of the good packets, unchanged while held; then closed.
Storm(r) ==
  LET good == SelectSeq(r.pkts, LAMBDA b : Len(b) = 172 /\ HdrGood(b) /\ b[2] % 128 = Ulaw)
      got == r.res.frames IN
  /\ If(Len(got) <= Len(good) /\ \A i \in 1..Len(got) : i <= Len(good) => got[i] = Frame(good[i]), r, "C27", "other frames than were sent")
  /\ If(r.res.held, r, "C27", "a frame changes in the hands of the application")
  /\ If(r.res.closed = "ok", r, "C28", "closing: " \o r.res.closed)
  /\ If(r.res.closed # "ok" \/ (r.res.cdone /\ r.res.edone /\ r.res.free), r, "C28", "after closing")

Ports(r) == Say(r, "C28", "port", {<<r.res.ports[i].port, r.res.ports[i].err>> : i \in {j \in 1..Len(r.res.ports) : LET p == r.res.ports[j] IN p.err # "" \/ p.port % 2 = 1 \/ p.port < 16384 \/ p.port > 32768}})
Asked(r) == IF r.taken THEN If(r.res.err # "", r, "C28", "opened on a port that is taken")
            ELSE If(r.res.err = "" /\ r.res.got = r.res.port, r, "C28", "not on the port asked for")

\* Comfort noise.
Level(r) == IF r.ctor = "dbov" THEN r.level ELSE r.level - Dbm0
Noise(r) ==
  LET x == r.res.x
      N == Len(x)
      rms10 == Rms10(Level(r))
      z == TLCEval([i \in 1..N |-> (x[i] * 1000) \div rms10])       \* hundredths of the rms, rounded down
      clip == 327670000 \div rms10                                 \* where 32767 is, in the same units times 10
      Sum(f) == SumOf(f)
      Parts(k) == (Cardinality({i \in 1..N : Abs(2 * z[i] + 1) < 2 * k}) * 1000) \div N   \* how many of a thousand are within k
      Near(a, b, tol) == Abs(a - b) <= tol
      inside == {t \in {<<25, 197>>, <<50, 383>>, <<67, 497>>, <<100, 683>>, <<150, 866>>, <<200, 954>>, <<300, 997>>} : t[1] * 11 < clip}
      coarse == rms10 < 300
      tol == IF coarse THEN 60 ELSE 45
      loud == clip < 400 * 10
      sq == TLCEval([i \in 1..N |-> z[i] * z[i]])
      power == Sum(sq) \div N
      mean == Sum(z) \div N
      lags == {k \in 1..8 : Abs(SumOf([i \in 1..(N - k) |-> (z[i] * z[i + k]) \div 10]) \div N) > 90}
      fourth == Sum([i \in 1..N |-> (sq[i] \div 100) * (sq[i] \div 100)]) \div N
  IN /\ If(r.res.same, r, "C33", "not deterministic")
     /\ If(\A i \in 1..N : x[i] \in -32768..32767, r, "C33", "no samples")
     /\ IF rms10 < 20 THEN TRUE   \* too quiet to measure
        ELSE /\ Say(r, "C33", "not the distribution of Gaussian noise of this level", {<<t[1], t[2], Parts(t[1])>> : t \in {u \in inside : ~Near(Parts(u[1]), u[2], IF coarse THEN 1000 ELSE tol)}})
             /\ (loud \/ If(Near(power, 10000, IF coarse THEN 3000 ELSE 1200), r, "C33", "another power"))
             /\ (loud \/ Say(r, "C33", "not white", lags))
             /\ (loud \/ coarse \/ If(Near(fourth, 30000, 9000), r, "C33", "not Gaussian"))
             /\ If(Near(mean, 0, IF coarse THEN 30 ELSE 9), r, "C33", "not centred")
             /\ IF clip < 1500 THEN If(\E i \in 1..N : x[i] = 32767, r, "C33", "does not reach the upper limit") /\ If(\E i \in 1..N : x[i] = -32768, r, "C33", "does not reach the lower limit") ELSE TRUE

Judge(r) ==
  IF r.res.state # "ok" THEN \A p \in Owner(r) : Fail(r, p, r.op \o ": " \o r.res.state, {})
  ELSE CASE r.op = "send" -> Sending(r)
         [] r.op = "recv" -> Heard(r, 1, S0, <<>>)
         [] r.op = "storm" -> Storm(r)
         [] r.op = "slam" -> If(r.res.bad = 0, r, "C28", "closing does not return")
         [] r.op = "noise" -> Noise(r)
         [] r.op = "ports" -> Ports(r)
         [] r.op = "asked" -> Asked(r)
         [] OTHER -> Headers(r)

VARIABLE n
Init == n = 0
Next == n < Len(Recs) /\ n' = n + 1 /\ Judge(Recs[n'])
Spec == Init /\ [][Next]_n
=============================================================================
