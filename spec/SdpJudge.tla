------------------------------ MODULE SdpJudge ------------------------------
(* Judges recordings of harness/sdpdrv against SdpRef, one state each.     *)
EXTENDS SdpRef, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.REC)
Want == IOEnv.PROP
Fail(r, prop, why, what) == IF Want = "all" \/ Want = prop THEN PrintT("FAIL " \o ToJson([id |-> r.id, prop |-> prop, why |-> why, what |-> what])) ELSE TRUE
Say(r, prop, why, what) == IF what = {} THEN TRUE ELSE Fail(r, prop, why, what)
Died(p) == p.state \notin {"ok", "error", "none"}

\* A description that was parsed, written and parsed again.
Again(r) ==
  IF r.one.state # "ok" \/ ~Representable(r.one.sdp) THEN TRUE
  ELSE IF r.two.state # "ok" THEN Fail(r, "C22", "what was written is not read again", {})
  ELSE /\ Say(r, "C22", "reading what was written gives something else", SdpDiff(r.one.sdp, r.two.sdp))
       /\ IF r.one.out # r.two.out THEN Fail(r, "C22", "writing again gives other bytes", {}) ELSE TRUE
Parsed(r) ==
  LET w == RefSdp(r.txt) IN
  IF Died(r.one) THEN Fail(r, "C23", "parsing: " \o r.one.state, {})
  ELSE CASE w.k = REJ -> IF r.one.state = "error" THEN TRUE ELSE Fail(r, "C23", "accepted what is no description", {})
         [] w.k = ANY -> TRUE
         [] OTHER -> IF r.one.state # "ok" THEN Fail(r, "C23", "refused a description", {})
                     ELSE Say(r, "C23", "parsed to something else", SdpDiff(w.d, r.one.sdp) \ (IF w.named THEN {} ELSE {"session"}))
Built(r) ==
  IF r.built.state # "ok" THEN Fail(r, "C22", "writing: " \o r.built.state, {})
  ELSE IF r.copy.state # "ok" THEN Fail(r, "C22", "what was written is not read again", {})
  ELSE /\ Say(r, "C22", "reading what was written gives something else", SdpDiff(r.sdp, r.copy.sdp))
       /\ IF r.copy.out # r.built.out THEN Fail(r, "C22", "writing again gives other bytes", {}) ELSE TRUE
       /\ LET w == RefSdp(r.built.out) IN
          IF w.k # ACC THEN Fail(r, "C22", "what was written is not well-formed", {})
          ELSE Say(r, "C22", "what was written means something else", SdpDiff(w.d, r.sdp))
\* Parts that were left out are made up; the rest is as given.
Bare(r) ==
  LET d == r.sdp   w == RefSdp(r.built.out)
      blank == {f \in {"user", "id", "ver", "oaddr", "addr", "session", "time"} : d[f] = <<>>}
      made == {f \in blank : w.d[f] = <<>>}
  IN IF r.built.state # "ok" THEN Fail(r, "C22", "writing: " \o r.built.state, {})
     ELSE IF d.audio # <<>> /\ d.audio[1].codecs = <<>> THEN TRUE \* no formats: no description
     ELSE IF w.k # ACC THEN Fail(r, "C22", "what was written is not well-formed", {})
     ELSE /\ Say(r, "C22", "what was written means something else", (SdpDiff(w.d, d) \ blank) \cup made)
          /\ IF "id" \in blank /\ ~All(w.d.id, Digit) THEN Fail(r, "C22", "ill-formed id", {}) ELSE TRUE
          /\ IF r.one.state # "ok" THEN Fail(r, "C22", "what was written is not read again", {}) ELSE Say(r, "C22", "reading what was written gives something else", SdpDiff(w.d, r.one.sdp))
\* A description made from an address and formats says just that.
New(r) ==
  LET want == r.sdp   got == r.built.sdp IN
  IF r.built.state # "ok" THEN Fail(r, "C22", "making a description: " \o r.built.state, {})
  ELSE /\ Say(r, "C22", "a new description says something else", {f \in {"addr", "audio"} : want[f] # got[f]} \cup (IF got.oaddr # want.addr THEN {"oaddr"} ELSE {})
                 \cup (IF got.video # <<>> THEN {"video"} ELSE {}) \cup (IF got.so \/ got.ro \/ got.attrs # <<>> \/ got.other # <<>> \/ got.ptime # Zero THEN {"more"} ELSE {}))
       /\ Bare([r EXCEPT !.sdp = got])
Judge(r) == /\ (r.op = "build" => Built(r))
            /\ (r.op = "new" => New(r))
            /\ (r.op = "bare" => Bare(r))
            /\ Parsed(r) /\ Again(r)

VARIABLE n
Init == n = 0
Next == n < Len(Recs) /\ n' = n + 1 /\ Judge(Recs[n'])
Spec == Init /\ [][Next]_n
=============================================================================
