------------------------------ MODULE SipJudge ------------------------------
(* Judges recordings of the SIP parser and serialiser (harness/sipdrv)      *)
(* against SipRef.  One state per record; complaints are printed as         *)
(* "FAIL <json>" with the property's tag.                                   *)
EXTENDS SipRef, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.REC)
Want == IOEnv.PROP           \* which property to judge, or "all"

Fail(r, prop, why, what) ==
  IF Want = "all" \/ Want = prop
  THEN PrintT("FAIL " \o ToJson([id |-> r.id, prop |-> prop, why |-> why, what |-> what])) ELSE TRUE

Broken == {"panic", "hang", "both", "neither"}

\* What a message becomes by being written: defaults are filled in.
Expected(m, seen) ==
  [m EXCEPT !.maxf = IF ~m.req THEN seen.maxf ELSE IF m.maxf = Zero THEN B("70") ELSE m.maxf,
            !.phrase = IF ~m.req /\ m.phrase = <<>> THEN seen.phrase ELSE m.phrase,
            !.vmaj = IF m.vmaj = Zero THEN B("2") ELSE m.vmaj,
            !.vmin = IF m.vmaj = Zero THEN Zero ELSE m.vmin,
            !.body = IF m.body.has /\ m.body.d # <<>> THEN m.body ELSE [has |-> FALSE, t |-> <<>>, d |-> <<>>]]
Fields(m) == {f \in DOMAIN m : f # ""}
Differ(a, b) == {f \in Fields(a) : a[f] # b[f]}

Complete(m) == /\ Len(m.from) > 0 /\ Len(m.to) > 0 /\ Len(m.via) > 0 /\ m.callid # <<>> /\ m.cseqm # <<>>
               /\ m.vmaj # Zero
Single(m) == Len(m.from) = 1 /\ Len(m.to) = 1

\* The numbers in a message.
UriPorts(as) == [i \in 1..Len(as) |-> as[i].uri.port]
ViaPorts(vs) == [i \in 1..Len(vs) |-> vs[i].port]
NumberDiff(r, m) ==
  LET D(f, S) == IF Len(r.lists[f]) = Len(m[f]) /\ UriPorts(r.lists[f]) # UriPorts(m[f]) THEN {f} ELSE {}
  IN (IF r.st.status # m.status \/ r.st.vmaj # m.vmaj \/ r.st.vmin # m.vmin THEN {"start line"} ELSE {})
     \cup (IF r.st.req /\ r.st.uri.port # m.uri.port THEN {"request URI"} ELSE {})
     \cup (IF Len(r.via) = Len(m.via) /\ ViaPorts(r.via) # ViaPorts(m.via) THEN {"via"} ELSE {})
     \cup (IF ~OneOf({c[1] : c \in r.cseq}, Zero, m.cseq) THEN {"cseq"} ELSE {})
     \cup {f \in {"exp", "maxf", "minexp"} : ~OneOf(r.nums[f], Zero, m[f])}
     \cup UNION {D(f, {}) : f \in {"from", "to", "contact", "route", "rr", "pai", "rpid"}}

\* Writing a message that was parsed and parsing it again changes nothing.
RoundTrip(r) ==
  LET m == r.one.msg IN
  IF r.one.state # "ok" \/ ~Complete(m) THEN TRUE
  ELSE IF r.two.state # "ok" THEN Fail(r, "C17", "the message that was parsed does not parse after being written: " \o r.two.state, {})
  ELSE LET d == Differ(Expected(m, r.two.msg), r.two.msg) IN
       IF d # {} THEN Fail(r, "C17", "writing and parsing changes the message", d)
       ELSE IF r.two.out # r.one.out THEN Fail(r, "C17", "writing again gives other bytes", {})
       ELSE IF Single(m)
       THEN LET w == RefMsg(r.one.out) IN
            IF w.k >= ANY THEN (IF w.k = REJ THEN Fail(r, "C17", "what was written is not well formed", {}) ELSE TRUE)
            ELSE LET e == Diff(w.v, r.two.msg) IN
                 IF e # {} THEN Fail(r, "C17", "what was written means something else", e) ELSE TRUE
       ELSE TRUE

\* "text": some bytes were parsed.
Text(r) ==
  LET ref == RefMsg(r.txt) IN
  /\ IF r.one.state \in Broken THEN Fail(r, "C18", "parser: " \o r.one.state, {}) ELSE TRUE
  /\ IF ref.k = REJ /\ r.one.state = "ok" THEN Fail(r, "C18", "accepted a message that must be refused", {}) ELSE TRUE
  /\ IF ref.k = ACC /\ r.one.state # "ok" THEN Fail(r, "C19", "refused a well-formed message", {}) ELSE TRUE
  /\ IF ref.k <= MAY /\ r.one.state = "ok"
     THEN LET d == Diff(ref.v, r.one.msg)
              n == NumberDiff(ref.v, r.one.msg)
          IN /\ IF d # {} THEN Fail(r, "C19", "parsed to something else", d) ELSE TRUE
             /\ IF n # {} THEN Fail(r, "C18", "a number has another value than the one written", n) ELSE TRUE
     ELSE TRUE
  /\ RoundTrip(r)

\* "build": an abstract message was built, written and parsed.
Build(r) ==
  LET m == r.msg IN
  IF r.built.state # "ok" THEN Fail(r, "C17", "writing: " \o r.built.state, {})
  ELSE IF r.one.state # "ok" THEN Fail(r, "C17", "the message does not parse after being written: " \o r.one.state, {})
  ELSE LET e == Expected(m, r.one.msg)
           d == Differ(e, r.one.msg)
           w == RefMsg(r.built.out)
           x == Diff(w.v, e)
       IN /\ IF d # {} THEN Fail(r, "C17", "writing and parsing changes the message", d) ELSE TRUE
          /\ IF r.one.out # r.built.out THEN Fail(r, "C17", "writing again gives other bytes", {}) ELSE TRUE
          /\ IF w.k = REJ THEN Fail(r, "C17", "what was written is not well formed", {})
             ELSE IF w.k <= MAY /\ x # {} THEN Fail(r, "C17", "what was written means something else", x) ELSE TRUE

\* "compose": txt is a spelling of msg.
Compose(r) ==
  /\ Text(r)
  /\ IF r.one.state # "ok" THEN Fail(r, "C19", "refused a spelling of a message", {})
     ELSE LET d == Differ(r.msg, r.one.msg) IN
          IF d # {} THEN Fail(r, "C19", "a spelling of a message parsed to something else", d) ELSE TRUE

\* What must survive of a text: everything up to the first character that is neither printable ASCII nor a character of UTF-8.
RECURSIVE Sure(_, _)
Sure(v, i) == IF i > Len(v) THEN Len(v)
              ELSE IF v[i] \in 32..126 THEN Sure(v, i + 1)
              ELSE IF v[i] < 128 THEN i - 1
              ELSE LET n == MbLen(v, i) IN IF n \in 2..4 /\ v[i] # 192 /\ v[i] # 193 THEN Sure(v, i + n) ELSE i - 1
\* Where a text must have ended: before the first line break that no white space follows, and the first incomplete character.
RECURSIVE Most(_, _)
Most(v, i) == IF i > Len(v) THEN Len(v)
              ELSE IF FoldAt(v, i) THEN Most(v, i + 2)
              ELSE IF v[i] \in {CR, LF} THEN i - 1
              ELSE IF v[i] < 128 THEN Most(v, i + 1)
              ELSE LET n == MbLen(v, i) IN IF n > 0 THEN Most(v, i + n) ELSE i - 1
Cut(v, got) == \E n \in Sure(v, 1)..Most(v, 1) : Unf(Sub(v, 1, n)) = Unf(got)
Names(n) == SelectSeq(n, LAMBDA c : Token[c])
CutPars(ps, got) == Len(ps) = Len(got) /\ \A i \in 1..Len(ps) : got[i][1] = Names(ps[i][1]) /\ Cut(ps[i][2], got[i][2])
CutAddrs(as, got) == Len(as) = Len(got) /\ \A i \in 1..Len(as) :
                       got[i].uri = as[i].uri /\ Cut(as[i].disp, got[i].disp) /\ CutPars(as[i].par, got[i].par)
CutVias(vs, got) == Len(vs) = Len(got) /\ \A i \in 1..Len(vs) :
                      [got[i] EXCEPT !.par = <<>>] = [vs[i] EXCEPT !.par = <<>>] /\ CutPars(vs[i].par, got[i].par)
ParTexts(as) == UNION {{as[i].par[j][2] : j \in 1..Len(as[i].par)} : i \in 1..Len(as)}
DispTexts(as) == {as[i].disp : i \in 1..Len(as)}

\* Tokens with single spaces between them.
Neat(t) == \A j \in 1..Len(t) : Token[t[j]] \/ (t[j] = SP /\ j > 1 /\ j < Len(t) /\ t[j - 1] # SP)
\* "quote": msg has display names and parameters with anything in them.
QuoteJ(r) ==
  LET m == r.msg
      Lists == {"from", "to", "contact"}
      partexts == UNION {ParTexts(m[f]) : f \in Lists} \cup ParTexts(m.via)
      disptexts == UNION {DispTexts(m[f]) : f \in Lists}
      texts == partexts \cup disptexts
      g == r.one.msg
      bad == {f \in Lists : ~CutAddrs(m[f], g[f])} \cup (IF CutVias(m.via, g.via) THEN {} ELSE {"via"})
             \cup {f \in Fields(m) \ (Lists \cup {"via"}) : m[f] # g[f]}
      w == RefMsg(r.built.out)
  IN IF r.built.state # "ok" THEN Fail(r, "C21", "writing: " \o r.built.state, {})
     ELSE IF r.one.state # "ok" THEN Fail(r, "C21", "the message does not parse after being written: " \o r.one.state, {})
     ELSE /\ IF bad # {} THEN Fail(r, "C21", "display names or parameters came back as something else", bad) ELSE TRUE
          /\ IF w.k = REJ THEN Fail(r, "C21", "what was written is not well formed", {})
             ELSE IF w.k <= MAY /\ Diff(w.v, g) # {} THEN Fail(r, "C21", "what was written means something else", Diff(w.v, g)) ELSE TRUE
          /\ IF (\A t \in partexts : All(t, Token)) /\ (\A t \in disptexts : Neat(t)) /\ Has(r.built.out, DQ) THEN Fail(r, "C21", "quoted without need", {}) ELSE TRUE
          /\ IF (\A t \in texts : \A i \in 1..Len(t) : t[i] \in 32..126 /\ t[i] \notin {DQ, 92}) /\ Has(r.built.out, 92)
             THEN Fail(r, "C21", "escaped without need", {}) ELSE TRUE

SchemePort(u, port) == IF port # Zero THEN IntOf(port) ELSE IF u.scheme = B("sips") THEN 5061 ELSE 5060
\* Lookup by name finds the last entry of that name, whatever its case.
LastOf(ps, i) == CHOOSE j \in 1..Len(ps) : /\ Lower(ps[j][1]) = Lower(ps[i][1])
                                           /\ \A k \in j + 1..Len(ps) : Lower(ps[k][1]) # Lower(ps[i][1])
FoundOk(u, found) ==
  LET np == Len(u.par)   nh == Len(u.hdr) IN
  /\ Len(found) = np + nh
  /\ \A i \in 1..np : found[i][2] = -1 \/ (found[i][2] > 0 /\ Lower(u.par[found[i][2]][1]) = Lower(u.par[i][1]))
  /\ \A i \in 1..nh : found[np + i][2] = -1 \/ (found[np + i][2] > 0 /\ Lower(u.hdr[found[np + i][2]][1]) = Lower(u.hdr[i][1]))

Uri(r) ==
  LET ref == RefURI(r.txt) IN
  /\ IF r.one.state \in Broken THEN Fail(r, "C20", "parser: " \o r.one.state, {}) ELSE TRUE
  /\ IF ref.k = REJ /\ r.one.state = "ok" THEN Fail(r, "C20", "accepted a malformed URI", {}) ELSE TRUE
  /\ IF ref.k = ACC /\ r.one.state # "ok" THEN Fail(r, "C20", "refused a well-formed URI", {}) ELSE TRUE
  /\ IF ref.k <= MAY /\ r.one.state = "ok"
     THEN /\ IF ref.v # r.one.uri THEN Fail(r, "C20", "parsed to something else", Differ(ref.v, r.one.uri)) ELSE TRUE
          /\ IF r.one.port # SchemePort(r.one.uri, r.one.uri.port) THEN Fail(r, "C20", "default port", {}) ELSE TRUE
          /\ IF ~FoundOk(r.one.uri, r.one.found) THEN Fail(r, "C20", "lookup by name", {}) ELSE TRUE
     ELSE TRUE
  /\ IF r.one.state = "ok" /\ (r.two.state # "ok" \/ r.two.uri # r.one.uri \/ r.two.out # r.one.out)
     THEN Fail(r, "C20", "writing and parsing changes the URI", {}) ELSE TRUE

UriBuild(r) ==
  LET u == r.uri IN
  IF r.built.state # "ok" THEN Fail(r, "C20", "writing: " \o r.built.state, {})
  ELSE IF r.one.state # "ok" THEN Fail(r, "C20", "does not parse after being written: " \o r.one.state, {})
  ELSE LET e == [u EXCEPT !.scheme = IF u.scheme = <<>> THEN B("sip") ELSE u.scheme]
           w == RefURI(r.built.out)
       IN /\ IF r.one.uri # e THEN Fail(r, "C20", "writing and parsing changes the URI", Differ(e, r.one.uri)) ELSE TRUE
          /\ IF r.one.out # r.built.out THEN Fail(r, "C20", "writing again gives other bytes", {}) ELSE TRUE
          /\ IF w.k = REJ \/ (w.k <= MAY /\ w.v # e) THEN Fail(r, "C20", "what was written means something else", {}) ELSE TRUE
          /\ IF r.built.port # SchemePort(e, u.port) \/ r.one.port # r.built.port THEN Fail(r, "C20", "default port", {}) ELSE TRUE
          /\ IF ~FoundOk(u, r.built.found) THEN Fail(r, "C20", "lookup by name", {}) ELSE TRUE

Judge(r) == CASE r.op = "text" -> Text(r)
              [] r.op = "build" -> Build(r)
              [] r.op = "compose" -> Compose(r)
              [] r.op = "quote" -> QuoteJ(r)
              [] r.op = "uri" -> Uri(r)
              [] r.op = "uribuild" -> UriBuild(r)

VARIABLE n
Init == n = 0
Next == n < Len(Recs) /\ n' = n + 1 /\ Judge(Recs[n'])
Spec == Init /\ [][Next]_n
=============================================================================
