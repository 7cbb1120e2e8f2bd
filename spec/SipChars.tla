------------------------------ MODULE SipChars ------------------------------
(* Bytes, character classes and numbers of RFC 3261 (section 25.1).         *)
(* Text is a sequence of bytes (0..255); numbers in text are sequences of   *)
(* digits, so that they may exceed the integers of TLC.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* All printable characters but the percent sign, which SANY does not take in a string.
Printables == " !\"#$&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printables, j, j) : j \in 1..94} |->
             LET j == CHOOSE j \in 1..94 : SubSeq(Printables, j, j) = ch IN IF j <= 5 THEN 31 + j ELSE 32 + j]
\* The bytes of a string.
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
Set(str) == {CodeOf[SubSeq(str, i, i)] : i \in 1..Len(str)}
Cls(S) == [b \in 0..255 |-> b \in S]

CR == 13   LF == 10   SP == 32   HTAB == 9   DQ == 34
CRLF == <<13, 10>>

UpperS  == 65..90
LowerS  == 97..122
DigitS  == 48..57
AlphaS  == UpperS \cup LowerS
AlNumS  == AlphaS \cup DigitS
MarkS   == Set("-_.!~*'()")
UnresS  == AlNumS \cup MarkS
ResS    == Set(";/?:@&=+$,")
TokenS  == AlNumS \cup {37} \cup Set("-.!*_+`'~")
WordS   == TokenS \cup Set("()<>:\\\"/[]?{}")
UserS   == UnresS \cup Set("&=+$,;?/")
PassS   == UnresS \cup Set("&=+$,")
ParamS  == UnresS \cup Set("[]/:&+$")
HeaderS == UnresS \cup Set("[]/?:+$")
HostS   == AlNumS \cup Set("-.")
TelS    == HostS \cup Set("+")
V6S     == DigitS \cup Set("abcdefABCDEF.:")
SchemeS == AlNumS \cup Set("+-.")
ReasonS == ResS \cup UnresS \cup {SP, HTAB}
QdtextS == {33} \cup (35..91) \cup (93..126)
PairS   == (0..9) \cup {11, 12} \cup (14..127)

Alpha   == Cls(AlphaS)
Digit   == Cls(DigitS)
XDigit  == Cls(DigitS \cup Set("abcdefABCDEF"))
Token   == Cls(TokenS)
Word    == Cls(WordS)
User    == Cls(UserS)
Pass    == Cls(PassS)
ParamC  == Cls(ParamS)
HeaderC == Cls(HeaderS)
HostC   == Cls(HostS)
TelC    == Cls(TelS)
V6      == Cls(V6S)
SchemeC == Cls(SchemeS)
Reason  == Cls(ReasonS)
Qdtext  == Cls(QdtextS)
Pair    == Cls(PairS)
Wsp     == Cls({SP, HTAB})
NotWsp  == Cls((0..255) \ {SP, HTAB})
UriEnd  == Cls({44, 59, 63, SP, HTAB, CR})     \* where an address without brackets ends
NotUriEnd == [b \in 0..255 |-> ~UriEnd[b]]

\* The first position from i on that is not in the class.
RECURSIVE Run(_, _, _)
Run(s, i, c) == IF i <= Len(s) /\ c[s[i]] THEN Run(s, i + 1, c) ELSE i

\* The first position from i on that holds b, or Len(s)+1.
RECURSIVE Find(_, _, _)
Find(s, i, b) == IF i > Len(s) \/ s[i] = b THEN i ELSE Find(s, i + 1, b)

At(s, i) == IF 1 <= i /\ i <= Len(s) THEN s[i] ELSE -1
Sub(s, i, j) == SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)     \* inclusive; empty if j < i
From(s, i) == SubSeq(s, i, Len(s))
All(s, c) == \A i \in 1..Len(s) : c[s[i]]
Has(s, b) == \E i \in 1..Len(s) : s[i] = b

Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in UpperS THEN s[i] + 32 ELSE s[i]]
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in LowerS THEN s[i] - 32 ELSE s[i]]

-----------------------------------------------------------------------------
(* Numbers.                                                                *)
RECURSIVE Strip0(_)
Strip0(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip0(Tail(d)) ELSE d
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
RECURSIVE IntOf(_)
IntOf(d) == IF d = <<>> THEN 0 ELSE IntOf(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)] - 48
Zero == <<48>>
Max8  == B("255")
Max16 == B("65535")
Max31 == B("2147483647")
Max63 == B("9223372036854775807")

-----------------------------------------------------------------------------
(* Multibyte characters, in the generous definition of RFC 3261.           *)
LeadLen(b) == IF b < 192 \/ b > 253 THEN 0
              ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE IF b < 252 THEN 5 ELSE 6
\* Length of the multibyte character at i, or 0.
MbLen(s, i) == LET n == LeadLen(s[i])
               IN IF n > 0 /\ i + n - 1 <= Len(s) /\ \A j \in i + 1 .. i + n - 1 : s[j] \in 128..191 THEN n ELSE 0

\* Is there a folded line at i: CRLF followed by white space?
FoldAt(s, i) == At(s, i) = CR /\ At(s, i + 1) = LF /\ At(s, i + 2) \in {SP, HTAB}

\* Skips white space and folds; n counts the folds.
RECURSIVE SkipN(_, _, _)
SkipN(s, i, n) == IF At(s, i) \in {SP, HTAB} THEN SkipN(s, i + 1, n)
                  ELSE IF FoldAt(s, i) THEN SkipN(s, i + 2, n + 1) ELSE [i |-> i, n |-> n]
Skip(s, i) == SkipN(s, i, 0).i

\* Every fold, with the white space around it, becomes a single space.
RECURSIVE Unf(_)
Unf(s) ==
  IF \A i \in 1..Len(s) : s[i] # CR THEN s
  ELSE LET c == CHOOSE i \in 1..Len(s) : s[i] = CR /\ \A j \in 1..(i - 1) : s[j] # CR
           RECURSIVE Back(_)
           Back(i) == IF At(s, i) \in {SP, HTAB} THEN Back(i - 1) ELSE i
       IN IF ~FoldAt(s, c) THEN Sub(s, 1, c) \o Unf(From(s, c + 1))
          ELSE Sub(s, 1, Back(c - 1)) \o <<SP>> \o Unf(From(s, Skip(s, c)))
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ s[Len(s)] \in {SP, HTAB} THEN TrimR(Sub(s, 1, Len(s) - 1)) ELSE s
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ s[1] \in {SP, HTAB} THEN TrimL(Tail(s)) ELSE s
\* What a text header value means.
Norm(s) == TrimL(TrimR(Unf(s)))
\* Runs of white space become one space.
RECURSIVE Collapse(_)
Collapse(s) == IF Len(s) < 2 THEN s
               ELSE IF s[1] \in {SP, HTAB} /\ s[2] \in {SP, HTAB} THEN Collapse(<<SP>> \o From(s, 3))
               ELSE <<(IF s[1] = HTAB THEN SP ELSE s[1])>> \o Collapse(Tail(s))
=============================================================================
