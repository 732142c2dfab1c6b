------------------------------ MODULE Lexical -------------------------------
(***************************************************************************)
(* The lexical spaces of the supported XSD datatypes (XML Schema 1.1 Part  *)
(* 2) and the values their lexical forms denote.  Strings are sequences of *)
(* characters; a character is a string, printable ASCII stands for itself, *)
(* others are named "LF", "TAB", "CR", "U+00E9".  Lexical spaces are       *)
(* regular expressions over character classes, given as data and matched   *)
(* by Ends, with the extra conditions (bounds, days of a month) on top.    *)
(*                                                                         *)
(* Values: a number is [neg, digits, exp]: 0.d1 d2 .. * 10^exp, no leading *)
(* or trailing zeros, zero has no digits; dates and times are records.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Digit  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DSeq   == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DVal   == [d \in Digit |-> (CHOOSE i \in 1..10 : DSeq[i] = d) - 1]
Lower  == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper  == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alpha  == Lower \cup Upper
Hex    == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
B64    == Alpha \cup Digit \cup {"+", "/"}
B16    == {"A","E","I","M","Q","U","Y","c","g","k","o","s","w","0","4","8"}
B04    == {"A","Q","g","w"}

----------------------------------------------------------------------------
\* Regular expressions as data
Cls(S)     == [op |-> "cls", set |-> S]
Ch(c)      == Cls({c})
Not(S)     == [op |-> "not", set |-> S]
Cat(rs)    == [op |-> "cat", rs |-> rs]
Alt(rs)    == [op |-> "alt", rs |-> rs]
Star(r)    == [op |-> "star", r |-> r]
Opt(r)     == Alt(<<r, Cat(<<>>)>>)
Plus(r)    == Cat(<<r, Star(r)>>)
RECURSIVE Times(_, _)
Times(r, n) == IF n = 0 THEN Cat(<<>>) ELSE Cat(<<r, Times(r, n - 1)>>)
RECURSIVE UpTo(_, _)
UpTo(r, n) == IF n = 0 THEN Cat(<<>>) ELSE Opt(Cat(<<r, UpTo(r, n - 1)>>))
Word(cs)   == Cat([i \in DOMAIN cs |-> Ch(cs[i])])

\* the positions at which a match of re that starts at a position of I can end
RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsStar(_, _, _)
Ends(re, s, I) ==
  IF I = {} THEN {} ELSE
  CASE re.op = "cls"  -> {i + 1 : i \in {j \in I : j <= Len(s) /\ s[j] \in re.set}}
    [] re.op = "not"  -> {i + 1 : i \in {j \in I : j <= Len(s) /\ s[j] \notin re.set}}
    [] re.op = "cat"  -> EndsSeq(re.rs, 1, s, I)
    [] re.op = "alt"  -> UNION {Ends(re.rs[k], s, I) : k \in DOMAIN re.rs}
    [] re.op = "star" -> EndsStar(re.r, s, I)
EndsSeq(rs, k, s, I) == IF k > Len(rs) THEN I ELSE EndsSeq(rs, k + 1, s, Ends(rs[k], s, I))
EndsStar(r, s, I) == LET J == I \cup Ends(r, s, I) IN IF J = I THEN I ELSE EndsStar(r, s, J)
Matches(re, s) == (Len(s) + 1) \in Ends(re, s, {1})

----------------------------------------------------------------------------
\* The grammars
D       == Cls(Digit)
Sign    == Opt(Cls({"+", "-"}))
RInt    == Cat(<<Sign, Plus(D)>>)
Unsigned == Alt(<<Cat(<<Plus(D), Opt(Cat(<<Ch("."), Star(D)>>))>>), Cat(<<Ch("."), Plus(D)>>)>>)
RDec    == Cat(<<Sign, Unsigned>>)
RFloat  == Cat(<<Sign, Unsigned, Opt(Cat(<<Cls({"e", "E"}), Sign, Plus(D)>>))>>)
Specials == {<<"I","N","F">>, <<"+","I","N","F">>, <<"-","I","N","F">>, <<"N","a","N">>}
RRational == Cat(<<Sign, Plus(D), Ch("/"), Plus(D)>>)
RBool   == Alt(<<Ch("0"), Ch("1"), Word(<<"t","r","u","e">>), Word(<<"f","a","l","s","e">>)>>)
RHex    == Star(Times(Cls(Hex), 2))
SpO     == Opt(Ch(" "))
B       == Cat(<<Cls(B64), SpO>>)
RB64    == Opt(Cat(<<Star(Times(B, 4)),
                     Alt(<<Cat(<<B, B, B, Cls(B64)>>),
                           Cat(<<B, B, Cls(B16), SpO, Ch("=")>>),
                           Cat(<<B, Cls(B04), SpO, Ch("="), SpO, Ch("=")>>)>>)>>))
RLang   == LET first == Cat(<<Cls(Alpha), UpTo(Cls(Alpha), 7)>>)
               next  == Cat(<<Ch("-"), Cls(Alpha \cup Digit), UpTo(Cls(Alpha \cup Digit), 7)>>)
           IN  Cat(<<first, Star(next)>>)
\* names: what is neither ASCII punctuation, space nor control; other letters are judged as letters
Latin   == {"U+00E9", "U+00DC"}
NStartNC == Alpha \cup Latin \cup {"_"}
NStart  == NStartNC \cup {":"}
NChar   == NStart \cup Digit \cup {"-", "."}
RName   == Cat(<<Cls(NStart), Star(Cls(NChar))>>)
RNCName == Cat(<<Cls(NStartNC), Star(Cls(NChar \ {":"}))>>)
RNMTOKEN == Plus(Cls(NChar))
OtherAscii == {" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "/", ";", "<", "=", ">", "?", "@", "[", "\\", "]",
               "^", "`", "{", "|", "}", "~", "LF", "TAB", "CR"}
Breaks  == {"LF", "TAB", "CR"}
RNormal == Star(Not(Breaks))
RToken  == LET nb == Not(Breaks \cup {" "})
           IN  Opt(Cat(<<nb, Star(Cat(<<SpO, nb>>))>>))
RPlain  == Cat(<<Star(Not({})), Ch("@"), Opt(RLang)>>)
TZ      == Alt(<<Ch("Z"),
                 Cat(<<Cls({"+", "-"}),
                       Alt(<<Cat(<<Alt(<<Cat(<<Ch("0"), D>>), Cat(<<Ch("1"), Cls({"0", "1", "2", "3"})>>)>>), Ch(":"),
                                   Cls({"0", "1", "2", "3", "4", "5"}), D>>),
                             Word(<<"1", "4", ":", "0", "0">>)>>)>>)>>)
Year    == Cat(<<Opt(Ch("-")), Alt(<<Cat(<<Cls(Digit \ {"0"}), Times(D, 3), Star(D)>>), Cat(<<Ch("0"), Times(D, 3)>>)>>)>>)
DD      == Times(D, 2)
Clock   == Cat(<<DD, Ch(":"), DD, Ch(":"), DD, Opt(Cat(<<Ch("."), Plus(D)>>))>>)
Day     == Cat(<<Year, Ch("-"), DD, Ch("-"), DD>>)
RDate   == Cat(<<Day, Opt(TZ)>>)
RTime   == Cat(<<Clock, Opt(TZ)>>)
RDateTime == Cat(<<Day, Ch("T"), Clock, Opt(TZ)>>)
RStamp  == Cat(<<Day, Ch("T"), Clock, TZ>>)
RgYear  == Cat(<<Year, Opt(TZ)>>)
RgYM    == Cat(<<Year, Ch("-"), DD, Opt(TZ)>>)
RgMD    == Cat(<<Ch("-"), Ch("-"), DD, Ch("-"), DD, Opt(TZ)>>)
RgD     == Cat(<<Ch("-"), Ch("-"), Ch("-"), DD, Opt(TZ)>>)
RgM     == Cat(<<Ch("-"), Ch("-"), DD, Opt(TZ)>>)

----------------------------------------------------------------------------
\* Numbers
RECURSIVE StripL(_), StripR(_)
StripL(ds) == IF ds # <<>> /\ ds[1] = "0" THEN StripL(Tail(ds)) ELSE ds
StripR(ds) == IF ds # <<>> /\ ds[Len(ds)] = "0" THEN StripR(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
RECURSIVE ToInt(_)
ToInt(ds) == IF ds = <<>> THEN 0 ELSE ToInt(SubSeq(ds, 1, Len(ds) - 1)) * 10 + DVal[ds[Len(ds)]]
Index1(s, S) == IF \E i \in DOMAIN s : s[i] \in S THEN CHOOSE i \in DOMAIN s : s[i] \in S /\ \A j \in 1..(i - 1) : s[j] \notin S ELSE 0
Unsign(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
Neg(s)    == s # <<>> /\ s[1] = "-"
Scientific(neg, int, frac, exp) ==
  LET all  == int \o frac
      lead == Len(all) - Len(StripL(all))
      ds   == StripR(StripL(all))
  IN  IF ds = <<>> THEN [neg |-> FALSE, digits |-> <<>>, exp |-> 0]
      ELSE [neg |-> neg, digits |-> ds, exp |-> Len(int) - lead + exp]
Number(s) ==    \* s matches RFloat, with an exponent of at most 6 digits
  LET u == Unsign(s)
      e == Index1(u, {"e", "E"})
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      x == IF e = 0 THEN <<>> ELSE SubSeq(u, e + 1, Len(u))
      p == Index1(m, {"."})
      int  == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      frac == IF p = 0 THEN <<>> ELSE SubSeq(m, p + 1, Len(m))
  IN  Scientific(Neg(s), int, frac, (IF Neg(x) THEN -1 ELSE 1) * ToInt(StripL(Unsign(x))))
Exponent(s) == LET u == Unsign(s) e == Index1(u, {"e", "E"}) IN IF e = 0 THEN <<>> ELSE StripL(Unsign(SubSeq(u, e + 1, Len(u))))

RECURSIVE DigitsLT(_, _)
DigitsLT(a, b) ==       \* 0.a < 0.b
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] = b[1] THEN DigitsLT(Tail(a), Tail(b)) ELSE DVal[a[1]] < DVal[b[1]]
MagLT(x, y) == IF x.digits = <<>> THEN y.digits # <<>> ELSE IF y.digits = <<>> THEN FALSE
               ELSE IF x.exp # y.exp THEN x.exp < y.exp ELSE DigitsLT(x.digits, y.digits)
NumLT(x, y) ==
  IF x.neg # y.neg THEN x.neg
  ELSE IF x.neg THEN MagLT(y, x) ELSE MagLT(x, y)
NumLE(x, y) == ~NumLT(y, x)

I(ds) == Scientific(FALSE, ds, <<>>, 0)
Minus(x) == [x EXCEPT !.neg = (x.digits # <<>>)]
Zero == I(<<>>)
One  == I(<<"1">>)
N127 == I(<<"1","2","7">>)        N128 == I(<<"1","2","8">>)       N255 == I(<<"2","5","5">>)
N32767 == I(<<"3","2","7","6","7">>)   N32768 == I(<<"3","2","7","6","8">>)   N65535 == I(<<"6","5","5","3","5">>)
N31 == I(<<"2","1","4","7","4","8","3","6","4","7">>)   N31m == I(<<"2","1","4","7","4","8","3","6","4","8">>)
N32 == I(<<"4","2","9","4","9","6","7","2","9","5">>)
N63 == I(<<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>)
N63m == I(<<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","8">>)
N64 == I(<<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>)
\* inclusive bounds; <<>> is none
Bounds ==
  [d \in {"xsd:integer"} |-> <<<<>>, <<>>>>] @@
  "xsd:nonNegativeInteger" :> <<Zero, <<>>>> @@ "xsd:positiveInteger" :> <<One, <<>>>> @@
  "xsd:nonPositiveInteger" :> <<<<>>, Zero>> @@ "xsd:negativeInteger" :> <<<<>>, Minus(One)>> @@
  "xsd:long" :> <<Minus(N63m), N63>> @@ "xsd:int" :> <<Minus(N31m), N31>> @@ "xsd:short" :> <<Minus(N32768), N32767>> @@
  "xsd:byte" :> <<Minus(N128), N127>> @@ "xsd:unsignedLong" :> <<Zero, N64>> @@ "xsd:unsignedInt" :> <<Zero, N32>> @@
  "xsd:unsignedShort" :> <<Zero, N65535>> @@ "xsd:unsignedByte" :> <<Zero, N255>>
InBounds(d, x) == (Bounds[d][1] = <<>> \/ NumLE(Bounds[d][1], x)) /\ (Bounds[d][2] = <<>> \/ NumLE(x, Bounds[d][2]))

----------------------------------------------------------------------------
\* Dates and times
Two(s, i) == ToInt(SubSeq(s, i, i + 1))
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
TZLen(s) == IF s # <<>> /\ s[Len(s)] = "Z" THEN 1
            ELSE IF Len(s) >= 6 /\ Matches(TZ, SubSeq(s, Len(s) - 5, Len(s))) THEN 6 ELSE 0
NoTZ(s) == SubSeq(s, 1, Len(s) - TZLen(s))
\* offset in minutes, as a sequence so that "none" is of the same kind
Offset(s) ==
  LET n == TZLen(s) t == SubSeq(s, Len(s) - n + 1, Len(s))
  IN  IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<0>>
      ELSE <<(IF t[1] = "-" THEN -1 ELSE 1) * (Two(t, 2) * 60 + Two(t, 5))>>
\* y m d of a Day part; years of four digits only
YMD(s)  == <<ToInt(SubSeq(s, 1, 4)), Two(s, 6), Two(s, 9)>>
GoodYMD(x) == x[2] \in 1..12 /\ x[3] \in 1..31 /\ x[3] <= DaysIn(x[1], x[2])
\* h m s and fraction digits of a Clock part
HMS(s)  == <<Two(s, 1), Two(s, 4), Two(s, 7)>>
Frac(s) == IF Len(s) > 8 THEN StripR(SubSeq(s, 10, Len(s))) ELSE <<>>
GoodHMS(x, f) == (x[1] <= 23 /\ x[2] <= 59 /\ x[3] <= 59) \/ (x = <<24, 0, 0>> /\ f = <<>>)
NextDay(x) == IF x[3] < DaysIn(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>>
              ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
FourDigitYear(s) == s # <<>> /\ s[1] # "-" /\ (Len(s) < 5 \/ s[5] \notin Digit)
ModelledYear(s) == FourDigitYear(s) /\ SubSeq(s, 1, 4) # <<"0", "0", "0", "0">>   \* what Python's dates can represent

----------------------------------------------------------------------------
\* Verdict on a string: [judged, ok, val]; val is <<>> if only acceptance matters
V(ok, val) == [judged |-> TRUE, ok |-> ok, val |-> val]
Plainly(ok) == V(ok, <<>>)
Unjudged == [judged |-> FALSE, ok |-> FALSE, val |-> <<>>]
Num_(x) == <<[kind |-> "num", num |-> x]>>
MaxExp == [d \in {"xsd:float", "xsd:double"} |-> IF d = "xsd:float" THEN 38 ELSE 308]
MinExp == [d \in {"xsd:float", "xsd:double"} |-> IF d = "xsd:float" THEN -36 ELSE -306]

Date_(d, s) ==
  LET b == NoTZ(s) IN
  IF ~Matches(RDate, s) THEN Plainly(FALSE)
  ELSE IF ~ModelledYear(s) THEN Unjudged
  ELSE LET x == YMD(b) IN IF GoodYMD(x) THEN V(TRUE, <<[kind |-> "date", ymd |-> x]>>) ELSE Plainly(FALSE)
Time_(s) ==
  LET b == NoTZ(s) IN
  IF ~Matches(RTime, s) THEN Plainly(FALSE)
  ELSE LET x == HMS(b) f == Frac(b) IN
       IF ~GoodHMS(x, f) THEN Plainly(FALSE)
       ELSE IF Len(f) > 6 THEN Unjudged
       ELSE V(TRUE, <<[kind |-> "time", hms |-> IF x[1] = 24 THEN <<0, 0, 0>> ELSE x, frac |-> f, tz |-> Offset(s)]>>)
DateTime_(d, s) ==
  LET b == NoTZ(s) IN
  IF ~Matches(IF d = "xsd:dateTime" THEN RDateTime ELSE RStamp, s) THEN Plainly(FALSE)
  ELSE IF ~ModelledYear(s) THEN Unjudged
  ELSE LET x == YMD(b) c == SubSeq(b, 12, Len(b)) h == HMS(c) f == Frac(c) IN
       IF ~GoodYMD(x) \/ ~GoodHMS(h, f) THEN Plainly(FALSE)
       ELSE IF Len(f) > 6 \/ (h[1] = 24 /\ x = <<9999, 12, 31>>) THEN Unjudged
       ELSE V(TRUE, <<[kind |-> "datetime", ymd |-> IF h[1] = 24 THEN NextDay(x) ELSE x,
                       hms |-> IF h[1] = 24 THEN <<0, 0, 0>> ELSE h, frac |-> f, tz |-> Offset(s)]>>)
Greg(d, s) ==
  LET b == NoTZ(s) IN
  CASE d = "xsd:gYear" -> IF ~Matches(RgYear, s) THEN Plainly(FALSE)
                          ELSE IF \A i \in DOMAIN b : b[i] \in {"-", "0"} THEN Unjudged ELSE Plainly(TRUE)
    [] d = "xsd:gYearMonth" -> IF ~Matches(RgYM, s) THEN Plainly(FALSE)
                               ELSE IF Two(b, Len(b) - 1) \notin 1..12 THEN Plainly(FALSE)
                               ELSE IF \A i \in 1..(Len(b) - 3) : b[i] \in {"-", "0"} THEN Unjudged ELSE Plainly(TRUE)
    [] d = "xsd:gMonthDay" -> Plainly(Matches(RgMD, s) /\ Two(b, 3) \in 1..12 /\ Two(b, 6) \in 1..DaysIn(2000, Two(b, 3)))
    [] d = "xsd:gDay" -> Plainly(Matches(RgD, s) /\ Two(b, 4) \in 1..31)
    [] d = "xsd:gMonth" -> Plainly(Matches(RgM, s) /\ Two(b, 3) \in 1..12)

Judgement(d, s) ==
  CASE d \in {"xsd:Name", "xsd:NCName", "xsd:NMTOKEN"} /\ ~(ToSet(s) \subseteq NChar \cup OtherAscii) -> Unjudged
    [] d \in DOMAIN Bounds -> IF ~Matches(RInt, s) THEN Plainly(FALSE)
                              ELSE LET x == Number(s) IN IF InBounds(d, x) THEN V(TRUE, Num_(x)) ELSE Plainly(FALSE)
    [] d = "xsd:decimal" -> IF Matches(RDec, s) THEN V(TRUE, Num_(Number(s))) ELSE Plainly(FALSE)
    [] d = "owl:rational" ->
         IF \E i \in DOMAIN s : s[i] \in Breaks \cup {" "} THEN Unjudged
         ELSE IF Matches(RInt, s) THEN Unjudged           \* without denominator: OWL says no, the implementation yes
         ELSE Plainly(Matches(RRational, s) /\ StripL(SubSeq(s, Index1(s, {"/"}) + 1, Len(s))) # <<>>)
    [] d \in {"xsd:float", "xsd:double"} ->
         IF s \in Specials THEN V(TRUE, <<[kind |-> "special", name |-> IF s[1] = "+" THEN Tail(s) ELSE s]>>)
         ELSE IF ~Matches(RFloat, s) THEN Plainly(FALSE)
         ELSE IF Len(Exponent(s)) > 5 THEN Unjudged
         ELSE LET x == Number(s) IN
              IF x.digits = <<>> \/ (MinExp[d] <= x.exp /\ x.exp <= MaxExp[d]) THEN V(TRUE, Num_(x)) ELSE Unjudged
    [] d = "xsd:boolean" -> IF Matches(RBool, s) THEN V(TRUE, <<[kind |-> "bool", b |-> s[1] \in {"t", "1"}]>>) ELSE Plainly(FALSE)
    [] d = "xsd:hexBinary" -> Plainly(Matches(RHex, s))
    [] d = "xsd:base64Binary" -> Plainly(Matches(RB64, s))
    [] d = "xsd:language" -> Plainly(Matches(RLang, s))
    [] d = "xsd:Name" -> Plainly(Matches(RName, s))
    [] d = "xsd:NCName" -> Plainly(Matches(RNCName, s))
    [] d = "xsd:NMTOKEN" -> Plainly(Matches(RNMTOKEN, s))
    [] d = "xsd:token" -> Plainly(Matches(RToken, s))
    [] d = "xsd:normalizedString" -> Plainly(Matches(RNormal, s))
    [] d = "xsd:string" -> Plainly(TRUE)
    [] d = "rdf:PlainLiteral" -> Plainly(Matches(RPlain, s))
    [] d = "xsd:date" -> Date_(d, s)
    [] d = "xsd:time" -> Time_(s)
    [] d \in {"xsd:dateTime", "xsd:dateTimeStamp"} -> DateTime_(d, s)
    [] d \in {"xsd:gYear", "xsd:gYearMonth", "xsd:gMonthDay", "xsd:gDay", "xsd:gMonth"} -> Greg(d, s)
    [] OTHER -> Unjudged
=============================================================================
