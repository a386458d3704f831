------------------------------- MODULE Table -------------------------------
(* Data tables (typed, named columns; rows; a header of typed, named values), *)
(* texts as sequences of characters, numbers as decimal digits, TFS files.    *)
EXTENDS Integers, Sequences, FiniteSets
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DVal == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
DChr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Blank == {" ", "\t", "\f", "\r", "\n"}
Low(c) == CASE c = "I" -> "i" [] c = "N" -> "n" [] c = "F" -> "f" [] c = "A" -> "a" [] c = "T" -> "t" [] c = "Y" -> "y" [] OTHER -> c
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
-----------------------------------------------------------------------------
(* values: t is the type; numbers are +-0.d1 d2 ... * 10^e *)
Num(t, neg, d, e) == [t |-> t, neg |-> neg, d |-> d, e |-> e, s |-> <<>>]
Txt(s) == [t |-> "s", neg |-> FALSE, d |-> <<>>, e |-> 0, s |-> s]
Spec3(neg, w) == [t |-> "d", neg |-> neg, d |-> <<>>, e |-> 0, s |-> w] \* inf, nan
Default(t) == IF t = "s" THEN Txt(<<>>) ELSE Num(t, FALSE, <<>>, 0)
RECURSIVE DropZ(_)
DropZ(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN DropZ(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE LeadZ(_, _)
LeadZ(d, i) == IF i <= Len(d) /\ d[i] = 0 THEN LeadZ(d, i + 1) ELSE i - 1
(* digits d after which the point stands at e places *)
Canon(t, neg, d, e) ==
  LET z == LeadZ(d, 1)  dd == DropZ(SubSeq(d, z + 1, Len(d))) IN
  IF dd = <<>> THEN Num(t, neg /\ t = "d", <<>>, 0) ELSE Num(t, neg, dd, e - z)
(* add one in the last place *)
RECURSIVE Incr(_)
Incr(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] < 9 THEN SubSeq(d, 1, Len(d) - 1) \o <<d[Len(d)] + 1>>
           ELSE Incr(SubSeq(d, 1, Len(d) - 1)) \o <<0>>
(* the first k digits, rounded *)
RoundTo(v, k) ==
  IF k >= Len(v.d) THEN v
  ELSE IF k < 0 THEN Num(v.t, v.neg, <<>>, 0)
  ELSE LET h == SubSeq(v.d, 1, k) IN
    IF v.d[k + 1] < 5 THEN Canon(v.t, v.neg, h, v.e)
    ELSE LET u == Incr(h) IN Canon(v.t, v.neg, u, v.e + Len(u) - k)
-----------------------------------------------------------------------------
(* text to number *)
RECURSIVE SkipB(_, _)
SkipB(x, i) == IF i <= Len(x) /\ x[i] \in Blank THEN SkipB(x, i + 1) ELSE i
RECURSIVE SkipD(_, _)
SkipD(x, i) == IF i <= Len(x) /\ x[i] \in Digits THEN SkipD(x, i + 1) ELSE i
RECURSIVE ToDigits(_, _, _)
ToDigits(x, i, j) == IF i >= j THEN <<>> ELSE <<DVal[x[i]]>> \o ToDigits(x, i + 1, j)
RECURSIVE Small(_, _, _, _)
Small(x, i, j, a) == IF i >= j THEN a ELSE Small(x, i + 1, j, MinOf(99999, 10 * a + DVal[x[i]]))
Has(x, i, c) == i <= Len(x) /\ x[i] = c
No(why) == [ok |-> FALSE, why |-> why, v |-> Txt(<<>>)]
Yes(v) == [ok |-> TRUE, why |-> {}, v |-> v]
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)
MaxI == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
MinI == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>
ParseInt(x) ==
  LET a == SkipB(x, 1)
      neg == Has(x, a, "-")
      b == IF Has(x, a, "-") \/ Has(x, a, "+") THEN a + 1 ELSE a
      c == SkipD(x, b)
  IN IF c = b THEN No({"arg"})
     ELSE LET dd == ToDigits(x, b, c)  z == LeadZ(dd, 1)  s == SubSeq(dd, z + 1, Len(dd))
              w == (IF SkipB(x, c) <= Len(x) THEN {"arg"} ELSE {}) \cup
                   (IF Len(s) > 10 \/ (Len(s) = 10 /\ ~LexLe(s, IF neg THEN MinI ELSE MaxI, 1)) THEN {"range"} ELSE {}) IN
       IF w # {} THEN No(w)
       ELSE Yes(Canon("i", neg, dd, Len(dd)))
Words3 == {<<"n", "a", "n">>, <<"i", "n", "f">>, <<"i", "n", "f", "i", "n", "i", "t", "y">>}
ParseReal(x) ==
  LET a == SkipB(x, 1)
      neg == Has(x, a, "-")
      b == IF Has(x, a, "-") \/ Has(x, a, "+") THEN a + 1 ELSE a
      c == SkipD(x, b)
      f == IF Has(x, c, ".") THEN SkipD(x, c + 1) ELSE c
      nd == (c - b) + (IF f > c THEN f - c - 1 ELSE 0)
      hase == Has(x, f, "e") \/ Has(x, f, "E")
      g == IF Has(x, f + 1, "-") \/ Has(x, f + 1, "+") THEN f + 2 ELSE f + 1
      h == SkipD(x, g)
      end == IF hase THEN h ELSE f
      RECURSIVE Tail3(_)
      Tail3(i) == IF i > Len(x) \/ x[i] \in Blank THEN <<>> ELSE <<Low(x[i])>> \o Tail3(i + 1)
      w == Tail3(b)
  IN IF w \in Words3 THEN
          IF SkipB(x, b + Len(w)) <= Len(x) THEN No({"arg"})
          ELSE Yes(IF w[1] = "n" THEN Spec3(FALSE, <<"n", "a", "n">>) ELSE Spec3(neg, <<"i", "n", "f">>))
     ELSE IF nd = 0 \/ (hase /\ h = g) THEN No({"arg"})
     ELSE LET ex == IF ~hase THEN 0 ELSE IF Has(x, f + 1, "-") THEN 0 - Small(x, g, h, 0) ELSE Small(x, g, h, 0)
              v == Canon("d", neg, ToDigits(x, b, c) \o (IF f > c THEN ToDigits(x, c + 1, f) ELSE <<>>), (c - b) + ex)
              why == (IF SkipB(x, end) <= Len(x) THEN {"arg"} ELSE {}) \cup (IF v.e > 309 THEN {"range"} ELSE {})
          IN IF why # {} THEN No(why) ELSE IF v.e < -323 THEN Yes(Num("d", neg, <<>>, 0)) ELSE Yes(v)
FromText(t, x) == IF t = "s" THEN Yes(Txt(x)) ELSE IF t = "i" THEN ParseInt(x) ELSE ParseReal(x)
-----------------------------------------------------------------------------
(* number to text *)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<"0">> \o Zeros(n - 1)
RECURSIVE Chars(_)
Chars(d) == IF d = <<>> THEN <<>> ELSE <<DChr[d[1] + 1]>> \o Chars(Tail(d))
Sign(v) == IF v.neg THEN <<"-">> ELSE <<>>
(* integer part, then n decimals *)
Fixed(v, n) ==
  LET r == RoundTo(v, v.e + n)
      all == IF r.e >= 0 THEN Chars(r.d) \o Zeros(r.e + n - Len(r.d)) ELSE Zeros(0 - r.e) \o Chars(r.d) \o Zeros(r.e + n - Len(r.d))
      ip == MaxOf(r.e, 0)
  IN (IF ip = 0 THEN <<"0">> ELSE SubSeq(all, 1, ip)) \o (IF n = 0 THEN <<>> ELSE <<".">> \o SubSeq(all, ip + 1, ip + n))
ToText(v) == IF v.t = "s" THEN v.s ELSE Sign(v) \o (IF v.s # <<>> THEN v.s ELSE Fixed(v, IF v.t = "i" THEN 0 ELSE 6))
(* a number halfway between two six-decimal texts may become either *)
Tie6(v) == v.t = "d" /\ v.e + 6 >= 0 /\ Len(v.d) = v.e + 7 /\ v.d[Len(v.d)] = 5
Texts6(v) == {ToText(v)} \cup (IF Tie6(v) THEN {Sign(v) \o Fixed(LET c == Canon("d", v.neg, SubSeq(v.d, 1, Len(v.d) - 1), v.e) IN IF c.d = <<>> THEN Num("d", v.neg, <<>>, 0) ELSE c, 6)} ELSE {})
(* decimals beyond what a double has are not specified *)
Printable(v) == v.e <= 9
Certain(v) == Printable(v) /\ ~Tie6(v)
-----------------------------------------------------------------------------
(* the table *)
Empty == [cols |-> <<>>, hdr |-> <<>>, rows |-> <<>>]
RECURSIVE Find(_, _, _)
Find(cs, n, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i].n = n THEN i ELSE Find(cs, n, i + 1)
Col(t, n) == Find(t.cols, n, 1)
Hdr(t, n) == Find(t.hdr, n, 1)
Types == {"d", "i", "s"}
RECURSIVE MapRows(_, _)
MapRows(rows, c) == IF rows = <<>> THEN <<>> ELSE <<rows[1] \o <<c>>>> \o MapRows(Tail(rows), c)
RECURSIVE Blankrow(_)
Blankrow(cs) == IF cs = <<>> THEN <<>> ELSE <<Default(cs[1].t)>> \o Blankrow(Tail(cs))
AddCol(t, n, ty) == [t EXCEPT !.cols = @ \o <<[n |-> n, t |-> ty]>>, !.rows = MapRows(@, Default(ty))]
HAdd(t, n, ty) == [t EXCEPT !.hdr = @ \o <<[n |-> n, t |-> ty, v |-> Default(ty)]>>]
RECURSIVE AddRows(_, _)
AddRows(t, k) == IF k = 0 THEN t ELSE AddRows([t EXCEPT !.rows = @ \o <<Blankrow(t.cols)>>], k - 1)
AddRow(t) == [t EXCEPT !.rows = @ \o <<Blankrow(t.cols)>>]
(* results an operation may report *)
AddRes(cs, n, ty) == LET w == (IF Find(cs, n, 1) # 0 THEN {"arg"} ELSE {}) \cup (IF ty \notin Types THEN {"type"} ELSE {}) IN IF w = {} THEN {"ok"} ELSE w
RECURSIVE Fill(_, _, _)
Fill(row, vs, i) == IF i > Len(vs) THEN row ELSE Fill([row EXCEPT ![i] = vs[i]], vs, i + 1)
ValsRes(t, vs) == LET w == (IF Len(vs) > Len(t.cols) THEN {"range"} ELSE {}) \cup
                           (IF \E i \in 1..MinOf(Len(vs), Len(t.cols)) : vs[i].t # t.cols[i].t THEN {"type"} ELSE {}) IN IF w = {} THEN {"ok"} ELSE w
AddVals(t, vs) == [t EXCEPT !.rows = @ \o <<Fill(Blankrow(t.cols), vs, 1)>>]
(* access to row i (counted from 0) of column n as type ty ("x": as text) *)
CellRes(t, n, i, ty) ==
  LET c == Col(t, n)
      w == IF c = 0 THEN {"range"} ELSE (IF ty # "x" /\ ty # t.cols[c].t THEN {"type"} ELSE {}) \cup (IF i >= Len(t.rows) THEN {"range"} ELSE {})
  IN IF w = {} THEN {"ok"} ELSE w
SetCell(t, n, i, v) == [t EXCEPT !.rows = [@ EXCEPT ![i + 1] = [@ EXCEPT ![Col(t, n)] = v]]]
Cell(t, n, i) == t.rows[i + 1][Col(t, n)]
TextRes(t, n, i, x) ==
  IF Col(t, n) = 0 THEN {"range"}
  ELSE LET p == FromText(t.cols[Col(t, n)].t, x)  w == (IF p.ok THEN {} ELSE p.why) \cup (IF i >= Len(t.rows) THEN {"range"} ELSE {}) IN IF w = {} THEN {"ok"} ELSE w
SetText(t, n, i, x) == SetCell(t, n, i, FromText(t.cols[Col(t, n)].t, x).v)
HRes(t, n, ty) == IF Hdr(t, n) = 0 THEN {"range"} ELSE IF ty # "x" /\ ty # t.hdr[Hdr(t, n)].t THEN {"type"} ELSE {"ok"}
HSet(t, n, v) == [t EXCEPT !.hdr = [@ EXCEPT ![Hdr(t, n)] = [@ EXCEPT !.v = v]]]
HTextRes(t, n, x) == IF Hdr(t, n) = 0 THEN {"range"} ELSE LET p == FromText(t.hdr[Hdr(t, n)].t, x) IN IF p.ok THEN {"ok"} ELSE p.why
HSetText(t, n, x) == HSet(t, n, FromText(t.hdr[Hdr(t, n)].t, x).v)
(* a row of aperture data of table u appended to t *)
S1(s) == LET RECURSIVE F(_) F(i) == IF i > Len(s) THEN <<>> ELSE <<SubSeq(s, i, i)>> \o F(i + 1) IN F(1)
ApCols == << <<S1("APERTYPE"), "s">>, <<S1("S"), "d">>, <<S1("APER_1"), "d">>, <<S1("APER_2"), "d">>, <<S1("APER_3"), "d">>, <<S1("APER_4"), "d">> >>
ApRes(t, u, i) == LET w == UNION {CellRes(u, ApCols[k][1], i, ApCols[k][2]) \cup CellRes(t, ApCols[k][1], -1, ApCols[k][2]) : k \in 1..6} IN
                  IF w = {"ok"} THEN w ELSE w \ {"ok"}
RECURSIVE ApCopy(_, _, _, _)
ApCopy(t, u, i, k) == IF k > 6 THEN t ELSE ApCopy(SetCell(t, ApCols[k][1], Len(t.rows) - 1, Cell(u, ApCols[k][1], i)), u, i, k + 1)
ApRow(t, u, i) == ApCopy(AddRow(t), u, i, 1)
-----------------------------------------------------------------------------
(* plain output: header lines, names, rows; fields ended by tabs *)
RECURSIVE Fields(_, _, _)
Fields(cs, row, i) == IF i > Len(cs) THEN <<>> ELSE ToText(row[i]) \o <<"\t">> \o Fields(cs, row, i + 1)
RECURSIVE Names(_)
Names(cs) == IF cs = <<>> THEN <<>> ELSE cs[1].n \o <<"\t">> \o Names(Tail(cs))
RECURSIVE HLines(_)
HLines(h) == IF h = <<>> THEN <<>> ELSE <<h[1].n \o <<"\t">> \o ToText(h[1].v)>> \o HLines(Tail(h))
RECURSIVE RLines(_, _)
RLines(t, i) == IF i > Len(t.rows) THEN <<>> ELSE <<Fields(t.cols, t.rows[i], 1)>> \o RLines(t, i + 1)
Ascii(t) == HLines(t.hdr) \o <<Names(t.cols)>> \o RLines(t, 1)
CanPrint(t) == (\A i \in 1..Len(t.hdr) : Certain(t.hdr[i].v)) /\ (\A i \in 1..Len(t.rows) : \A j \in 1..Len(t.cols) : Certain(t.rows[i][j]))
-----------------------------------------------------------------------------
RECURSIVE SplitAt(_, _, _, _)
(* TFS: words are separated by blanks, quotes keep blanks and make empty words *)
SplitAt(x, i, st, ws) == \* st: [w |-> word so far, q |-> within quotes, had |-> a quote was in the word]
  IF i > Len(x) THEN IF st.w # <<>> \/ st.had THEN Append(ws, st.w) ELSE ws
  ELSE IF x[i] = "\"" THEN SplitAt(x, i + 1, [st EXCEPT !.q = ~@, !.had = TRUE], ws)
  ELSE IF ~st.q /\ x[i] \in Blank THEN
         IF st.w # <<>> \/ st.had THEN SplitAt(x, i + 1, [w |-> <<>>, q |-> FALSE, had |-> FALSE], Append(ws, st.w)) ELSE SplitAt(x, i + 1, st, ws)
  ELSE SplitAt(x, i + 1, [st EXCEPT !.w = Append(@, x[i])], ws)
Split(x) == SplitAt(x, 1, [w |-> <<>>, q |-> FALSE, had |-> FALSE], <<>>)
TypeOf(w) == IF w = <<"%", "l", "e">> \/ w = <<"%", "e">> THEN "d" ELSE IF w = <<"%", "d">> THEN "i"
             ELSE IF w = <<"%", "s">> \/ (Len(w) > 2 /\ w[Len(w)] = "s") THEN "s" ELSE "?"
RECURSIVE NextLine(_, _)
NextLine(ls, i) == IF i <= Len(ls) /\ Split(ls[i]) = <<>> THEN NextLine(ls, i + 1) ELSE i
Fail == [ok |-> FALSE, t |-> Empty]
RECURSIVE ReadCols(_, _, _, _)
ReadCols(t, ns, ts, i) ==
  IF i > Len(ns) THEN [ok |-> TRUE, t |-> t]
  ELSE IF TypeOf(ts[i]) = "?" \/ Col(t, ns[i]) # 0 THEN Fail
  ELSE ReadCols(AddCol(t, ns[i], TypeOf(ts[i])), ns, ts, i + 1)
RECURSIVE ReadRow(_, _, _)
ReadRow(cs, ws, i) == IF i > Len(cs) THEN [ok |-> TRUE, r |-> <<>>]
  ELSE LET p == FromText(cs[i].t, ws[i]) IN IF ~p.ok THEN [ok |-> FALSE, r |-> <<>>]
    ELSE LET z == ReadRow(cs, ws, i + 1) IN [ok |-> z.ok, r |-> <<p.v>> \o z.r]
RECURSIVE ReadRows(_, _, _)
ReadRows(t, ls, i) ==
  IF i > Len(ls) THEN [ok |-> TRUE, t |-> t]
  ELSE LET ws == Split(ls[i]) IN
    IF ws = <<>> THEN ReadRows(t, ls, i + 1)
    ELSE IF Len(ws) # Len(t.cols) THEN Fail
    ELSE LET r == ReadRow(t.cols, ws, 1) IN IF ~r.ok THEN Fail ELSE ReadRows([t EXCEPT !.rows = Append(@, r.r)], ls, i + 1)
RECURSIVE ReadFrom(_, _, _)
ReadFrom(t, ls, i0) ==
  LET i == NextLine(ls, i0) IN
  IF i > Len(ls) THEN Fail
  ELSE LET ws == Split(ls[i]) IN
    IF ws[1] = <<"@">> THEN
      IF Len(ws) # 4 THEN Fail
      ELSE IF TypeOf(ws[3]) = "?" \/ Hdr(t, ws[2]) # 0 THEN Fail
      ELSE LET p == FromText(TypeOf(ws[3]), ws[4]) IN
        IF ~p.ok THEN Fail ELSE ReadFrom(HSet(HAdd(t, ws[2], TypeOf(ws[3])), ws[2], p.v), ls, i + 1)
    ELSE IF ws[1] # <<"*">> \/ i = Len(ls) THEN Fail
    ELSE LET ts == Split(ls[i + 1]) IN
      IF ts = <<>> THEN Fail
      ELSE IF ts[1] # <<"$">> \/ Len(ts) # Len(ws) THEN Fail
      ELSE LET c == ReadCols(t, Tail(ws), Tail(ts), 1) IN IF ~c.ok THEN Fail ELSE ReadRows(c.t, ls, i + 2)
ReadTfs(ls) == ReadFrom(Empty, ls, 1)
(* what a table is after it has been written: reals to ten digits *)
W10(v) == IF v.t = "d" THEN RoundTo(v, 10) ELSE v
RECURSIVE WRow(_)
WRow(r) == IF r = <<>> THEN <<>> ELSE <<W10(r[1])>> \o WRow(Tail(r))
RECURSIVE WRows(_)
WRows(rs) == IF rs = <<>> THEN <<>> ELSE <<WRow(rs[1])>> \o WRows(Tail(rs))
RECURSIVE WHdr(_)
WHdr(h) == IF h = <<>> THEN <<>> ELSE <<[h[1] EXCEPT !.v = W10(@)]>> \o WHdr(Tail(h))
Written(t) == [t EXCEPT !.rows = WRows(@), !.hdr = WHdr(@)]
NoneOf(s, cs) == \A i \in 1..Len(s) : s[i] \notin cs
NameOk(n) == n # <<>> /\ NoneOf(n, Blank \cup {"\""})
ValOk(v) == NoneOf(v.s, {"\"", "\n"})
(* tables that a TFS file can hold *)
Writable(t) == /\ t.cols # <<>> /\ (\A i \in 1..Len(t.cols) : NameOk(t.cols[i].n)) /\ (\A i \in 1..Len(t.hdr) : NameOk(t.hdr[i].n) /\ ValOk(t.hdr[i].v))
               /\ \A i \in 1..Len(t.rows) : \A j \in 1..Len(t.cols) : ValOk(t.rows[i][j])
(* one way to write a table *)
Sp == <<" ">>
Sci(v) == IF v.s # <<>> \/ v.t = "i" THEN ToText(v) ELSE Sign(v) \o <<"0", ".">> \o Chars(RoundTo(v, 10).d) \o <<"e">> \o
          (LET r == RoundTo(v, 10).e IN ToText(Canon("i", r < 0, LET RECURSIVE G(_) G(n) == IF n = 0 THEN <<>> ELSE G(n \div 10) \o <<n % 10>> IN G(IF r < 0 THEN 0 - r ELSE r),
             LET RECURSIVE C(_) C(n) == IF n = 0 THEN 0 ELSE 1 + C(n \div 10) IN C(IF r < 0 THEN 0 - r ELSE r))))
Quoted(v) == IF v.t = "s" THEN <<"\"">> \o v.s \o <<"\"">> ELSE Sci(v)
TName(t) == IF t = "d" THEN <<"%", "l", "e">> ELSE IF t = "i" THEN <<"%", "d">> ELSE <<"%", "s">>
RECURSIVE JoinB(_)
JoinB(ws) == IF ws = <<>> THEN <<>> ELSE ws[1] \o Sp \o JoinB(Tail(ws))
RECURSIVE PHdr(_)
PHdr(h) == IF h = <<>> THEN <<>> ELSE <<JoinB(<<<<"@">>, h[1].n, TName(h[1].t), Quoted(h[1].v)>>)>> \o PHdr(Tail(h))
RECURSIVE PNames(_)
PNames(cs) == IF cs = <<>> THEN <<>> ELSE <<cs[1].n>> \o PNames(Tail(cs))
RECURSIVE PTypes(_)
PTypes(cs) == IF cs = <<>> THEN <<>> ELSE <<TName(cs[1].t)>> \o PTypes(Tail(cs))
RECURSIVE PRow(_)
PRow(r) == IF r = <<>> THEN <<>> ELSE <<Quoted(r[1])>> \o PRow(Tail(r))
RECURSIVE PRows(_)
PRows(rs) == IF rs = <<>> THEN <<>> ELSE <<JoinB(PRow(rs[1]))>> \o PRows(Tail(rs))
PrintTfs(t) == PHdr(t.hdr) \o <<JoinB(<<<<"*">>>> \o PNames(t.cols)), JoinB(<<<<"$">>>> \o PTypes(t.cols))>> \o PRows(t.rows)
=============================================================================
