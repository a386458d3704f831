------------------------------- MODULE MCText -------------------------------
(* every short text as a number and as a line of a file *)
EXTENDS Table, TLC, Json
CONSTANTS NNum, NLine, Show
VARIABLES x, mode
vars == <<x, mode>>
NumA == {"1", "5", "0", ".", "-", "e", " "}
LineA == {"a", "1", "\"", " ", "\t"}
Init == x = <<>> /\ mode \in {"num", "line"}
SameNum(a, b) == a.neg = b.neg /\ a.d = b.d /\ a.e = b.e
Neg(v) == [v EXCEPT !.neg = ~@]
NumLaws ==
  LET i == ParseInt(x)  r == ParseReal(x)  y == <<"-">> \o x  z == <<" ">> \o x \o <<"\t">>
      sx == SkipB(x, 1)
      bare == sx = 1 /\ x # <<>> /\ x[1] \in Digits \cup {"."}
  IN
  /\ (i.ok => r.ok /\ SameNum([i.v EXCEPT !.neg = FALSE], [r.v EXCEPT !.neg = FALSE]) /\ (i.v.d # <<>> => i.v.neg = r.v.neg))
  /\ ParseInt(z) = i /\ ParseReal(z) = r
  /\ (bare /\ r.ok => LET n == ParseReal(y) IN n.ok /\ n.v = Neg(r.v))
  /\ (bare /\ r.ok => ParseReal(<<"+">> \o x) = r /\ ParseReal(<<"0">> \o x) = r)
  /\ (i.ok => FromText("i", ToText(i.v)) = i)
  /\ (r.ok => ToText(FromText("d", ToText(r.v)).v) = ToText(r.v))
  /\ (r.ok /\ Len(r.v.d) <= r.v.e + 6 => FromText("d", ToText(r.v)) = r)
  /\ (r.ok => LET w == ParseReal(Sci(r.v)) IN w.ok /\ w.v = r.v /\ RoundTo(r.v, 10) = r.v)
  \* trailing zeros after the point say nothing
  /\ (r.ok /\ (\E k \in 1..Len(x) : x[k] = ".") /\ (\A k \in 1..Len(x) : x[k] # "e") /\ x[Len(x)] # " " => ParseReal(x \o <<"0">>) = r)
  \* what is not a number stays so with more of it, unless a number is completed
  /\ ((\E k \in 1..Len(x) : k > 1 /\ x[k] = " " /\ x[k - 1] # " " /\ k < Len(x) /\ x[k + 1] # " ") => ~r.ok /\ ~i.ok)
  /\ \A k \in 0..4 : r.ok => LET a == RoundTo(r.v, k) IN Len(a.d) <= MaxOf(k, 1) /\ RoundTo(a, MaxOf(k, 1)) = a
Quotes == Cardinality({k \in 1..Len(x) : x[k] = "\""})
RECURSIVE Requote(_), Plain(_)
Requote(ws) == IF ws = <<>> THEN <<>> ELSE <<"\"">> \o ws[1] \o <<"\"", "\t", " ">> \o Requote(Tail(ws))
Plain(y) == IF y = <<>> THEN <<>> ELSE (IF y[1] = "\"" THEN <<>> ELSE <<y[1]>>) \o Plain(Tail(y))
RECURSIVE Cat(_)
Cat(ws) == IF ws = <<>> THEN <<>> ELSE ws[1] \o Cat(Tail(ws))
RECURSIVE NoB(_)
NoB(y) == IF y = <<>> THEN <<>> ELSE (IF y[1] \in Blank THEN <<>> ELSE <<y[1]>>) \o NoB(Tail(y))
LineLaws ==
  LET ws == Split(x) IN
  /\ Split(Requote(ws)) = ws
  /\ (Quotes % 2 = 0 => Split(x \o <<" ">>) = ws /\ Split(x \o <<"\r">>) = ws /\ Split(<<"\t">> \o x) = ws)
  /\ (Quotes = 0 => (\A k \in 1..Len(ws) : ws[k] # <<>> /\ NoneOf(ws[k], Blank)) /\ Cat(ws) = NoB(x))
  /\ NoB(Cat(ws)) = NoB(Plain(x))
  /\ (Quotes % 2 = 0 => \A y \in {<<"b">>, <<"\"", "\"">>} : Split(x \o <<" ">> \o y \o <<" ">>) = ws \o Split(y))
Out == IF mode = "num" THEN [num |-> x, ok |-> ParseReal(x).ok] ELSE [line |-> x, n |-> Len(Split(x))]
Next == /\ Len(x) < (IF mode = "num" THEN NNum ELSE NLine)
        /\ \E c \in IF mode = "num" THEN NumA ELSE LineA : x' = Append(x, c)
        /\ mode' = mode
Checked == /\ Assert(IF mode = "num" THEN NumLaws ELSE LineLaws, <<"a law fails", mode, x>>)
           /\ (IF Show THEN PrintT("SCRIPT" \o ToJson(Out)) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
