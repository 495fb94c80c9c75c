------------------------------ MODULE DomainFile ------------------------------
(* The reader of domain files as an automaton that is fed one line at a time.  *)
(* A line is a sequence of words; a word is a record                           *)
(*   w    : its text,                                                          *)
(*   n    : how it reads as a number: "int", "real" or "no"                    *)
(*   v    : its integer value (leading digits), q : eight times its real value *)
EXTENDS VUtil

Header == <<"Space_Dim", "HyperEdge_Dim", "N_Points", "N_HyperNodes", "N_HyperEdges">>
Section == <<"POINTS:", "HYPERNODES_OF_HYPEREDGES:", "TYPES_OF_HYPERFACES:", "POINTS_OF_HYPEREDGES:",
             "HYPEREDGE_PROPERTIES:">>

(* ph: <<"head", i>>, <<"seek", i>>, <<"rows", i>>, <<"done">> or <<"bad">>      *)
Start == [ph |-> <<"head", 1>>, h |-> <<>>, rows |-> <<>>, sec |-> <<>>, np |-> 0]

First(ln) == IF ln = <<>> THEN "" ELSE ln[1].w
Bad(st) == [st EXCEPT !.ph = <<"bad", 0>>]

(* What must be found for the two dimensions; counts must be positive.          *)
HeadOK(i, v, kk, nn) == IF i = 1 THEN v = nn ELSE IF i = 2 THEN v = kk ELSE v > 0

Width(i, kk, nn, np) ==
  IF i = 1 THEN nn ELSE IF i \in {2, 3} THEN 2 * kk ELSE IF i = 4 THEN IPow(2, kk) ELSE np
Count(st, i) == IF i = 1 THEN st.h[3] ELSE st.h[5]
RowOK(ln, i, w) ==
  /\ Len(ln) >= w
  /\ \A j \in 1..w : IF i \in {1, 5} THEN ln[j].n \in {"int", "real"} ELSE ln[j].n = "int"
RowOf(ln, i, w) == [j \in 1..w |-> IF i \in {1, 5} THEN ln[j].q ELSE ln[j].v]

FinishSection(st, i) ==
  LET s == [st EXCEPT !.sec = Append(@, st.rows), !.rows = <<>>]
  IN IF i < 5 THEN [s EXCEPT !.ph = <<"seek", i + 1>>] ELSE [s EXCEPT !.ph = <<"done", 0>>]

Step(st, ln, kk, nn) ==
  LET p == st.ph[1]  i == st.ph[2] IN
  IF p = "head" THEN
    IF First(ln) # Header[i] THEN st
    ELSE IF Len(ln) < 3 \/ ln[2].w # "=" \/ ln[3].n = "no" \/ ~HeadOK(i, ln[3].v, kk, nn) THEN Bad(st)
    ELSE [st EXCEPT !.h = Append(@, ln[3].v), !.ph = IF i < 5 THEN <<"head", i + 1>> ELSE <<"seek", 1>>]
  ELSE IF p = "seek" THEN
    IF First(ln) # Section[i] THEN st
    ELSE IF i = 5 THEN
      IF Len(ln) < 2 \/ ln[2].n # "int" THEN [st EXCEPT !.ph = <<"rows", 5>>, !.np = 0]
      ELSE [st EXCEPT !.ph = <<"rows", 5>>, !.np = ln[2].v]
    ELSE [st EXCEPT !.ph = <<"rows", i>>]
  ELSE IF p = "rows" THEN
    LET w == Width(i, kk, nn, st.np) IN
    IF ~RowOK(ln, i, w) THEN Bad(st)
    ELSE LET s == [st EXCEPT !.rows = Append(@, RowOf(ln, i, w))] IN
         IF Len(s.rows) = Count(st, i) THEN FinishSection(s, i) ELSE s
  ELSE st

Complete(st) == st.ph = <<"seek", 5>> \/ st.ph[1] = "done"
Distinct(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
InRange(s, m) == \A a \in 1..Len(s) : s[a] \in 0..(m - 1)
Consistent(st) ==
  /\ Distinct(st.sec[1]) /\ Distinct(st.sec[2]) /\ Distinct(st.sec[4])
  /\ \A e \in 1..st.h[5] : /\ Distinct(st.sec[2][e]) /\ InRange(st.sec[2][e], st.h[4])
                           /\ Distinct(st.sec[4][e]) /\ InRange(st.sec[4][e], st.h[3])
Accepted(st) == Complete(st) /\ Consistent(st)
Domain(st) == [nE |-> st.h[5], nN |-> st.h[4], nP |-> st.h[3], points |-> st.sec[1], nodes |-> st.sec[2],
               types |-> st.sec[3], corners |-> st.sec[4],
               props |-> IF Len(st.sec) = 5 THEN st.sec[5] ELSE <<>>]
ReadAll(lines, kk, nn) == FoldLeft(LAMBDA st, ln : Step(st, ln, kk, nn), Start, lines)

(* ----------------------------------------------------------------------------- point sets *)
Dist2(p, q) == Sum([d \in 1..Len(p) |-> (p[d] - q[d]) * (p[d] - q[d])])
RECURSIVE LessPt(_, _)
LessPt(p, q) == IF p = <<>> THEN FALSE ELSE Head(p) < Head(q) \/ (Head(p) = Head(q) /\ LessPt(Tail(p), Tail(q)))
Edges(P, eps) == {e \in (1..Len(P)) \X (1..Len(P)) : e[1] < e[2] /\ Dist2(P[e[1]], P[e[2]]) <= eps * eps}
RECURSIVE Reach(_, _, _)
Reach(R, E, n) == LET X == R \cup {b \in 1..n : \E a \in R : <<a, b>> \in E \/ <<b, a>> \in E}
                  IN IF X = R THEN R ELSE Reach(X, E, n)
Connected(P, eps) == Len(P) > 0 /\ Reach({1}, Edges(P, eps), Len(P)) = 1..Len(P)
=============================================================================
