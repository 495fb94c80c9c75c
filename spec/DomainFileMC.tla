----------------------------- MODULE DomainFileMC -----------------------------
(* All files of bounded length over a small alphabet of lines.                   *)
EXTENDS DomainFile
CONSTANTS MaxLines, KK, NN
VARIABLES st, lines, acceptedBefore
Wd(t) == [w |-> t, n |-> "no", v |-> 0, q |-> 0]
Num(i) == [w |-> "#", n |-> "int", v |-> i, q |-> 8 * i]
HeadLines == {<<Wd(Header[i]), Wd("="), Num(v)>> : i \in 1..5, v \in {1, 2}}
RowLines == {<<Num(a), Num(b)>> : a \in 0..1, b \in 0..1} \cup {<<Num(1)>>}
SecLines == {<<Wd(Section[i])>> : i \in 1..4} \cup {<<Wd(Section[5]), Num(1)>>}
Alphabet == HeadLines \cup RowLines \cup SecLines \cup {<<>>, <<Wd("noise"), Num(1)>>}
Init == st = Start /\ lines = 0 /\ acceptedBefore = FALSE
\* Lines the automaton ignores are fed too, but only up to a bound.
Feed == /\ lines < MaxLines
        /\ \E ln \in Alphabet :
             /\ st' = Step(st, ln, KK, NN) /\ lines' = lines + 1
             /\ acceptedBefore' = (acceptedBefore \/ Accepted(st))
Next == Feed
Spec == Init /\ [][Next]_<<st, lines, acceptedBefore>>
SectionsFull == \A i \in 1..Len(st.sec) : Len(st.sec[i]) = Count(st, i)
RowsComplete == \A i \in 1..Len(st.sec) : \A j \in 1..Len(st.sec[i]) : Len(st.sec[i][j]) = Width(i, KK, NN, st.np)
AcceptedIsSound == Accepted(st) =>
   LET D == Domain(st) IN
   /\ Len(D.points) = D.nP /\ Len(D.nodes) = D.nE /\ Len(D.types) = D.nE /\ Len(D.corners) = D.nE
   /\ D.props # <<>> => Len(D.props) = D.nE
   /\ \A e \in 1..D.nE : \A j \in 1..Len(D.corners[e]) : D.corners[e][j] \in 0..(D.nP - 1)
   /\ \A e \in 1..D.nE : \A j \in 1..Len(D.nodes[e]) : D.nodes[e][j] \in 0..(D.nN - 1)
BadIsFinal == [][st.ph[1] = "bad" => st'.ph[1] = "bad"]_<<st, lines, acceptedBefore>>
\* Once the needed sections are there, only a broken property section can spoil the file.
OnlyPropertiesSpoil == acceptedBefore => (Accepted(st) \/ st.ph = <<"rows", 5>> \/ st.ph[1] = "bad")
=============================================================================
