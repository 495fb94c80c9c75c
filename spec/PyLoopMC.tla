------------------------------ MODULE PyLoopMC ------------------------------
(* Two objects of the Python interface, used alternately.                      *)
EXTENDS PyLoop
CONSTANTS MaxCalls
VARIABLES other,     \* state of the object that is not in use
          names,     \* files written, in order, with the options in force
          calls
vars == <<sysvars, opts, other, names, calls>>
Par == [f |-> 2, d |-> 1, edge |-> TRUE, cons |-> TRUE, src |-> 1, geo |-> 0]
Levels == << [nN |-> 2, inc |-> <<<<0, 1>>>>, types |-> <<<<1, 0>>>>],
             [nN |-> 3, inc |-> <<<<0, 2>>, <<2, 1>>>>, types |-> <<<<1, 0>>, <<0, 0>>>>] >>
State == <<sysvars, opts>>
Fresh(k) == <<<<k, Par, Levels, 1, {}, TRUE, <<0>>>>, PF!Default>>
Init == /\ kind = "elliptic" /\ par = Par /\ levels = Levels /\ lvl = 1 /\ dir = {} /\ dirok = TRUE /\ data = <<0>> /\ opts = PF!Default
        /\ other = Fresh("parabolic") /\ names = <<>> /\ calls = 0
Step == calls < MaxCalls /\ calls' = calls + 1
Swap == Step /\ other' = State /\ UNCHANGED names
        /\ kind' = other[1][1] /\ par' = other[1][2] /\ levels' = other[1][3] /\ lvl' = other[1][4]
        /\ dir' = other[1][5] /\ dirok' = other[1][6] /\ data' = other[1][7] /\ opts' = other[2]
Refine == Step /\ (\E L \in 1..2 : SetRefinement(L)) /\ UNCHANGED <<opts, other, names>>
Declare == Step /\ (\E s \in {<<>>, <<1, 0>>} : ReadDirichlet(s)) /\ UNCHANGED <<opts, other, names>>
Advance == Step /\ SetData([k \in 1..NDof |-> k], 2) /\ UNCHANGED <<opts, other, names>>
Option == Step /\ Query /\ UNCHANGED <<other, names>>
          /\ \E o \in {<<"fileName", "a">>, <<"fileNumber", "0">>, <<"incrementFileNumber", "false">>, <<"printFileNumber", "0">>, <<"plotEdges", "">>} :
               opts' = PF!NewOpts(opts, o[1], o[2])
Plot == Step /\ Query /\ opts' = PF!AfterPlot(opts) /\ UNCHANGED other
        /\ names' = Append(names, [name |-> PF!FileName(opts), by |-> kind, inc |-> opts.incrementFileNumber /\ opts.printFileNumber])
Next == Swap \/ Refine \/ Declare \/ Advance \/ Option \/ Plot
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* What is done with one object is invisible in the other one.
Independent == [][other' = other \/ other' = State]_vars
OptionsPersist == [][(opts' # opts /\ other' = other) => (Len(names') > Len(names) \/ UNCHANGED <<sysvars, names>>)]_vars
\* Numbered, incremented files of one object are not written again right away.
NoOverwrite == \A i \in 1..(Len(names) - 1) :
  (names[i].by = names[i + 1].by /\ names[i].inc /\ calls = Len(names)) => names[i].name # names[i + 1].name
DirichletOnlyElliptic == (kind # "elliptic" => dir = {}) /\ (kind = "elliptic" => data = Zeros(NE))
SizeOk == Len(PlotValues([k \in 1..NDof |-> 0], 0)) = (IF opts.plotEdges THEN 2 * NE ELSE 0)
=============================================================================
