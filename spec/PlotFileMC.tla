------------------------------ MODULE PlotFileMC ------------------------------
EXTENDS PlotFile
CONSTANTS MaxPlots, MaxDim
VARIABLES n, manual, overwrote
vars == <<pvars, n, manual, overwrote>>
Cell(k, s) == [nodes |-> [f \in 1..(2 * k) |-> f - 1], lo |-> [i \in 1..3 |-> s], sp |-> [d \in 1..k |-> [i \in 1..3 |-> IF i = d THEN 10000 ELSE 0]]]
Init == /\ opts = [w \in {"loop", "direct"} |-> Default]
        /\ files = [x \in {} |-> 0] /\ dirs = {} /\ n = 0 /\ manual = FALSE /\ overwrote = FALSE
        /\ \E k \in 1..MaxDim, c \in 1..2, sd \in 1..2, nsd \in 1..2 :
             mesh = [k |-> k, nd |-> 3, ndof |-> 1, sd |-> sd, nsd |-> nsd, cells |-> [i \in 1..c |-> Cell(k, i)]]
DoSet == \E w \in {"loop"}, p \in {<<"printFileNumber", "0">>, <<"incrementFileNumber", "false">>, <<"plotEdges", "0">>,
                 <<"plotEdgeBoundaries", "1">>, <<"scale", "0.5">>, <<"boundaryScale", "0.75">>, <<"fileName", "x">>,
                 <<"fileNumber", "1">>, <<"fileEnding", "">>} :
           /\ SetOpt(w, p[1], p[2]) /\ UNCHANGED <<n, overwrote>>
           /\ manual' = (manual \/ p[1] \in {"printFileNumber", "incrementFileNumber", "fileName", "fileNumber"})
DoPlot == /\ n < MaxPlots
          /\ \E w \in {"loop", "direct"} :
               /\ Plot(w, n + 1) /\ n' = n + 1 /\ manual' = (manual \/ w = "direct")
               /\ overwrote' = (overwrote \/ FileName(opts[w]) \in DOMAIN files)
Next == DoSet \/ DoPlot
Spec == Init /\ [][Next]_vars
O == opts["loop"]
\* As long as nobody interferes with names and numbers, no file is ever overwritten and numbers are consecutive.
NothingLost == ~manual => /\ ~overwrote /\ Cardinality(DOMAIN files) = n /\ O.fileNumber = n
LastFileIsLast == \A f \in DOMAIN files : files[f] \in 1..n
\* Any file is a consistent unstructured grid.
Consistent ==
  /\ Len(Points32(O)) = NPoints(O)
  /\ Len(Types(O)) = NVtk(O) /\ Len(Offsets(O)) = NVtk(O) /\ Len(Index(O)) = NVtk(O)
  /\ NVtk(O) > 0 => Offsets(O)[NVtk(O)] = Len(Connectivity(O))
  /\ \A i \in 1..Len(Connectivity(O)) : Connectivity(O)[i] \in 0..(NPoints(O) - 1)
  /\ \A i \in 2..Len(Offsets(O)) : Offsets(O)[i] > Offsets(O)[i - 1]
\* Without scaling, corners are corners and the points of a face are corners of the hyperedge.
Unscaled == (O.scale = 4 /\ O.boundaryScale = 4 /\ O.plotEdges /\ O.plotEdgeBoundaries) =>
  \A i \in (NCells * Corners + 1)..NPoints(O) : \E j \in 1..(NCells * Corners) : Points32(O)[i] = Points32(O)[j]
=============================================================================
