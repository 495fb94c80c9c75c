------------------------------- MODULE PlotFile -------------------------------
(* Plotting: named options, numbered output files and what is written in them. *)
(* Lengths are in units of 1/10000, scaling factors in quarters.               *)
EXTENDS VUtil, TLC
VARIABLES opts,    \* the options of the problem and of a plot made directly: "loop", "direct" -> record
          files,   \* name -> contents (abstract)
          dirs,    \* existing directories
          mesh     \* what is plotted: dimensions and hyperedges
pvars == <<opts, files, dirs, mesh>>

Default == [outputDir |-> "output", fileName |-> "example", fileNumber |-> 0, printFileNumber |-> TRUE,
            incrementFileNumber |-> TRUE, plotEdges |-> TRUE, plotEdgeBoundaries |-> FALSE,
            scale |-> 4, boundaryScale |-> 4, numbers |-> FALSE]
Strings == {"outputDir", "fileName"}
Flags == {"printFileNumber", "incrementFileNumber", "plotEdges", "plotEdgeBoundaries"}
Factors == {"scale", "boundaryScale"}
Known == Strings \cup Flags \cup Factors \cup {"fileNumber", "fileEnding"}
Quarters == [s \in {"1", "1.", "1.0", "0.5", ".5", "0.75", "0.25", "2"} |->
              CASE s \in {"1", "1.", "1.0"} -> 4 [] s \in {"0.5", ".5"} -> 2 [] s = "0.75" -> 3 [] s = "0.25" -> 1 [] s = "2" -> 8]
Shown(q) == CASE q = 4 -> "1.000000" [] q = 2 -> "0.500000" [] q = 3 -> "0.750000" [] q = 1 -> "0.250000" [] q = 8 -> "2.000000"
Numbers == 0..400 \cup {999, 1000, 4096, 10000, 123456}
IsNumber(s) == \E n \in Numbers : ToString(n) = s
NumberOf(s) == CHOOSE n \in Numbers : ToString(n) = s

\* An empty value only asks; anything unknown is refused.
Refused(name, value) == name \notin Known \/ (name = "fileEnding" /\ value \notin {"", "vtu"})
\* A value that cannot be read as a number raises an exception.
Unreadable(name, value) == value # "" /\ ((name = "fileNumber" /\ ~IsNumber(value)) \/ (name \in Factors /\ value \notin DOMAIN Quarters))
NewOpts(o, name, value) ==
  IF value = "" \/ name = "fileEnding" THEN o
  ELSE CASE name \in Strings -> [o EXCEPT ![name] = value]
         [] name \in Flags -> [o EXCEPT ![name] = (value \in {"true", "1"})]
         [] name \in Factors -> [o EXCEPT ![name] = Quarters[value]]
         [] name = "fileNumber" -> [o EXCEPT ![name] = NumberOf(value)]
Answer(o, name) ==
  CASE name \in Strings -> o[name]
    [] name \in Flags -> (IF o[name] THEN "1" ELSE "0")
    [] name \in Factors -> Shown(o[name])
    [] name = "fileNumber" -> ToString(o[name])
    [] name = "fileEnding" -> "vtu"

FileName(o) == o.outputDir \o "/" \o o.fileName \o (IF o.printFileNumber THEN "." \o ToString(o.fileNumber) ELSE "") \o ".vtu"
\* The directory is created, but not its parents.
CanWrite(o) == o.outputDir \notin {"missing/sub"} \/ "missing" \in dirs
AfterPlot(o) == IF o.incrementFileNumber THEN [o EXCEPT !.fileNumber = @ + 1] ELSE o

(* ------------------------------------------------------------- contents    *)
K == mesh.k
NCells == Len(mesh.cells)
Corners == IPow(2, K)
FCorners == IPow(2, K - 1)
Bit(j, d) == (j \div IPow(2, d - 1)) % 2
Comps == Max2(mesh.sd, mesh.nsd)
Flat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
NPoints(o) == (IF o.plotEdges THEN NCells * Corners ELSE 0) + (IF o.plotEdgeBoundaries THEN NCells * 2 * K * FCorners ELSE 0)
NVtk(o) == (IF o.plotEdges THEN NCells ELSE 0) + (IF o.plotEdgeBoundaries THEN NCells * 2 * K ELSE 0)
\* the point with reference coordinates t / 32, times 32
At32(c, t) == [i \in 1..3 |-> IF i > mesh.nd THEN 0 ELSE 32 * c.lo[i] + Sum([d \in 1..K |-> t[d] * c.sp[d][i]])]
EdgeRef(o, j) == [d \in 1..K |-> 16 + (IF Bit(j, d) = 1 THEN 4 ELSE -4) * o.scale]
FaceRef(o, b, j) == [d \in 1..K |->
  IF b \div 2 = d - 1 THEN 16 + (IF b % 2 = 1 THEN 4 ELSE -4) * o.boundaryScale
  ELSE 16 + (IF Bit(j, IF d - 1 < b \div 2 THEN d ELSE d - 1) = 1 THEN 1 ELSE -1) * o.scale * o.boundaryScale]
Points32(o) ==
  (IF o.plotEdges THEN Flat([c \in 1..NCells |-> [j \in 1..Corners |-> At32(mesh.cells[c], EdgeRef(o, j - 1))]]) ELSE <<>>) \o
  (IF o.plotEdgeBoundaries THEN Flat([c \in 1..NCells |-> Flat([b \in 1..(2 * K) |->
      [j \in 1..FCorners |-> At32(mesh.cells[c], FaceRef(o, b - 1, j - 1))]])]) ELSE <<>>)
Connectivity(o) == [i \in 1..NPoints(o) |-> i - 1]      \* every point belongs to one cell, in order
CellSizes(o) == (IF o.plotEdges THEN [c \in 1..NCells |-> Corners] ELSE <<>>) \o
                (IF o.plotEdgeBoundaries THEN [c \in 1..(NCells * 2 * K) |-> FCorners] ELSE <<>>)
Offsets(o) == LET s == CellSizes(o) IN [i \in 1..Len(s) |-> Sum(SubSeq(s, 1, i))]
VtkType(m) == CASE m = 0 -> 1 [] m = 1 -> 3 [] m = 2 -> 8 [] m = 3 -> 11
Types(o) == (IF o.plotEdges THEN [c \in 1..NCells |-> VtkType(K)] ELSE <<>>) \o
            (IF o.plotEdgeBoundaries THEN [c \in 1..(NCells * 2 * K) |-> VtkType(K - 1)] ELSE <<>>)
Index(o) == (IF o.plotEdges THEN [c \in 1..NCells |-> c - 1] ELSE <<>>) \o
            (IF o.plotEdgeBoundaries THEN [c \in 1..(NCells * 2 * K) |-> c] ELSE <<>>)
\* The value of component d at corner j that the local solver of the harness computes.
LocalValue(o, lam, time, c, d, j) ==
  16 * time + 7 * d + j + 4 + (IF j % 2 = 1 THEN 1 ELSE -1) * o.scale
  + Sum([f \in 1..(2 * K) |-> f * Sum([i \in 1..mesh.ndof |-> i * lam[mesh.cells[c].nodes[f] * mesh.ndof + i]])])
EdgeValues(o, lam, time) == Flat([c \in 1..NCells |-> Flat([j \in 1..Corners |->
  [d \in 1..Comps |-> IF d <= mesh.sd THEN LocalValue(o, lam, time, c, d - 1, j - 1) ELSE 0]])])

SetOpt(who, name, value) ==
  /\ ~Refused(name, value) /\ ~Unreadable(name, value)
  /\ opts' = [opts EXCEPT ![who] = NewOpts(@, name, value)]
  /\ UNCHANGED <<files, dirs, mesh>>
Plot(who, content) ==
  /\ CanWrite(opts[who])
  /\ files' = [n \in DOMAIN files \cup {FileName(opts[who])} |-> IF n = FileName(opts[who]) THEN content ELSE files[n]]
  /\ opts' = [opts EXCEPT ![who] = AfterPlot(@)]
  /\ dirs' = dirs \cup {opts[who].outputDir}
  /\ UNCHANGED mesh
=============================================================================
