---------------------------- MODULE PlotFileTrace ----------------------------
EXTENDS PlotFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<pvars, l>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Body == IOEnv.CHECK = "content"
TraceInit == /\ opts = [w \in {"loop", "direct"} |-> Default] /\ files = [x \in {} |-> 0] /\ dirs = {} /\ mesh = <<>> /\ l = 1
TMesh == Is("mesh") /\ mesh' = Ev /\ UNCHANGED <<files, dirs>>
           /\ opts' = IF Ev.fresh THEN [w \in {"loop", "direct"} |-> Default] ELSE opts
TMkdir == Is("mkdir") /\ dirs' = dirs \cup {Ev.d} /\ UNCHANGED <<opts, files, mesh>>
TWipe == Is("wipe") /\ dirs' = {} /\ files' = [x \in {} |-> 0] /\ UNCHANGED <<opts, mesh>>
TNumbers == Is("numbers") /\ opts' = [opts EXCEPT !["direct"].numbers = Ev.v] /\ UNCHANGED <<files, dirs, mesh>>
Who == IF Ev.op \in {"opt", "plot"} THEN "loop" ELSE "direct"
TOpt == (Is("opt") \/ Is("dopt")) /\
  IF Refused(Ev.name, Ev.value) THEN Ev.st = "abort" /\ UNCHANGED pvars
  ELSE IF Unreadable(Ev.name, Ev.value) THEN Ev.st = "throw" /\ UNCHANGED pvars
  ELSE /\ Ev.st = "ok" /\ SetOpt(Who, Ev.name, Ev.value) /\ Ev.res = Answer(opts'[Who], Ev.name)

Arr(body, sect, name) == SelectSeq(body.arrays, LAMBDA a : a.sect = sect /\ a.name = name)
One(body, sect, name, comps) == Len(Arr(body, sect, name)) = 1 /\ Arr(body, sect, name)[1].comps = comps
Vals(body, sect, name) == Arr(body, sect, name)[1].v
\* Four digits are written.
PointsOk(v, o) ==
  LET p == Points32(o) IN
  /\ Len(v) = 3 * Len(p)
  /\ \A i \in 1..Len(p), d \in 1..3 :
       LET x == v[3 * (i - 1) + d] e == p[i][d] IN Abs(x) <= 20000000 /\ Close(32 * x, e, 320 + Abs(e) \div 500)
BodyOk(body, o) ==
  /\ body.wf
  /\ body.np = NPoints(o) /\ body.nc = NVtk(o)
  /\ One(body, "Points", "", 3) /\ PointsOk(Vals(body, "Points", ""), o)
  /\ One(body, "Cells", "connectivity", 1) /\ Vals(body, "Cells", "connectivity") = Connectivity(o)
  /\ One(body, "Cells", "offsets", 1) /\ Vals(body, "Cells", "offsets") = Offsets(o)
  /\ One(body, "Cells", "types", 1) /\ Vals(body, "Cells", "types") = Types(o)
  /\ One(body, "PointData", "values", Comps)
  /\ LET v == Vals(body, "PointData", "values") e == EdgeValues(o, Ev.lam, Ev.time) IN
     /\ Len(v) = NPoints(o) * Comps
     /\ o.plotEdges => SubSeq(v, 1, Len(e)) = e
  /\ IF o.numbers THEN One(body, "CellData", "index", 1) /\ Vals(body, "CellData", "index") = Index(o)
     ELSE Arr(body, "CellData", "index") = <<>>
Dir == [n \in {Ev.dir[i].f : i \in 1..Len(Ev.dir)} |-> (CHOOSE i \in 1..Len(Ev.dir) : Ev.dir[i].f = n)]
Hash(n) == Ev.dir[Dir[n]].h
TPlot == (Is("plot") \/ Is("dplot")) /\ Ev.kept /\
  LET o == opts[Who] name == FileName(o) IN
  IF ~CanWrite(o) THEN /\ Ev.st = "throw" /\ Ev.wrote = <<>> /\ UNCHANGED pvars
                       /\ DOMAIN Dir = DOMAIN files /\ (\A m \in DOMAIN files : Hash(m) = files[m]) = TRUE
  ELSE /\ Ev.st = "ok"
       /\ Len(Ev.wrote) = 1 /\ Ev.wrote[1].f = name
       /\ (Body => BodyOk(Ev.wrote[1].body, o)) = TRUE
       /\ name \in DOMAIN Dir /\ Plot(Who, Hash(name))
       \* every other file is what it was
       /\ DOMAIN Dir = DOMAIN files' /\ (\A m \in DOMAIN files' : Hash(m) = files'[m]) = TRUE
TraceNext == TMesh \/ TMkdir \/ TWipe \/ TNumbers \/ TOpt \/ TPlot
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
