--------------------------- MODULE JitCacheTrace ---------------------------
EXTENDS JitCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, defs, n
vars == <<ver, incl, broken, built, loaded, l, defs, n>>
Ev == Trace[l]
At(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Set(s) == {s[i] : i \in 1..Len(s)}
Fun(s) == [k \in {p[1] : p \in Set(s)} |-> Lookup(Set(s), k)]
TraceInit == ver = <<>> /\ incl = <<>> /\ broken = {} /\ built = {} /\ loaded = {} /\ l = 1 /\ defs = {} /\ n = <<>>
TWorld == /\ At("world")
          /\ ver' = [f \in Set(Ev.files) |-> 1]
          /\ LET g == Fun(Ev.incl) IN incl' = [f \in Set(Ev.files) |-> IF f \in DOMAIN g THEN g[f] ELSE <<>>]
          /\ broken' = {} /\ built' = {} /\ loaded' = {} /\ defs' = Set(Ev.defs) /\ n' = Fun(Ev.n)
TEdit == At("edit") /\ Edit(Ev.file, Ev.incl, Ev.broken) /\ UNCHANGED <<defs, n>>
TProcess == At("process") /\ Process /\ UNCHANGED <<defs, n>>
Cut(s) == LET i == SelectInSeq([k \in 1..Len(s) |-> SubSeq(s, k, k)], LAMBDA c : c \in {"<", " "}) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
Where(folder, name) == (CHOOSE d \in defs : d[1] = folder /\ d[2] = Cut(name))[3]
C == Ev.conf
Heads == {Where("topology", C.topology), Where("geometry", C.geometry), Where("node_descriptor", C.node_descriptor),
          Where("local_solver", C.local_solver), Where("global_loop", C.loop)} \cup Set(C.extra) \cup Set(C.codeincl)
Base == Where("cython", C.loop)
Temp(x) == "cython/" \o Base \o "." \o x
Templates == {Temp("pxd"), Temp("pyx"), Temp("cfg"), "build/cmake_cython.cfg"}
Snap == Snapshot(Heads, Templates)
FullName == "GlobalLoop::" \o C.loop \o "<Topology::" \o C.topology \o ",Geometry::" \o C.geometry \o ",NodeDescriptor::" \o C.node_descriptor
            \o ",LocalSolver::" \o C.local_solver \o " >"
Repl(snap) == [i \in 1..n[Base] |-> IF i <= Len(C.repl) /\ C.repl[i] # "" THEN C.repl[i]
                                     ELSE "d" \o ToString(i) \o "v" \o ToString(snap[Temp("cfg")])]
\* does the returned class come from these files and this configuration
MadeFrom(r, snap) ==
  /\ r.cls = <<FullName>> /\ r.left = 0 /\ r.debug = C.debug /\ r.code = C.code
  /\ \A i \in 1..Len(r.names) : r.names[i]
  /\ r.repl = Repl(snap)
  /\ r.cfg = snap["build/cmake_cython.cfg"]
  /\ Set(r.files) = {<<f, snap[f]>> : f \in DOMAIN snap \ Templates} \cup {<<"template.pxd", snap[Temp("pxd")]>>, <<"template.pyx", snap[Temp("pyx")]>>}
\* configurations count as the same if they mean the same
Key == [C EXCEPT !.extra = Set(@), !.codeincl = Set(@)]
TInclude == At("include") /\ UNCHANGED <<defs, n>> /\
  IF Fails(Key, Snap) THEN IncludeFails(Key, Snap) /\ (~Ev.ok /\ Ev.crash = "") = TRUE
  ELSE /\ Include(Key, Snap)
       /\ (Ev.ok /\ Ev.compiled = Needed(Key, Snap) /\ MadeFrom(Ev.res, Result(Key, Snap))) = TRUE
TraceNext == TWorld \/ TEdit \/ TProcess \/ TInclude
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
