----------------------------- MODULE DofMapTrace -----------------------------
EXTENDS DofMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<dvars, l>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
TraceInit == n = 1 /\ d = 1 /\ vec = <<0>> /\ l = 1
TNew == Is("new") /\ New(Ev.n, Ev.d, Ev.vec) /\ Ev.nn = Ev.n /\ Ev.ng = Ev.n * Ev.d
TGet == Is("get") /\ UNCHANGED dvars /\ Valid(Ev.node) /\ Ev.res = Slice(Ev.node) /\ Ev.vec = vec
TAdd == Is("add") /\ AddTo(Ev.node, Ev.loc) /\ Ev.vec = vec'
TSet == Is("set") /\ SetTo(Ev.node, Ev.loc) /\ Ev.vec = vec'
TConst == Is("const") /\ SetConst(Ev.node, Ev.c) /\ Ev.vec = vec'
TIdx == Is("idx") /\ UNCHANGED dvars /\ Ev.res = Indices(Ev.node)
TNodeOf == Is("nodeof") /\ UNCHANGED dvars /\ Ev.dof \in 0..(NGlobal - 1) /\ Ev.res = NodeOf(Ev.dof)
TCopy == Is("copy") /\ UNCHANGED dvars /\ Ev.nn = n
\* Calls made in a process of their own, because the library ends the process on misuse.
TRefuse == Is("refuse") /\ UNCHANGED dvars
             /\ Ev.st = (IF Refused(Ev.node) THEN "abort" ELSE "ok")
TRefuseDof == Is("refusedof") /\ UNCHANGED dvars
             /\ Ev.st = (IF Ev.dof \in 0..(NGlobal - 1) THEN "ok" ELSE "abort")
TRefuseSize == Is("refusesize") /\ UNCHANGED dvars
             /\ Ev.st = (IF Ev.k = d THEN "ok" ELSE "abort")
TraceNext == TNew \/ TGet \/ TAdd \/ TSet \/ TConst \/ TIdx \/ TNodeOf \/ TCopy \/ TRefuse \/ TRefuseDof
             \/ TRefuseSize
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
