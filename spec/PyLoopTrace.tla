----------------------------- MODULE PyLoopTrace -----------------------------
(* Recorded calls of Python objects, one object after the other.               *)
EXTENDS GlobalLoopTrace, PyLoop
pyvars == <<vars, opts>>
PInit == TraceInit /\ opts = PF!Default
PNew == TNew /\ opts' = PF!Default
PRefused == Is("refused") /\ ~Acceptable(Ev.how, Ev.whole) /\ UNCHANGED <<sysvars, opts>>
PDelete == Is("deleted") /\ Delete
PRaise == Is("raise") /\ Query /\ Raises(Ev.x) /\ UNCHANGED opts
PCall == (TFlux \/ TResid \/ TMass \/ TJac \/ TMat \/ TErr \/ TInit \/ TSetData \/ TDirRead \/ TDirGet \/ TSetRef \/ TGetRef \/ TSize \/ TZero)
         /\ UNCHANGED opts
POption == Is("option") /\ Query /\ ~PF!Refused(Ev.name, Ev.value)
           /\ IF PF!Unreadable(Ev.name, Ev.value) THEN Ev.st = "throw" /\ UNCHANGED opts
              ELSE Ev.st = "ok" /\ opts' = PF!NewOpts(opts, Ev.name, Ev.value) /\ Ev.res = PF!Answer(opts', Ev.name)
PPlot == Is("plot") /\ Query /\ Ev.lost = 0 /\ Ev.names = <<PF!FileName(opts)>>
         /\ (PlotOk(Ev.x, Ev.t, Ev.vals) = TRUE)
         /\ opts' = PF!AfterPlot(opts)
PNext == PNew \/ PRefused \/ PDelete \/ PRaise \/ PCall \/ POption \/ PPlot
PSpec == PInit /\ [][PNext]_pyvars
=============================================================================
