----------------------------- MODULE JitCacheMC -----------------------------
(* The decision taken from time stamps of shared objects is the right one:     *)
(* one shared object for each configuration, compared with all files needed.   *)
EXTENDS JitCache
CONSTANTS MaxSteps
VARIABLES clock, ftime, so, got, steps
vars == <<ver, incl, broken, built, loaded, clock, ftime, so, got, steps>>
H == {"a", "b", "c"}
Templates == {"t"}
AllFiles == H \cup Templates
\* the two configurations with their heads
Confs == {1, 2}
Heads(c) == IF c = 1 THEN {"a"} ELSE {"a", "b"}
Init == /\ ver = [f \in AllFiles |-> 1] /\ incl = [f \in AllFiles |-> <<>>] /\ broken = {} /\ built = {} /\ loaded = {}
        /\ clock = 1 /\ ftime = [f \in AllFiles |-> 0] /\ so = {} /\ got = <<>> /\ steps = 0
Tick == clock' = clock + 1 /\ steps' = steps + 1 /\ steps < MaxSteps
DoEdit == \E f \in AllFiles, bad \in BOOLEAN, inc \in {<<>>, <<"c">>} :
            /\ Tick /\ (inc # <<>> => f \in {"a", "b"})
            /\ Edit(f, inc, bad) /\ ftime' = [ftime EXCEPT ![f] = clock] /\ got' = <<>> /\ UNCHANGED so
DoProcess == Tick /\ Process /\ got' = <<>> /\ UNCHANGED <<ftime, so>>
\* the algorithm: time stamps only
Stale(c, files) == Lookup(so, c) = <<>> \/ \E f \in files : ftime[f] > Lookup(so, c)[1]
DoInclude == \E c \in Confs :
  LET snap == Snapshot(Heads(c), Templates) files == Files(Heads(c), Templates) s == Stale(c, files) IN
  /\ Tick /\ UNCHANGED ftime
  /\ IF s /\ files \cap broken # {}
     THEN IncludeFails(c, snap) /\ got' = <<>> /\ UNCHANGED so
     ELSE /\ Include(c, snap)
          /\ so' = IF s THEN Put(so, c, <<clock, snap>>) ELSE so
          /\ got' = <<c, s, IF Lookup(loaded, c) # <<>> THEN Lookup(loaded, c) ELSE Lookup(so', c)[2], snap, Lookup(loaded, c) # <<>>, Lookup(built, c) # snap>>
Next == DoEdit \/ DoProcess \/ DoInclude
Spec == Init /\ [][Next]_vars
\* an include step is never impossible: decision and specification agree about failures
Agree == \A c \in Confs : LET snap == Snapshot(Heads(c), Templates) IN Stale(c, DOMAIN snap) = Needed(c, snap)
Fresh == got # <<>> => got[3] = got[4] \/ got[5]
OnlyIfNeeded == got # <<>> => got[2] = got[6]
LoadedMatches == \A c \in Confs : (got # <<>> /\ got[1] = c) => Lookup(loaded, c) = got[3]
=============================================================================
