------------------------------ MODULE JitCache ------------------------------
(* The just-in-time compilation of the Python interface: include(conf) returns *)
(* a class made from the current files and exactly this configuration.  Files  *)
(* are edited, processes come and go, compilations fail.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES ver,      \* file -> version
          incl,     \* file -> sequence of the files it includes
          broken,   \* files that do not compile at the moment
          built,    \* <<conf, snapshot>>: last successful compilation of each configuration
          loaded    \* <<conf, snapshot>>: what this process has imported
Lookup(pairs, k) == LET s == {p \in pairs : p[1] = k} IN IF s = {} THEN <<>> ELSE (CHOOSE p \in s : TRUE)[2]
Put(pairs, k, v) == {p \in pairs : p[1] # k} \cup {<<k, v>>}
RECURSIVE Reach(_, _)
Reach(todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET new == UNION {{incl[f][i] : i \in 1..Len(incl[f])} : f \in todo \cap DOMAIN incl} IN Reach(new \ (seen \cup todo), seen \cup todo)
\* heads: files named by the configuration; temp: templates and settings used for it
Files(heads, temp) == Reach(heads, {}) \cup temp
Snapshot(heads, temp) == [f \in Files(heads, temp) |-> ver[f]]
Edit(f, inc, bad) ==
  /\ ver' = [ver EXCEPT ![f] = @ + 1]
  /\ incl' = [incl EXCEPT ![f] = inc]
  /\ broken' = IF bad THEN broken \cup {f} ELSE broken \ {f}
  /\ UNCHANGED <<built, loaded>>
Process == loaded' = {} /\ UNCHANGED <<ver, incl, broken, built>>
Needed(conf, snap) == Lookup(built, conf) # snap
Fails(conf, snap) == Needed(conf, snap) /\ DOMAIN snap \cap broken # {}
\* what is returned: a module stays what it is until the process ends
Result(conf, snap) == IF Lookup(loaded, conf) # <<>> THEN Lookup(loaded, conf) ELSE snap
IncludeFails(conf, snap) == Fails(conf, snap) /\ UNCHANGED <<ver, incl, broken, built, loaded>>
Include(conf, snap) ==
  /\ ~Fails(conf, snap)
  /\ built' = Put(built, conf, snap)
  /\ loaded' = Put(loaded, conf, Result(conf, snap))
  /\ UNCHANGED <<ver, incl, broken>>
=============================================================================
