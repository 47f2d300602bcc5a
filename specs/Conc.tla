-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Threads that share the file layer (V05).                                *)
(*                                                                         *)
(* Every thread runs a short program.  A step ends where the real code     *)
(* calls back into its environment (joining a path, reading a file or a    *)
(* directory, constructing the file), because that is where a schedule can *)
(* be forced on the real code.  Checked here: one identity per file, one   *)
(* text per file that never changes, roots present exactly once, whatever  *)
(* the interleaving.  Complete schedules are emitted and forced on the     *)
(* real code; what happened there is judged by ValidOutcome.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANTS Threads,      \* 1..n
          Programs,     \* sequences of operations a thread may run
          Random        \* schedules are sampled instead of enumerated

VARIABLES prog,     \* thread -> its program
          at,       \* thread -> number of the current operation
          pc,       \* thread -> step within it
          cand,     \* thread -> the text it has read
          idx,      \* file -> index or 0
          nfiles,   \* how many indexes were handed out
          text,     \* file -> kept text or 0
          reads,    \* texts read so far (each read returns a new one)
          roots, lock,
          told,     \* results of root additions
          sched
vars == <<prog, at, pc, cand, idx, nfiles, text, reads, roots, lock, told, sched>>

Files == {"f", "g"}
Roots == {"r", "s"}

PickPrograms == IF Random THEN {[t \in Threads |-> RandomElement(Programs)]}
                ELSE {p \in [Threads -> Programs] : TRUE}

Init ==
    /\ prog \in {[t \in Threads |-> <<>>]}
    /\ at = [t \in Threads |-> 1]
    /\ pc = [t \in Threads |-> "begin"]
    /\ cand = [t \in Threads |-> 0]
    /\ idx = [f \in Files |-> 0]
    /\ nfiles = 0
    /\ text = [f \in Files |-> 0]
    /\ reads = 0
    /\ roots = <<>>
    /\ lock = 0
    /\ told = <<>>
    /\ sched = <<>>

Chosen == \A t \in Threads : prog[t] # <<>>
Choose ==
    /\ ~Chosen
    /\ prog' \in (IF Random /\ nfiles = 0 THEN {[t \in Threads |-> RandomElement(Programs)]}
                  ELSE [Threads -> Programs])
    /\ UNCHANGED <<at, pc, cand, idx, nfiles, text, reads, roots, lock, told, sched>>

Op(t) == prog[t][at[t]]
Alive(t) == Chosen /\ at[t] <= Len(prog[t])
Goto(t, l) == pc' = [pc EXCEPT ![t] = l] /\ UNCHANGED at
DoneOp(t) == pc' = [pc EXCEPT ![t] = "begin"] /\ at' = [at EXCEPT ![t] = @ + 1]
Tick(t) == sched' = Append(sched, t)

\* Everything but the parts an action names.
KeepFiles == UNCHANGED <<idx, nfiles, text, reads, cand>>
KeepRoots == UNCHANGED <<roots, lock, told>>

\* -- making sure a file is loaded (also the first half of dep and sub) --
IsLoad(o) == o.op \in {"load", "dep", "sub", "viaindex"}
LoadBegin(t) ==
    /\ Alive(t) /\ IsLoad(Op(t)) /\ pc[t] = "begin"
    /\ LET f == Op(t).f IN
       IF idx[f] # 0 THEN (IF text[f] # 0 THEN DoneOp(t) ELSE Goto(t, "read"))
       ELSE Goto(t, "join")
    /\ KeepFiles /\ KeepRoots /\ Tick(t) /\ UNCHANGED prog
LoadJoin(t) ==
    /\ Alive(t) /\ IsLoad(Op(t)) /\ pc[t] = "join"
    /\ Goto(t, "read")
    /\ KeepFiles /\ KeepRoots /\ Tick(t) /\ UNCHANGED prog
LoadRead(t) ==
    /\ Alive(t) /\ IsLoad(Op(t)) /\ pc[t] = "read"
    /\ reads' = reads + 1 /\ cand' = [cand EXCEPT ![t] = reads + 1]
    /\ Goto(t, "index")
    /\ UNCHANGED <<idx, nfiles, text>> /\ KeepRoots /\ Tick(t) /\ UNCHANGED prog
Assign(f) ==
    IF idx[f] = 0 THEN idx' = [idx EXCEPT ![f] = nfiles + 1] /\ nfiles' = nfiles + 1
    ELSE UNCHANGED <<idx, nfiles>>
LoadIndex(t) ==
    /\ Alive(t) /\ IsLoad(Op(t)) /\ pc[t] = "index"
    /\ Assign(Op(t).f) /\ Goto(t, "make")
    /\ UNCHANGED <<text, reads, cand>> /\ KeepRoots /\ Tick(t) /\ UNCHANGED prog
LoadMake(t) ==
    /\ Alive(t) /\ IsLoad(Op(t)) /\ pc[t] = "make"
    /\ text' = [text EXCEPT ![Op(t).f] = IF @ = 0 THEN cand[t] ELSE @]
    /\ DoneOp(t)
    /\ UNCHANGED <<idx, nfiles, reads, cand>> /\ KeepRoots /\ Tick(t) /\ UNCHANGED prog

\* -- only asking for the index --
IndexBegin(t) ==
    /\ Alive(t) /\ Op(t).op = "index" /\ pc[t] = "begin"
    /\ (IF idx[Op(t).f] # 0 THEN DoneOp(t) ELSE Goto(t, "join"))
    /\ KeepFiles /\ KeepRoots /\ Tick(t) /\ UNCHANGED prog
IndexJoin(t) ==
    /\ Alive(t) /\ Op(t).op = "index" /\ pc[t] = "join"
    /\ Assign(Op(t).f) /\ DoneOp(t)
    /\ UNCHANGED <<text, reads, cand>> /\ KeepRoots /\ Tick(t) /\ UNCHANGED prog

\* -- adding a root: under a lock --
RootBegin(t) ==
    /\ Alive(t) /\ Op(t).op = "root" /\ pc[t] = "begin" /\ lock = 0
    /\ IF Op(t).f \in ToSet(roots)
       THEN DoneOp(t) /\ told' = Append(told, <<Op(t).f, FALSE>>) /\ UNCHANGED <<roots, lock>>
       ELSE Goto(t, "dir") /\ lock' = t /\ UNCHANGED <<roots, told>>
    /\ KeepFiles /\ Tick(t) /\ UNCHANGED prog
RootDir(t) ==
    /\ Alive(t) /\ Op(t).op = "root" /\ pc[t] = "dir"
    /\ roots' = Append(roots, Op(t).f) /\ lock' = 0
    /\ told' = Append(told, <<Op(t).f, TRUE>>)
    /\ DoneOp(t)
    /\ KeepFiles /\ Tick(t) /\ UNCHANGED prog

Step(t) == LoadBegin(t) \/ LoadJoin(t) \/ LoadRead(t) \/ LoadIndex(t) \/ LoadMake(t)
           \/ IndexBegin(t) \/ IndexJoin(t) \/ RootBegin(t) \/ RootDir(t)
Next == Choose \/ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

AllDone == Chosen /\ \A t \in Threads : at[t] > Len(prog[t])

\* ---- properties of the design ----
OneIdentity == /\ Cardinality({idx[f] : f \in {g \in Files : idx[g] # 0}}) = nfiles
               /\ nfiles = Cardinality({f \in Files : idx[f] # 0})
TextHasIndex == \A f \in Files : text[f] # 0 => idx[f] # 0
RootsOnce == /\ Cardinality(ToSet(roots)) = Len(roots)
             /\ \A r \in Roots : Cardinality({i \in DOMAIN told : told[i] = <<r, TRUE>>})
                                   = Cardinality({i \in DOMAIN roots : roots[i] = r})
TextNeverChanges == [][\A f \in Files : (text[f] # 0 => text'[f] = text[f])
                                        /\ (idx[f] # 0 => idx'[f] = idx[f])]_vars
NoStuck == AllDone \/ ~Chosen \/ \E t \in Threads : ENABLED Step(t)
Emit == AllDone => PrintT(<<"SCHEDULE", ToJson([prog |-> prog, sched |-> sched])>>)

\* ---- judging what really happened ----
(* An outcome: the programs, and per operation what it observed:           *)
(*   files: <<thread, file, index, text>>  (text "" for index only)        *)
(*   subs:  <<thread, index>>              sub-files                       *)
(*   roots: <<thread, root, added>>, have: the roots afterwards            *)
(*   table: number of entries in the file table                            *)
(*   again: texts behind the handed out references, read at the end        *)
(*   deps:  <<file, index of dependent>> that were registered, reached:    *)
(*          those invalidated when the file changed                        *)
ValidOutcome(o) ==
    LET F == ToSet(o.files)
        S == ToSet(o.subs)
        R == ToSet(o.roots)
    IN [ sameIndex    |-> \A x, y \in F : (x.f = y.f) <=> (x.i = y.i),
         sameText     |-> \A x, y \in F : (x.f = y.f /\ x.text # "" /\ y.text # "") => x.text = y.text,
         refsValid    |-> \A x \in F : x.text # "" => x.again = x.text,
         subsDistinct |-> Cardinality({x.i : x \in S}) = Len(o.subs)
                          /\ {x.i : x \in S} \cap {x.i : x \in F} = {},
         subsKept     |-> \A x \in S : x.again = x.text,
         table        |-> o.table = Cardinality({x.i : x \in F}) + Len(o.subs),
         rootsOnce    |-> \A r \in {x.r : x \in R} :
                            Cardinality({i \in DOMAIN o.have : o.have[i] = r}) = 1,
         oneAdds      |-> \A r \in {x.r : x \in R} :
                            Cardinality({i \in DOMAIN o.roots : o.roots[i].r = r /\ o.roots[i].added}) = 1,
         depsKept     |-> \A d \in ToSet(o.deps) : d \in ToSet(o.reached) ]
Why(o) == LET v == ValidOutcome(o) IN {k \in DOMAIN v : ~v[k]}
=============================================================================
