------------------------------- MODULE Vfs -------------------------------
(***************************************************************************)
(* The workspace file layer as a user sees it (properties V01, V02, V03).  *)
(*                                                                         *)
(* State: what is on disk, which buffers are open in the editor, which     *)
(* change reports are still under way, and which results the server has    *)
(* computed for which file.  Every transition is one call on the public    *)
(* API of the real layer (or one change made on disk behind its back).     *)
(* The meaning of the system is the pair of operators                      *)
(*    Visible(p)   the text a path has                                     *)
(*    Reach(f)     the result derived for a file: everything reachable     *)
(*                 through its imports, with missing targets included      *)
(* and the properties say that what the real code answers is always that.  *)
(*                                                                         *)
(* hist records the behaviour with the expected answers; behaviours are    *)
(* printed as JSON at a chosen depth and replayed into the real code.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Files,        \* path ids of files inside the main root, e.g. "d/c.py"
    Dirs,         \* path ids of directories inside the main root
    Outside,      \* path ids of files outside every root
    DbFile,       \* the file (in a root of its own) that affects everything
    Values,       \* payload values of file contents
    ImportLists,  \* import lists a file content may have
    Configs,      \* workspace-root configurations
    Depth,        \* length of the recorded behaviours
    Features      \* subset of {"dirs","pending","recover","db","outside"}

VARIABLES disk, dirsOn, open, pending, everOpen, moved, lastRes, dbKnown, config, mask, hist

vars == <<disk, dirsOn, open, pending, everOpen, moved, lastRes, dbKnown, config, mask, hist>>

\* "Nothing there", and "no result computed" (a real result is never empty).
None == [v |-> 0, imps |-> <<>>]
NoRes == {}
AllFiles == Files \cup Outside \cup {DbFile}
Contents == [v : Values, imps : ImportLists]
MaybeContent == Contents \cup {None}

\* ---- static path structure (paths are small, so it is tabulated) ----
\* ParentOf(p) is the directory of p, "" for the root itself.
ParentOf(p) ==
    CASE p \in {"d/c.py", "d/i.py", "d/n"} -> "d"
      [] p \in {"d/n/k.py"} -> "d/n"
      [] p \in {"g/h.py"} -> "g"
      [] OTHER -> ""
RECURSIVE Ancestors(_)
Ancestors(p) == IF ParentOf(p) = "" THEN {} ELSE {ParentOf(p)} \cup Ancestors(ParentOf(p))
Under(d) == {q \in Files \cup Dirs : d \in Ancestors(q)}
FilesUnder(d) == Under(d) \cap Files
DirsUnder(d) == Under(d) \cap Dirs

\* ---- meaning ----
VisibleIn(dk, op, p) == IF op[p] # None THEN op[p] ELSE dk[p]
Visible(p) == VisibleIn(disk, open, p)

RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(dk, op, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET p == CHOOSE x \in todo : TRUE
             c == VisibleIn(dk, op, p)
             next == IF c = None THEN {} ELSE {c.imps[i] : i \in DOMAIN c.imps}
             done == {s[1] : s \in seen} \cup {p}
         IN ReachFrom(dk, op, (todo \cup next) \ done,
                      seen \cup {<<p, IF c = None THEN 0 ELSE c.v>>})
Reach(f) == ReachFrom(disk, open, {f}, {})

Quiet == pending = <<>>

\* Open buffers whose last computed result is no longer what it would be now.
\* Once all reports are delivered these must have been announced.
MustAnnounce(dk, op, last) ==
    {f \in Files \cup Outside :
        /\ op[f] # None
        /\ last[f] # NoRes
        /\ last[f] # ReachFrom(dk, op, {f}, {})}

\* ---- recording ----
\* (FreeSpec below explores without recording: then the state space is finite.)
CONSTANT Recording
Rec(op, extra) == IF Recording THEN hist' = Append(hist, [op |-> op] @@ extra) ELSE hist' = hist

Obl(dk, op, pend, last) ==
    [quiet |-> (pend = <<>>),
     announce |-> IF pend = <<>> THEN MustAnnounce(dk, op, last) ELSE {}]

\* The file that affects everything exists and is loaded at start (builtins).
\* Directories that are themselves workspace roots (and their ancestors) exist
\* from the start and stay: moving a root away is outside the promise.
DbStart == [v |-> CHOOSE v \in Values : TRUE, imps |-> <<>>]
RootDirs(cf) ==
    CASE cf \in {"inner-last", "inner-first"} -> {"d"}
      [] cf \in {"deep-last", "deep-first"} -> {"d", "d/n"}
      [] OTHER -> {}

Init ==
    /\ config \in Configs
    /\ disk = [p \in AllFiles |-> IF p = DbFile THEN DbStart ELSE None]
    /\ dirsOn = RootDirs(config)
    /\ open = [p \in AllFiles |-> None]
    /\ pending = <<>>
    /\ everOpen = {}
    /\ moved = {}
    /\ lastRes = [p \in AllFiles |-> NoRes]
    /\ dbKnown = DbStart
    /\ mask = {}
    /\ hist = <<>>

Running == Len(hist) < Depth /\ mask # {}

\* ---- the editor ----
\* Opening or editing a buffer.  The database-wide effect must be reported
\* when the marked file changes the text it was last known with.
Store(p, c) ==
    /\ Running
    /\ open[p] # c
    /\ open' = [open EXCEPT ![p] = c]
    /\ everOpen' = everOpen \cup {p}
    /\ dbKnown' = IF p = DbFile THEN c ELSE dbKnown
    /\ Rec("store", [p |-> p, c |-> c,
          db |-> (p = DbFile /\ dbKnown # c)]
          @@ Obl(disk, open', pending, lastRes))
    /\ UNCHANGED <<disk, dirsOn, pending, moved, lastRes, config, mask>>

Close(p) ==
    /\ Running
    /\ open[p] # None
    /\ (p = DbFile) => disk[p] # None
    /\ open' = [open EXCEPT ![p] = None]
    /\ dbKnown' = IF p = DbFile THEN disk[p] ELSE dbKnown
    /\ Rec("close", [p |-> p, ok |-> TRUE,
          db |-> (p = DbFile /\ dbKnown # disk[p])]
          @@ Obl(disk, open', pending, lastRes))
    /\ UNCHANGED <<disk, dirsOn, pending, everOpen, moved, lastRes, config, mask>>

\* Closing something that is not open is refused and changes nothing.
CloseUnknown(p) ==
    /\ Running
    /\ open[p] = None
    /\ Rec("close", [p |-> p, ok |-> FALSE, db |-> FALSE] @@ Obl(disk, open, pending, lastRes))
    /\ UNCHANGED <<disk, dirsOn, open, pending, everOpen, moved, lastRes, dbKnown, config, mask>>

\* ---- the disk ----
DirOk(p) == \A d \in Ancestors(p) : d \in dirsOn

WriteTo(p, c, opname) ==
    /\ DirOk(p)
    /\ disk[p] # c
    /\ disk' = [disk EXCEPT ![p] = c]
    /\ pending' = Append(pending, p)
    /\ Rec(opname, [p |-> p, c |-> c] @@ Obl(disk', open, pending', lastRes))
    /\ UNCHANGED <<dirsOn, open, everOpen, moved, lastRes, dbKnown, config, mask>>

Write(p, c) == Running /\ WriteTo(p, c, "write")

\* The user saves the buffer.
Save(p) == Running /\ open[p] # None /\ WriteTo(p, open[p], "write")

\* A file whose timestamp changes but not its text is reported as well.
Rewrite(p) ==
    /\ Running
    /\ disk[p] # None
    /\ pending' = Append(pending, p)
    /\ Rec("write", [p |-> p, c |-> disk[p]] @@ Obl(disk, open, pending', lastRes))
    /\ UNCHANGED <<disk, dirsOn, open, everOpen, moved, lastRes, dbKnown, config, mask>>

Delete(p) ==
    /\ Running
    /\ p # DbFile
    /\ disk[p] # None
    /\ disk' = [disk EXCEPT ![p] = None]
    /\ pending' = Append(pending, p)
    /\ Rec("delete", [p |-> p] @@ Obl(disk', open, pending', lastRes))
    /\ UNCHANGED <<dirsOn, open, everOpen, moved, lastRes, dbKnown, config, mask>>

Mkdir(d) ==
    /\ Running
    /\ d \notin dirsOn
    /\ \A e \in Ancestors(d) : e \in dirsOn
    /\ d \notin moved
    /\ dirsOn' = dirsOn \cup {d}
    /\ pending' = Append(pending, d)
    /\ Rec("mkdir", [p |-> d] @@ Obl(disk, open, pending', lastRes))
    /\ UNCHANGED <<disk, open, everOpen, moved, lastRes, dbKnown, config, mask>>

\* rm -r: the removal of every file and directory is reported, contents first.
SetToSeq(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>>
                           ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x})
               IN F(S)
RmTree(d) ==
    /\ Running
    /\ d \in dirsOn \ RootDirs(config)
    /\ LET gone == {f \in FilesUnder(d) : disk[f] # None}
           sub == DirsUnder(d) \cap dirsOn
           deepfiles == {f \in gone : ParentOf(f) # d}
       IN /\ disk' = [p \in AllFiles |-> IF p \in gone THEN None ELSE disk[p]]
          /\ dirsOn' = dirsOn \ ({d} \cup sub)
          /\ pending' = pending \o SetToSeq(deepfiles) \o SetToSeq(sub)
                                \o SetToSeq(gone \ deepfiles) \o <<d>>
    /\ Rec("rmtree", [p |-> d] @@ Obl(disk', open, pending', lastRes))
    /\ UNCHANGED <<open, everOpen, moved, lastRes, dbKnown, config, mask>>

\* mv d elsewhere: only the directory itself is reported.
MoveAway(d) ==
    /\ Running
    /\ d \in dirsOn \ RootDirs(config)
    /\ LET gone == {f \in FilesUnder(d) : disk[f] # None}
           sub == DirsUnder(d) \cap dirsOn
       IN /\ disk' = [p \in AllFiles |-> IF p \in gone THEN None ELSE disk[p]]
          /\ dirsOn' = dirsOn \ ({d} \cup sub)
          /\ moved' = moved \cup {d} \cup DirsUnder(d)
          /\ pending' = Append(pending, d)
    /\ Rec("moveaway", [p |-> d] @@ Obl(disk', open, pending', lastRes))
    /\ UNCHANGED <<open, everOpen, lastRes, dbKnown, config, mask>>

\* mv elsewhere d: a populated directory appears, reported once.  (A directory
\* that the editor already made known through a buffer inside it is excluded:
\* see KNOWN_FINDINGS, dir-populated-while-known.)
MoveIn(d, files, c) ==
    /\ Running
    /\ d \notin dirsOn
    /\ d \notin moved
    /\ \A e \in Ancestors(d) : e \in dirsOn
    /\ files \subseteq FilesUnder(d)
    /\ \A q \in Under(d) : q \notin everOpen
    /\ \A i \in DOMAIN pending : pending[i] # d /\ pending[i] \notin Under(d) /\ pending[i] \notin Ancestors(d)
    /\ disk' = [p \in AllFiles |-> IF p \in files THEN c ELSE disk[p]]
    /\ dirsOn' = dirsOn \cup {d} \cup UNION {Ancestors(f) : f \in files}
    /\ pending' = Append(pending, d)
    /\ Rec("movein", [p |-> d, files |-> files, c |-> c] @@ Obl(disk', open, pending', lastRes))
    /\ UNCHANGED <<open, everOpen, moved, lastRes, dbKnown, config, mask>>

\* ---- the reports ----
Deliver ==
    /\ Running
    /\ pending # <<>>
    /\ pending' = Tail(pending)
    /\ LET p == Head(pending)
           isdb == p = DbFile /\ open[p] = None
       IN /\ dbKnown' = IF isdb THEN disk[DbFile] ELSE dbKnown
          /\ moved' = IF \E i \in DOMAIN pending' : pending'[i] = p THEN moved
                      ELSE moved \ ({p} \cup Under(p))
          /\ Rec("deliver", [p |-> p, db |-> (isdb /\ dbKnown # disk[DbFile])]
                 @@ Obl(disk, open, pending', lastRes))
    /\ UNCHANGED <<disk, dirsOn, open, everOpen, lastRes, config, mask>>

\* All reports under way arrive.
Flush ==
    /\ Running
    /\ pending # <<>>
    /\ pending' = <<>>
    /\ moved' = {}
    /\ LET isdb == DbFile \in {pending[i] : i \in DOMAIN pending} /\ open[DbFile] = None
       IN /\ dbKnown' = IF isdb THEN disk[DbFile] ELSE dbKnown
          /\ Rec("flush", [q |-> pending, db |-> (isdb /\ dbKnown # disk[DbFile])]
                 @@ Obl(disk, open, <<>>, lastRes))
    /\ UNCHANGED <<disk, dirsOn, open, everOpen, lastRes, config, mask>>

\* ---- asking ----
Result(S) == S
\* The server computes the result of a file and keeps it.
Query(f) ==
    /\ Running
    /\ Quiet
    /\ Visible(f) # None
    /\ LET r == Reach(f)
       IN /\ lastRes' = [lastRes EXCEPT ![f] = r]
          /\ Rec("query", [p |-> f, r |-> Result(r)] @@ Obl(disk, open, pending, lastRes'))
    /\ UNCHANGED <<disk, dirsOn, open, pending, everOpen, moved, dbKnown, config, mask>>

\* Something asks while reports are still under way: no promise about the answer.
Touch(f) ==
    /\ Running
    /\ ~Quiet
    /\ lastRes' = [lastRes EXCEPT ![f] = NoRes]
    /\ Rec("touch", [p |-> f] @@ Obl(disk, open, pending, lastRes))
    /\ UNCHANGED <<disk, dirsOn, open, pending, everOpen, moved, dbKnown, config, mask>>

\* Reading the text of a path.
ReadAll ==
    /\ Running
    /\ Quiet
    /\ Rec("readall", [texts |-> [p \in Files \cup {DbFile} |-> Visible(p)],
                       opened |-> {p \in AllFiles : open[p] # None},
                       outs |-> [p \in Outside |-> open[p]]]
           @@ Obl(disk, open, pending, lastRes))
    /\ UNCHANGED <<disk, dirsOn, open, pending, everOpen, moved, lastRes, dbKnown, config, mask>>

\* ---- panic and recovery: everything computed is lost, buffers are not ----
Recover ==
    /\ Running
    /\ lastRes' = [p \in AllFiles |-> NoRes]
    /\ Rec("recover", [reannounce |-> {p \in AllFiles : open[p] # None}]
           @@ Obl(disk, open, pending, lastRes'))
    /\ UNCHANGED <<disk, dirsOn, open, pending, everOpen, moved, dbKnown, config, mask>>

\* Choosing parameters.  For exhaustive search Pick(S) is S; for random walks
\* it is overridden by one random element, so that every kind of step is
\* equally likely however many parameters it has.
Pick(S) == S
PickRandom(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Opened(S) == {p \in S : open[p] # None}
OnDisk(S) == {p \in S : disk[p] # None}
Seen(S) == {p \in S : Visible(p) # None}
DbContents == [v : Values, imps : {<<>>}]

\* Every behaviour uses its own selection of kinds of step (swarm): walks with
\* few kinds reach long specific histories that uniform ones hardly ever do.
Kinds == {"store", "edit", "tweak", "close", "closeunknown", "write", "revise", "save", "rewrite", "delete", "touch", "readall", "mkdir", "rmtree", "moveaway", "movein", "recover", "dbstore", "dbclose", "dbwrite", "outstore", "outclose", "outwrite", "outdelete", "outquery"}
On(k) == k \in mask
\* For exhaustive search every kind is available; see SwarmMask for walks.
Mask == Kinds
\* (hist is empty here; mentioning it keeps TLC from evaluating this only once)
SwarmMask == TLCEval({"store", "tweak"} \cup {k \in Kinds : RandomElement(1..(5 + Len(hist))) > 2})
Begin == mask = {} /\ mask' = Mask /\ UNCHANGED <<disk, dirsOn, open, pending, everOpen, moved, lastRes, dbKnown, config, hist>>

DoStore == On("store") /\ \E p \in Pick(Files), c \in Pick(Contents) : Store(p, c)
DoEdit == On("edit") /\ \E p \in Pick(Opened(Files)), c \in Pick(Contents) : Store(p, c)
\* An edit that leaves the imports alone.
DoTweak == On("tweak") /\ \E p \in Pick(Opened(Files)), v \in Pick(Values) : Store(p, [open[p] EXCEPT !.v = v])
DoClose == On("close") /\ \E p \in Pick(Opened(Files)) : Close(p)
DoCloseUnknown == On("closeunknown") /\ \E p \in Pick(Files) : CloseUnknown(p)
DoWrite == On("write") /\ \E p \in Pick({q \in Files : DirOk(q)}), c \in Pick(Contents) : Write(p, c)
DoRevise == On("revise") /\ \E p \in Pick(OnDisk(Files)), v \in Pick(Values) : Write(p, [disk[p] EXCEPT !.v = v])
DoSave == On("save") /\ \E p \in Pick({q \in Opened(Files) : DirOk(q)}) : Save(p)
DoRewrite == On("rewrite") /\ \E p \in Pick(OnDisk(Files)) : Rewrite(p)
DoDelete == On("delete") /\ \E p \in Pick(OnDisk(Files)) : Delete(p)
DoQuery == \E f \in Pick(Seen(Files)) : Query(f)
DoTouch == On("touch") /\ \E f \in Pick(Files) : Touch(f)
DoReadAll == On("readall") /\ ReadAll
DoMkdir == On("mkdir") /\ \E d \in Pick(Dirs \ dirsOn) : Mkdir(d)
DoRmTree == On("rmtree") /\ \E d \in Pick(dirsOn) : RmTree(d)
DoMoveAway == On("moveaway") /\ \E d \in Pick(dirsOn) : MoveAway(d)
DoMoveIn == On("movein") /\ \E d \in Pick(Dirs \ dirsOn) : \E fs \in Pick(SUBSET FilesUnder(d)), c \in Pick(Contents) : MoveIn(d, fs, c)
DoRecover == On("recover") /\ Recover
DoDbStore == On("dbstore") /\ \E c \in Pick(DbContents) : Store(DbFile, c)
DoDbClose == On("dbclose") /\ Close(DbFile)
DoDbWrite == On("dbwrite") /\ \E c \in Pick(DbContents) : Write(DbFile, c)
DoOutStore == On("outstore") /\ \E p \in Pick(Outside), c \in Pick(Contents) : Store(p, c)
DoOutClose == On("outclose") /\ \E p \in Pick(Opened(Outside)) : Close(p)
DoOutWrite == On("outwrite") /\ \E p \in Pick(Outside), c \in Pick(Contents) : Write(p, c)
DoOutDelete == On("outdelete") /\ \E p \in Pick(OnDisk(Outside)) : Delete(p)
DoOutQuery == On("outquery") /\ \E p \in Pick(Opened(Outside)) : Query(p)

Editing == DoStore \/ DoEdit \/ DoTweak \/ DoClose \/ DoCloseUnknown
Disk == DoWrite \/ DoRevise \/ DoSave \/ DoRewrite \/ DoDelete
Directories == DoMkdir \/ DoRmTree \/ DoMoveAway \/ DoMoveIn
Database == DoDbStore \/ DoDbClose \/ DoDbWrite
OutsideSteps == DoOutStore \/ DoOutClose \/ DoOutWrite \/ DoOutDelete \/ DoOutQuery

\* When the behaviour has its length it ends with the reports being delivered
\* (done by the replay: flush), everything being read and every file queried.
Final ==
    [flush |-> pending,
     texts |-> [p \in Files \cup {DbFile} |-> Visible(p)],
     outs |-> [p \in Outside |-> open[p]],
     opened |-> {p \in AllFiles : open[p] # None},
     results |-> [p \in Files |-> IF Visible(p) = None THEN {} ELSE Reach(p)],
     announce |-> MustAnnounce(disk, open, lastRes)]

\* Some kinds of step are listed more than once: random walks take them more often.
Next == \/ Begin
        \/ Editing \/ DoTweak
        \/ Disk \/ DoWrite
        \/ Flush \/ Flush \/ Flush \/ Flush \/ Flush
        \/ DoQuery \/ DoQuery \/ DoQuery \/ DoQuery \/ DoQuery \/ DoQuery \/ DoReadAll
        \/ ("pending" \in Features /\ (Deliver \/ Deliver \/ DoTouch))
        \/ ("dirs" \in Features /\ Directories)
        \/ ("recover" \in Features /\ DoRecover)
        \/ ("db" \in Features /\ Database)
        \/ ("outside" \in Features /\ OutsideSteps)

Spec == Init /\ [][Next]_vars

\* Exhaustive exploration of the model itself: no recording, few reports under way.
FreeSpec == Spec
Short == Len(pending) <= 2
Shorter == Len(pending) <= 1

\* ---- model-level sanity, checked by TLC on every explored state ----
TypeOK ==
    /\ \A p \in AllFiles : disk[p] \in MaybeContent /\ open[p] \in MaybeContent
    /\ dirsOn \subseteq Dirs
    /\ \A p \in Files : disk[p] # None => DirOk(p)
    /\ \A d \in dirsOn : Ancestors(d) \subseteq dirsOn

\* A buffer hides the disk; without buffer and disk file there is nothing.
Overlay == \A p \in AllFiles :
    /\ open[p] # None => Visible(p) = open[p]
    /\ open[p] = None => Visible(p) = disk[p]
\* A result is closed under imports: exactly one entry per path reached.
ReachClosed == \A f \in Files :
    LET r == Reach(f) IN
      /\ \A x \in r, y \in r : x[1] = y[1] => x = y
      /\ \A x \in r : Visible(x[1]) # None =>
            \A i \in DOMAIN Visible(x[1]).imps : \E y \in r : y[1] = Visible(x[1]).imps[i]

\* Printing of complete behaviours (TLC evaluates this as an invariant).
Emit == Len(hist) = Depth =>
            PrintT(<<"BEHAVIOUR", ToJson([config |-> config, dirs |-> RootDirs(config), start |-> DbStart, ops |-> hist, final |-> Final])>>)
==========================================================================
