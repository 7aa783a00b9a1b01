----------------------------- MODULE Repository -----------------------------
(***************************************************************************)
(* The local repository of documents (plotline-cli/src/repository.rs), the  *)
(* commands on documents (plotline-cli/src/document.rs) and the program     *)
(* (plotline-cli/src/main.rs).                                              *)
(*                                                                          *)
(* A file name is the sequence of its parts between dots, a path is a       *)
(* sequence of names: <<<<"d">>, <<"a", "md">>>> is d/a.md. A name starting *)
(* with a dot has "" as its first part. The extension is such a sequence,   *)
(* too: of "a.tar.gz" with extension "tar.gz", <<"tar", "gz">>, "a" remains.*)
(*                                                                          *)
(* Contents: 0 nothing, 1..5 a file (1: empty, 5: large), 6 a symbolic link  *)
(* to nothing, 7 a socket, 8 a symbolic link to a directory, 9 a directory, *)
(* 10 a directory of directories so deep that walking them fails.           *)
(* Symbolic links to files are not modelled.                                *)
(*                                                                          *)
(* Besides the candidates there are any number of documents in a directory  *)
(* of their own: how many there are, and how many the schema holds.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Pool, MaxLen, Mode, Acts, NC

VARIABLES cfg,      \* pool: candidate paths; ids: ids observed; ext; ctx: how the base directory is named
          nam,      \* what follows from these names
          at, ign, \* what is at each candidate path; the candidates whose names are ignored
          bulk,    \* n: in the directory, held: by the schema of the session
          sess, graph, \* a session of commands: whether there is one, what its schema holds for each id
          hist
core == <<cfg.ctx, at, ign, bulk, sess, graph>>     \* the names are constant in a model
vars == <<cfg, nam, at, ign, bulk, sess, graph, hist>>

-----------------------------------------------------------------------------
(* names and ids *)

Ends(n, e) == Len(n) > Len(e) /\ SubSeq(n, Len(n) - Len(e) + 1, Len(n)) = e
Last1(p) == p[Len(p)]
Dir(p) == SubSeq(p, 1, Len(p) - 1)
(* the id of the document at path p, <<>> if it is not a document's *)
Strip(p, e) == IF Ends(Last1(p), e)
               THEN Append(Dir(p), SubSeq(Last1(p), 1, Len(Last1(p)) - Len(e)))
               ELSE <<>>
FileOf(id, e) == Append(Dir(id), Last1(id) \o e)
HiddenName(n) == Len(n) > 1 /\ n[1] = ""
Hidden(p) == \E k \in 1..Len(p) : HiddenName(p[k])

Cands == 1..Len(cfg.pool)
IdIdx == 1..Len(cfg.ids)
IsFile(c) == c \in 1..5

CandIn(pool, p) == IF \E k \in 1..Len(pool) : pool[k] = p THEN CHOOSE k \in 1..Len(pool) : pool[k] = p ELSE 0
(* What follows from the names alone: the candidate that would hold an id, the parent of a candidate
   (-1: none is needed), whether it is visible, the top-level names that occur in it. *)
Derive(c) ==
    [file |-> [j \in 1..Len(c.ids) |-> CandIn(c.pool, FileOf(c.ids[j], c.ext))],
     par |-> [k \in 1..Len(c.pool) |-> IF Len(c.pool[k]) = 1 THEN -1 ELSE CandIn(c.pool, Dir(c.pool[k]))],
     vis |-> [k \in 1..Len(c.pool) |-> ~Hidden(c.pool[k])],
     comp |-> [k \in 1..Len(c.pool) |->
        {m \in 1..Len(c.pool) : Len(c.pool[m]) = 1 /\ \E n \in 1..Len(c.pool[k]) : c.pool[k][n] = c.pool[m][1]}]]

(* contents of the file that would hold the j-th id; 0 if there is no such file *)
Found(j) == LET k == nam.file[j] IN IF k = 0 THEN 0 ELSE IF IsFile(at[k]) THEN at[k] ELSE 0
Ignored(k) == ign \cap nam.comp[k] # {}
IsListed(j) == IF Found(j) = 0 THEN FALSE ELSE nam.vis[nam.file[j]] /\ ~Ignored(nam.file[j])

Proj == [ l |-> [j \in IdIdx |-> IF IsListed(j) THEN 1 ELSE 0],
          b |-> [j \in IdIdx |-> IF IsListed(j) THEN Found(j) ELSE 0],
          f |-> [j \in IdIdx |-> Found(j)],
          g |-> [j \in IdIdx |-> IF graph[j] = 0 THEN 0 ELSE 1],
          n |-> bulk.n, gn |-> bulk.held ]
Rec(e) == hist' = CASE Mode = "sim"   -> Append(hist, e @@ [x |-> Proj'])
                    [] Mode = "trace" -> <<e @@ [x |-> Proj']>>
                    [] OTHER          -> Append(hist, e)

-----------------------------------------------------------------------------
(* candidate paths *)

N(s) == <<s>>
Md(s) == <<s, "md">>
Pools(name) ==
    CASE name = "dots" -> [ext |-> <<"md">>, pool |-> <<
            <<Md("a")>>, <<<<"a", "b", "md">>>>, <<<<"a", "b">>>>, <<<<"a", "md", "md">>>>, <<<<"a", "", "md">>>>,
            <<<<"a">>>>, <<<<"a", "b", "c", "md">>>>>>]
      [] name = "others" -> [ext |-> <<"md">>, pool |-> <<
            <<Md("a")>>, <<<<"amd">>>>, <<<<"a", "mdx">>>>, <<<<"a", "md", "bak">>>>, <<<<"", "md">>>>, <<<<"", "h", "md">>>>,
            <<<<"a", "MD">>>>, <<<<"md">>>>, <<<<"a b", "md">>>>, <<<<"\\", "md">>>>, <<<<"raw", "md">>>>>>]
      [] name = "dirs" -> [ext |-> <<"md">>, pool |-> <<
            <<N("d")>>, <<N("d"), Md("a")>>, <<Md("d")>>, <<Md("d"), Md("a")>>, <<N("d"), Md("e")>>,
            <<N("d"), Md("e"), Md("a")>>, <<<<"", "h">>>>, <<<<"", "h">>, Md("a")>>, <<Md("a")>>, <<N("a")>>>>]
      [] name = "dotted" -> [ext |-> <<"t", "u">>, pool |-> <<
            <<<<"a", "t", "u">>>>, <<<<"a", "u">>>>, <<<<"a", "txu">>>>, <<<<"a", "b", "t", "u">>>>, <<<<"a", "t", "t", "u">>>>,
            <<<<"t", "u">>>>, <<<<"a", "t", "u", "t", "u">>>>>>]
      [] name = "plus" -> [ext |-> <<"c++">>, pool |-> <<
            <<<<"a", "c++">>>>, <<<<"a", "c">>>>, <<<<"a", "cc">>>>, <<<<"a", "b", "c++">>>>, <<<<"a">>>>>>]
      [] name = "star" -> [ext |-> <<"*">>, pool |-> <<
            <<<<"a", "*">>>>, <<<<"a", "md">>>>, <<<<"a">>>>, <<<<"a", "">>>>, <<<<"a", "b", "*">>>>>>]
      [] name = "bracket" -> [ext |-> <<"[x">>, pool |-> <<
            <<<<"a", "[x">>>>, <<<<"a", "x">>>>, <<<<"a", "[x", "[x">>>>>>]
      [] name = "either" -> [ext |-> <<"md|x$">>, pool |-> <<
            <<<<"a", "md|x$">>>>, <<<<"a", "md">>>>, <<<<"a", "x">>>>, <<<<"ax">>>>>>]
      [] name = "alike" -> [ext |-> <<"md">>, pool |-> <<
            <<Md("a")>>, <<Md("A")>>, <<Md("a ")>>, <<Md(" a")>>, <<<<"A", "MD">>>>, <<<<"a ", "b", "md">>>>, <<<<"a", "md\nx">>>>>>]
      [] name = "escaped" -> [ext |-> <<"md">>, pool |-> <<
            <<Md("a b")>>, <<Md("a%20b")>>, <<Md("a+b")>>, <<Md("[ab]")>>, <<Md("*")>>, <<Md("a")>>, <<N("target")>>, <<N("target"), Md("~")>>>>]
      [] name = "empty" -> [ext |-> <<"">>, pool |-> <<
            <<<<"a", "">>>>, <<<<"a">>>>, <<<<"a", "md">>>>, <<<<"a", "", "">>>>>>]
      [] name = "leading" -> [ext |-> <<"", "md">>, pool |-> <<
            <<<<"a", "", "md">>>>, <<Md("a")>>, <<<<"a", "b", "md">>>>, <<<<"b", "", "md">>>>>>]
      [] name = "one" -> [ext |-> <<"md">>, pool |-> << <<Md("a")>>, <<Md("b")>> >>]
      [] name = "session" -> [ext |-> <<"md">>, pool |-> <<
            <<Md("b")>>, <<<<"a", "b", "md">>>>, <<N("b")>>, <<N("b"), Md("a")>>>>]
      [] name = "big" -> [ext |-> <<"md">>, pool |-> <<
            <<Md("a")>>, <<<<"a", "b", "md">>>>, <<<<"a", "mdx">>>>, <<<<"", "h", "md">>>>, <<N("d")>>, <<N("d"), Md("a")>>,
            <<N("d"), <<"a", "b", "md">>>>, <<N("d"), N("e")>>, <<N("d"), N("e"), Md("a")>>, <<Md("d")>>, <<Md("d"), Md("a")>>,
            <<<<"", "h">>>>, <<<<"", "h">>, Md("a")>>, <<<<"B", "md">>>>, <<<<"a-b", "md">>>>, <<N("a")>>, <<N("a"), Md("a")>> >>]

IdsOf(c) == {FileOf(p, <<>>) : p \in {c.pool[k] : k \in 1..Len(c.pool)}} \cup
            ({Strip(c.pool[k], c.ext) : k \in 1..Len(c.pool)} \ {<<>>, <<<<"">>>>})
Config(c, ctx) == [pool |-> c.pool, ext |-> c.ext, ids |-> SetToSeq(IdsOf(c)), ctx |-> ctx]
Contexts == IF "Contexts" \in Acts THEN {"abs", "slash", "dot", "rel", "hidden", "up", "link"} ELSE {"abs"}

Init == /\ \E ctx \in Contexts : cfg = Config(Pools(Pool), ctx)
        /\ nam = Derive(cfg)
        /\ at = [k \in Cands |-> 0]
        /\ ign = {}
        /\ bulk = [n |-> 0, held |-> 0]
        /\ sess = FALSE
        /\ graph = [j \in IdIdx |-> 0]
        /\ hist = <<[a |-> "Init", cfg |-> cfg]>>

-----------------------------------------------------------------------------
(* the directory *)

ParentOk(k) == IF nam.par[k] <= 0 THEN nam.par[k] = -1 ELSE at[nam.par[k]] = 9
Leaf(k) == \A m \in Cands : at[m] # 0 => nam.par[m] # k
SameView == UNCHANGED <<cfg, nam, sess, graph>>

Mkdir(k) ==
    /\ at[k] = 0 /\ ParentOk(k)
    /\ at' = [at EXCEPT ![k] = 9]
    /\ UNCHANGED <<ign, bulk>> /\ SameView
    /\ Rec([a |-> "Mkdir", k |-> k])

Write(k, c) ==
    /\ at[k] \in 0..5 /\ at[k] # c /\ ParentOk(k)
    /\ at' = [at EXCEPT ![k] = c]
    /\ UNCHANGED <<ign, bulk>> /\ SameView
    /\ Rec([a |-> "Write", k |-> k, c |-> c])

Unlink(k) ==
    /\ at[k] # 0 /\ Leaf(k)
    /\ at' = [at EXCEPT ![k] = 0]
    /\ UNCHANGED <<ign, bulk>> /\ SameView
    /\ Rec([a |-> "Remove", k |-> k])

(* rename(2) of a file *)
Rename(k, m) ==
    /\ IsFile(at[k]) /\ k # m /\ at[m] \in 0..5 /\ ParentOk(m)
    /\ at' = [at EXCEPT ![k] = 0, ![m] = at[k]]
    /\ UNCHANGED <<ign, bulk>> /\ SameView
    /\ Rec([a |-> "Rename", k |-> k, m |-> m])

(* something that is neither a file nor a directory *)
Special(k, c) ==
    /\ at[k] = 0 /\ ParentOk(k)
    /\ at' = [at EXCEPT ![k] = c]
    /\ UNCHANGED <<ign, bulk>> /\ SameView
    /\ Rec([a |-> "Special", k |-> k, c |-> c])

(* how: which file says so *)
Ignore(k, how) ==
    /\ nam.par[k] = -1 /\ k \notin ign
    /\ how = "parent" => cfg.ctx = "abs"
    /\ ign' = ign \cup {k}
    /\ UNCHANGED <<at, bulk>> /\ SameView
    /\ Rec([a |-> "Ignore", k |-> k, how |-> how])

(* there are n documents in a directory whose name no candidate has *)
Fill(n) ==
    /\ bulk.n < n
    /\ bulk' = [bulk EXCEPT !.n = n]
    /\ UNCHANGED <<at, ign>> /\ SameView
    /\ Rec([a |-> "Fill", n |-> n])

-----------------------------------------------------------------------------
(* commands. A graph entry: 0 absent, -1 not loaded, otherwise the contents *)

Listing == [j \in IdIdx |-> IF IsListed(j) THEN -1 ELSE 0]
Flat(g) == [j \in IdIdx |-> IF g[j] = 0 THEN 0 ELSE 1]

Start ==
    /\ sess' = TRUE
    /\ graph' = Listing
    /\ bulk' = [bulk EXCEPT !.held = bulk.n]
    /\ UNCHANGED <<cfg, nam, at, ign>>
    /\ Rec([a |-> "Start"])

SameFiles == UNCHANGED <<cfg, nam, at, ign, bulk, sess>>

List ==
    /\ sess /\ SameFiles /\ UNCHANGED graph
    /\ Rec([a |-> "List", r |-> "ok", out |-> Flat(graph), outn |-> bulk.held])

Save(j, c) ==
    /\ sess /\ SameFiles
    /\ graph' = [graph EXCEPT ![j] = c]
    /\ Rec([a |-> "Save", j |-> j, c |-> c, r |-> "ok"])

Delete(j) ==
    /\ sess /\ SameFiles
    /\ graph' = [graph EXCEPT ![j] = 0]
    /\ Rec([a |-> "Delete", j |-> j, r |-> IF graph[j] = 0 THEN "noop" ELSE "ok"])

(* save or delete without an id *)
NoId(cmd) ==
    /\ sess /\ SameFiles /\ UNCHANGED graph
    /\ Rec([a |-> "NoId", cmd |-> cmd, r |-> "failed"])

(* resolves a document of the graph; r: -9 not in the graph, 0 its file is gone *)
Read(j) ==
    /\ sess /\ SameFiles
    /\ LET c == IF graph[j] = -1 THEN Found(j) ELSE graph[j] IN
       /\ graph' = IF graph[j] = -1 /\ c # 0 THEN [graph EXCEPT ![j] = c] ELSE graph
       /\ Rec([a |-> "Read", j |-> j, r |-> IF graph[j] = 0 THEN -9 ELSE c])

(* the program performs one command *)
Prog(cmd, j, c) ==
    /\ UNCHANGED <<cfg, nam, at, ign, bulk, sess, graph>>
    /\ LET e == [a |-> "Prog", cmd |-> cmd, j |-> j, c |-> c] IN
       CASE cmd = "list"   -> Rec(e @@ [exit |-> 0, why |-> "", out |-> Flat(Listing), outn |-> bulk.n])
         [] cmd = "delete" -> Rec(e @@ IF j = 0 THEN [exit |-> 1, why |-> "other"]
                                     ELSE IF Listing[j] = 0 THEN [exit |-> 1, why |-> "noop"]
                                     ELSE [exit |-> 0, why |-> ""])
         [] cmd = "save"   -> Rec(e @@ IF j = 0 THEN [exit |-> 1, why |-> "other"] ELSE [exit |-> 0, why |-> ""])

(* ids given on a command line are text *)
Plain(j) == \A k \in 1..Len(cfg.ids[j]) : "raw" \notin {cfg.ids[j][k][m] : m \in 1..Len(cfg.ids[j][k])}

Next ==
    \/ \E k \in Cands : Mkdir(k) /\ (Pool \notin {"dots", "others", "one"} \/ "Mkdir" \in Acts)
    \/ \E k \in Cands, c \in 1..NC : Write(k, c)
    \/ "Remove" \in Acts /\ \E k \in Cands : Unlink(k)
    \/ "Rename" \in Acts /\ \E k, m \in Cands : Rename(k, m)
    \/ "Special" \in Acts /\ \E k \in Cands, c \in {6, 7, 8, 10} : Special(k, c)
    \/ "Ignore" \in Acts /\ \E k \in Cands, how \in {".ignore", ".gitignore", "exclude", "parent"} : Ignore(k, how)
    \/ "Fill" \in Acts /\ \E n \in {3, 1500} : Fill(n)
    \/ "Session" \in Acts /\
       \/ Start
       \/ List
       \/ \E j \in IdIdx : Plain(j) /\ (Delete(j) \/ Read(j) \/ \E c \in 1..IF NC < 3 THEN NC ELSE 3 : Save(j, c))
       \/ \E cmd \in {"save", "delete"} : NoId(cmd)
    \/ "Prog" \in Acts /\
       \/ Prog("list", 0, 0)
       \/ \E j \in IdIdx : Plain(j) /\ (Prog("delete", j, 0) \/ \E c \in 1..IF NC < 3 THEN NC ELSE 3 : Prog("save", j, c))
       \/ \E cmd \in {"save", "delete"} : Prog(cmd, 0, 0)

Spec == Init /\ [][Next]_vars
BNext == Len(hist) < MaxLen /\ Next
BSpec == Init /\ [][BNext]_vars
Emit == Mode # "test" \/ PrintT("@T" \o ToJson([h |-> hist', x |-> Proj']))
EmitSim == \/ Mode # "sim"
           \/ Len(hist) < MaxLen
           \/ PrintT("@S" \o ToJson(hist))

-----------------------------------------------------------------------------
TypeOK == /\ \A k \in Cands : at[k] \in 0..10
          /\ \A j \in IdIdx : graph[j] \in {-1, 0, 1, 2, 3, 4, 5}
          /\ \A k \in Cands : at[k] # 0 => ParentOk(k)

(* C14: ids and documents correspond one to one, so that every visible document is listed once and no
   lookup can find another document's file *)
OneToOne ==
    /\ \A i, j \in IdIdx : i # j => FileOf(cfg.ids[i], cfg.ext) # FileOf(cfg.ids[j], cfg.ext)
    /\ \A k \in Cands :
         (IsFile(at[k]) /\ ~Hidden(cfg.pool[k]) /\ ~Ignored(k) /\ Ends(Last1(cfg.pool[k]), cfg.ext)) =>
            Cardinality({j \in IdIdx : IsListed(j) /\ FileOf(cfg.ids[j], cfg.ext) = cfg.pool[k]}) = 1
(* C14: what is listed is found, with its own contents *)
ListedIsFound == \A j \in IdIdx : IsListed(j) =>
    \E k \in Cands : cfg.pool[k] = FileOf(cfg.ids[j], cfg.ext) /\ Found(j) = at[k] /\ Found(j) # 0

Happened(e) == hist' # hist /\ hist'[Len(hist')].a = e
E == hist'[Len(hist')]
(* C15 *)
OnlyThatId == [][(Happened("Save") \/ Happened("Delete") \/ Happened("Read")) =>
                   \A j \in IdIdx : j # E.j => graph'[j] = graph[j]]_vars
FailuresChangeNothing == [][(Happened("NoId") \/ (Happened("Delete") /\ E.r # "ok")) => graph' = graph]_vars
DeleteSucceeds == [][Happened("Delete") => (E.r = "ok" <=> graph[E.j] # 0) /\ graph'[E.j] = 0]_vars
ListsGraph == [][Happened("List") => \A j \in IdIdx : E.out[j] = (IF graph[j] = 0 THEN 0 ELSE 1)]_vars
FilesUntouched == [][(Happened("Save") \/ Happened("Delete") \/ Happened("Prog") \/ Happened("List")) => at' = at]_vars
=============================================================================
