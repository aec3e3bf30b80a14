-------------------------------- MODULE T_Cli --------------------------------
(* Recorded command-line runs, in one results folder per case (the folder is *)
(* read after every run), or starting from an empty one (fresh).             *)
(* ev: run (see Cli), fresh, exit, exists, files: sequence of                *)
(* [name, digest], table: the numbers of the printed rows                    *)
EXTENDS Cli, Obs
VARIABLES c, l, st
(* book: every picture seen, with the digest of its content *)
InitSt(cs) == [f |-> Start, book |-> {}]
StepSt(cs, s, ev) ==
    LET f0 == IF ev.fresh THEN [Start EXCEPT !.n = s.f.n] ELSE s.f
        f1 == Run(f0, ev.run, cs.data)
        new == {<<g, ev.files[i].digest>> : <<g, i>> \in {p \in f1.figs \X (1..Len(ev.files)) : p[1].name = ev.files[p[2]].name}}
    IN [f |-> f1, book |-> s.book \cup new]
(* figures of one command and kind *)
Fails(cs, s, t, ev) ==
    LET names == {ev.files[i].name : i \in 1..Len(ev.files)}
        new == t.book \ s.book
    IN Clause(IF Refused(ev.run) THEN ev.exit # 0 ELSE ev.exit = 0, IF Refused(ev.run) THEN "cli:refused" ELSE "cli:runs") \cup
       Clause(~Refused(ev.run) => ev.exists, "cli:folder") \cup
       Clause(ev.run.bad = "group" \/ ev.run.place = "deep" => ev.exists = t.f.exists, "cli:folder-untouched") \cup
       Clause(names = Names(t.f), "cli:figures") \cup
       Clause(\A p \in new, q \in t.book : p[1].same = q[1].same => p[2] = q[2], "cli:reproducible") \cup
       Clause(\A p \in new, q \in t.book : (p[1].same[1] = q[1].same[1] /\ p[1].differ # q[1].differ) => p[2] # q[2], "cli:option-has-effect") \cup
       Clause(ev.exit # 0 \/ ev.table = Table(ev.run), "cli:table")
Undecided(cs, s, t, ev) == FALSE
INSTANCE TraceBase
=============================================================================
