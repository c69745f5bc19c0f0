-------------------------------- MODULE Monitor --------------------------------
(***************************************************************************)
(* The command monitor: what each line typed at the prompt does, the       *)
(* stored program and its files, LIST and RENUM, and the ways of starting  *)
(* the interpreter.                                                        *)
(*                                                                         *)
(* The mode of a state s is                                                *)
(*   "prompt"  waiting for a command line     "run"   executing statements *)
(*   "ran"     a statement has just failed    "page"  LIST is pausing      *)
(*   "long"    discarding an over-long line   "done"  ended                *)
(*   "lost"    outside what is specified here (not explored further)       *)
(***************************************************************************)
EXTENDS VM, Shell

MAXCMD  == 127   \* characters of a command line including its NL
PAGE    == 24
MAXNUMB == 65535

Say(s, t) == Out(s, t \o <<NL>>)
Tell(s, t) == [s EXCEPT !.err = @ \o t]        \* to the error output
Prompt(s) == Out([s EXCEPT !.mode = "prompt"], <<62, SPACE>>)
Ended(s, exit) == [s EXCEPT !.mode = "done", !.exit = exit]

\* after an action that may have started execution
After(s) == IF s.mode \in {"run", "lost"} THEN s ELSE Prompt(s)

\* ---- the stored program
Changed(s) == [s EXCEPT !.prog = NoProg]

RECURSIVE Place(_, _, _)
Place(src, n, i) == IF i > Len(src) \/ src[i].n >= n THEN i ELSE Place(src, n, i + 1)

Enter(s, n, t) ==
  LET i == Place(s.src, n, 1)
      rest == IF i <= Len(s.src) /\ s.src[i].n = n THEN i + 1 ELSE i
  IN Changed([s EXCEPT !.has = TRUE,
                       !.src = SubSeq(@, 1, i - 1) \o <<[n |-> n, t |-> t]>> \o SubSeq(@, rest, Len(@))])
Delete(s, n) ==
  LET i == Place(s.src, n, 1) IN
  IF i <= Len(s.src) /\ s.src[i].n = n THEN Changed([s EXCEPT !.src = Without(@, i)]) ELSE s

ProgramLine(s, l) ==
  LET j == SkipDigits(l, 1)
      n == NumFrom(l, 1, j, 0)
  IN IF n = 0 \/ n = BIG THEN Say(s, Txt("Invalid line number"))
     ELSE IF j > Len(l) THEN Delete(s, n)
     ELSE Enter(s, n, Drop(l, IF l[j] = SPACE THEN j + 1 ELSE j))

\* ---- files
\* the lines of a file: text up to each NL, the last one perhaps without
RECURSIVE FileLines(_, _)
FileLines(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET e == FindFrom(t, NL, i) IN <<SubSeq(t, i, e - 1)>> \o FileLines(t, e + 1)

\* what is wrong with a line of a file after the number prev, or <<>>
FileErr(l, prev) ==
  LET j == SkipDigits(l, 1)
      n == NumFrom(l, 1, j, 0)
  IN IF l = <<>> THEN Txt("source line is empty")
     ELSE IF \E i \in 1..Len(l) : l[i] = 0 THEN Txt("source line has a null character")
     ELSE IF j = 1 THEN Txt("line has no line number")
     ELSE IF n = BIG THEN Txt("line number is out of range")
     ELSE IF n = 0 THEN Txt("invalid line number: 0")
     ELSE IF n <= prev THEN Txt("line number is not in increasing order: ") \o NatTxt(n)
     ELSE <<>>
FileLine(l) ==
  LET j == SkipDigits(l, 1) IN
  [n |-> NumFrom(l, 1, j, 0), t |-> Drop(l, IF j <= Len(l) /\ l[j] = SPACE THEN j + 1 ELSE j)]

\* <<message, lines>>
RECURSIVE ReadLines(_, _, _, _)
ReadLines(ls, i, name, src) ==
  IF i > Len(ls) THEN <<<<>>, src>>
  ELSE LET e == FileErr(ls[i], IF src = <<>> THEN 0 ELSE Last(src).n) IN
       IF e # <<>> THEN <<name \o <<40>> \o NatTxt(i) \o Txt("): ") \o e \o <<NL>>, src>>
       ELSE ReadLines(ls, i + 1, name, Append(src, FileLine(ls[i])))

HERE == "."            \* a directory: it can be opened, but not read or written
FULL == "/dev/full"    \* a device that cannot be written to
Writable(name) == name # <<>> /\ name # <<46>> /\ \A i \in 1..Len(name) : name[i] # 47   \* there are no directories

Load(s, name) ==
  LET k == Str(name) IN
  IF k = HERE THEN Tell(s, name \o Txt("(1): error reading source file") \o <<NL>>)
  ELSE IF k \notin DOMAIN s.fs THEN Tell(s, Txt("Cannot open source file: ") \o name \o <<NL>>)
  ELSE LET r == ReadLines(FileLines(s.fs[k], 1), 1, name, <<>>) IN
       IF r[1] # <<>> THEN Tell(s, r[1])
       ELSE Changed([s EXCEPT !.has = TRUE, !.src = r[2], !.name = name])

RECURSIVE SourceText(_, _)
SourceText(src, i) == IF i > Len(src) THEN <<>> ELSE LineText(src[i]) \o <<NL>> \o SourceText(src, i + 1)


Save(s, name) ==
  IF ~s.has THEN s
  ELSE LET t == SourceText(s.src, 1) IN
       IF Str(name) = FULL
       THEN IF t = <<>> THEN s ELSE Tell(s, Txt("error writing file: ") \o name \o <<NL>>)
       ELSE IF ~Writable(name) THEN Tell(s, Txt("cannot create file: ") \o name \o <<NL>>)
       ELSE [s EXCEPT !.fs = (Str(name) :> t) @@ @]

\* a quoted name up to the end of l: <<whether there is one, the name, the rest of l>>
Quoted(l) ==
  LET p == SkipBlank(l, 1) IN
  IF p > Len(l) \/ l[p] # QUOTE THEN <<FALSE, <<>>, <<>>>>
  ELSE LET e == FindFrom(l, QUOTE, p + 1) IN <<TRUE, SubSeq(l, p + 1, e - 1), Drop(l, e + 1)>>

AtEnd(l) == SkipBlank(l, 1) > Len(l)
BadEnd(s) == Say(s, Txt("Command syntax error"))

WithFile(s, cmd, l) ==
  LET q == Quoted(l)
      no == Txt("Quoted file name expected")
  IN IF ~q[1] THEN Say(s, no)
     ELSE IF ~AtEnd(q[3]) THEN Say(BadEnd(s), no)
     ELSE IF cmd = "LOAD" THEN Load(s, q[2]) ELSE Save(s, q[2])

\* ---- LIST
\* a number at position p of l if there is one: <<the number, or else, the position after it>>
NumAt(l, p, else) ==
  IF p <= Len(l) /\ IsDigit(l[p])
  THEN LET j == SkipDigits(l, p) IN <<NumFrom(l, p, j, 0), j>> ELSE <<else, p>>
CharAt(l, p) == IF p <= Len(l) THEN l[p] ELSE 0

ListArgs(l) ==
  LET a == NumAt(l, SkipBlank(l, 1), 0)
      p == SkipBlank(l, a[2])
      b == IF CharAt(l, p) = 45 THEN NumAt(l, SkipBlank(l, p + 1), BIG) ELSE <<BIG, p>>
      q == SkipBlank(l, b[2])
      page == Low(CharAt(l, q)) = 112
  IN [from |-> a[1], to |-> b[1], page |-> page, rest |-> Drop(l, IF page THEN q + 1 ELSE q)]

\* list from the i-th line on, c lines having been shown
RECURSIVE ListOn(_, _, _, _)
ListOn(s, i, c, a) ==
  IF i > Len(s.src) \/ s.src[i].n > a.to THEN Prompt(s)
  ELSE IF s.src[i].n < a.from THEN ListOn(s, i + 1, c, a)
  ELSE LET t == Out(s, LineText(s.src[i])) IN
       IF a.page /\ (c + 1) % PAGE = PAGE - 1 /\ i < Len(s.src)
       THEN [t EXCEPT !.mode = "page", !.pg = [i |-> i + 1, c |-> c + 1, a |-> a]]
       ELSE ListOn(Out(t, <<NL>>), i + 1, c + 1, a)
List(s, l) == LET a == ListArgs(l) IN IF AtEnd(a.rest) THEN ListOn(s, 1, 0, a) ELSE Prompt(BadEnd(s))

\* the rest of the line being read, if any, is read and dropped
NoLineMore(s) == IF s.tin = <<>> THEN s ELSE [s EXCEPT !.tin = Tail(@), !.nread = @ + 1]

TurnPage(s) ==     \* a line has been typed, or input has ended; an interrupt ends the listing
  LET brk == (s.reads + 1) \in s.breaks.input
      t == [NoLineMore(s) EXCEPT !.reads = @ + 1, !.marks = IF brk THEN Append(@, s.nread) ELSE @]
  IN IF brk THEN Prompt(t) ELSE ListOn(t, s.pg.i, s.pg.c, s.pg.a)

\* ---- RENUM
RenumArgs(l) ==
  LET a == NumAt(l, SkipBlank(l, 1), 10)
      p == SkipBlank(l, a[2])
      b == IF CharAt(l, p) = 44 THEN NumAt(l, SkipBlank(l, p + 1), 1) ELSE <<1, p>>
      c == IF CharAt(l, b[2]) = 44 THEN NumAt(l, SkipBlank(l, b[2] + 1), 10) ELSE <<10, b[2]>>
  IN [new |-> a[1], old |-> b[1], inc |-> c[1], rest |-> Drop(l, c[2])]

\* new numbers for the lines from i on: <<message, numbers>>
RECURSIVE NewNums(_, _, _, _, _, _)
NewNums(src, i, next, prev, a, ns) ==
  IF i > Len(src) THEN <<<<>>, ns>>
  ELSE LET n == src[i].n
           what == Txt("Cannot renumber line ") \o NatTxt(n) \o Txt(" to ") \o NatTxt(next)
       IN IF n < a.old THEN NewNums(src, i + 1, next, n, a, Append(ns, n))
          ELSE IF next <= prev THEN <<what \o Txt(" after line ") \o NatTxt(prev), ns>>
          ELSE IF next > MAXNUMB THEN <<what \o Txt(": number out of range"), ns>>
          ELSE NewNums(src, i + 1, next + a.inc, next, a, Append(ns, next))

RECURSIVE RenRefs(_, _), RenNums(_, _, _), RenData(_)
\* L is at a token: change the references in the rest of its line by map m
RenRefs(L, m) ==
  IF L.tok \in {TEOF, NL, TREM} THEN L
  ELSE IF L.tok = TDATA THEN RenRefs(RenData(L), m)
  ELSE IF L.tok \in {TGOTO, TGOSUB, TTHEN, TELSE, TRESTORE}
  THEN RenNums(LexNext(L), L.tok \in {TGOTO, TGOSUB}, m)
  ELSE RenRefs(LexNext(L), m)
RenNums(L, list, m) ==
  IF L.tok # TNUM THEN RenRefs(L, m)
  ELSE LET k == NInt(L.num)
           M == IF NIsInt(L.num) /\ k \in DOMAIN m
                THEN LexNext([L EXCEPT !.text = SubSeq(@, 1, L.tpos) \o NatTxt(m[k])
                                                \o Drop(@, L.tpos + Len(L.word) + 1),
                                       !.pos = L.tpos])
                ELSE L
           N == LexNext(M)
       IN IF list /\ N.tok = 44 THEN RenNums(LexNext(N), list, m) ELSE RenRefs(N, m)
RenData(L) ==
  LET D == LexData(L) IN
  IF D.tok = TERR THEN D
  ELSE LET N == LexNext(D) IN IF N.tok = 44 THEN RenData(N) ELSE N

RECURSIVE RenLines(_, _, _, _)   \* from the i-th line on; L collects error messages
RenLines(s, i, L, m) ==
  IF i > Len(s.src) THEN Tell(s, L.err)
  ELSE LET M == RenRefs(LexLine(L, i - 1, s.src[i].t), m) IN
       RenLines([s EXCEPT !.src[i].t = M.text], i + 1, M, m)

Renumber(s, a) ==
  IF ~s.has THEN s
  ELSE LET r == NewNums(s.src, 1, a.new, 0, a, <<>>) IN
       IF r[1] # <<>> THEN Say(s, r[1])
       ELSE LET m == [n \in {s.src[i].n : i \in 1..Len(s.src)} |->
                        r[2][CHOOSE i \in 1..Len(s.src) : s.src[i].n = n]]
                t == [s EXCEPT !.src = Tup([i \in 1..Len(@) |-> [n |-> r[2][i], t |-> @[i].t]], Len(@))]
            IN Changed(RenLines(t, 1, NewLex(<<>>, s.any), m))
Renum(s, l) == LET a == RenumArgs(l) IN IF AtEnd(a.rest) THEN Renumber(s, a) ELSE BadEnd(s)

\* ---- commands
HelpText == <<
  Txt("BYE                       quit to operating system"),
  Txt("COMPILE                   compile program to check syntax without running"),
  Txt("CONT                      continue program after STOP or break"),
  Txt("HELP                      show this help"),
  Txt("LIST [[start]-[end]][P]   list current file"),
  Txt("LOAD \"program.bas\"        load source from file"),
  Txt("NEW                       wipe current file from memory"),
  Txt("RENUM [new[,old[,inc]]]   renumber program lines"),
  Txt("RUN                       run current file as a Basic program"),
  Txt("SAVE \"program.bas\"        save current file under given name"),
  Txt("*DIR                      run DIR or other operating system command") >>
RECURSIVE Help(_, _)
Help(s, i) == IF i > Len(HelpText) THEN s ELSE Help(Say(s, HelpText[i]), i + 1)

New(s) == Changed(Forget([s EXCEPT !.src = <<>>]))

Cont(s) == IF s.cont.on /\ s.prog.ok THEN Continue(s) ELSE Say(s, Txt("Cannot continue"))

Commands == {"BYE", "COMPILE", "CONT", "HELP", "LIST", "LOAD", "NEW", "RENUM", "RENUMBER", "RUN", "SAVE"}

Command(s, w, l) ==
  CASE w = "BYE" -> IF AtEnd(l) THEN Ended(s, 0) ELSE Prompt(BadEnd(s))
    [] w = "COMPILE" -> Prompt(Compile(s))
    [] w = "CONT" -> After(Cont(s))
    [] w = "HELP" -> Prompt(Help(s, 1))
    [] w = "LIST" -> List(s, l)
    [] w \in {"LOAD", "SAVE"} -> Prompt(WithFile(s, w, l))
    [] w = "NEW" -> Prompt(IF AtEnd(l) THEN New(s) ELSE BadEnd(s))
    [] w \in {"RENUM", "RENUMBER"} -> Prompt(Renum(s, l))
    [] w = "RUN" -> After(RunProgram([s EXCEPT !.val = EMPTY, !.arr = EMPTY, !.def = EMPTY]))

\* a line for the operating system, which changes nothing here
RECURSIVE Effects(_, _, _)
Effects(s, cs, i) ==
  IF i > Len(cs) THEN s
  ELSE LET c == cs[i]
           old == IF c.redir = "append" /\ c.to \in DOMAIN s.fs THEN s.fs[c.to] ELSE <<>>
       IN Effects(IF c.redir = "" THEN Out(s, c.t) ELSE [s EXCEPT !.fs = (c.to :> (old \o c.t)) @@ @], cs, i + 1)
System(s, t) ==
  IF t = <<>> THEN Prompt(s)
  ELSE LET r == Shell(t) IN
       IF r.ok THEN Prompt(Effects(s, r.cmds, 1)) ELSE [s EXCEPT !.mode = "lost"]

Interpret(s, t) ==
  LET l == Drop(t, SkipBlank(t, 1))
      e == SkipAlpha(l, 1)
      w == IF e - 1 <= 8 THEN Str(Upper(SubSeq(l, 1, e - 1))) ELSE ""
  IN IF l = <<>> THEN Prompt(s)
     ELSE IF IsDigit(l[1]) THEN Prompt(ProgramLine(s, l))
     ELSE IF l[1] = 42 THEN System(s, Drop(l, SkipBlank(l, 2)))
     ELSE IF w \in Commands THEN Command(s, w, Drop(l, e))
     ELSE After(RunImmediate(s, l))

\* the next command line: it has been typed, or input has ended
ReadCommand(s) ==
  LET r == Fetch(s, MAXCMD) IN
  IF r[1] = <<>> THEN Ended(s, 0)
  ELSE IF Last(r[1]) = NL THEN Interpret(r[2], Front1(r[1]))
  ELSE IF Len(r[1]) < MAXCMD THEN Interpret(r[2], r[1])
  ELSE [Say(r[2], Txt("Command line too long")) EXCEPT !.mode = "long"]

DropLine(s) == Prompt(NoLineMore(s))

\* execution has ended
Return(s) == LET e == EndRun(s) IN IF e.file THEN Ended(e, 0) ELSE Prompt(e)

\* ---- ways of starting
Blank(any, trace, breaks, fs, clock) ==
  [src |-> <<>>, has |-> FALSE, name |-> <<>>, any |-> any, trace |-> trace,
   prog |-> NoProg, imm |-> [bc |-> <<>>, t |-> <<>>, data |-> FALSE],
   sym |-> EMPTY, val |-> EMPTY, arr |-> EMPTY, def |-> EMPTY,
   code |-> "prog", pc |-> 1, line |-> 1, stk |-> <<>>, sstk |-> <<>>, rstk |-> <<>>, fstk |-> <<>>,
   fn |-> NoFn, stopped |-> FALSE, intr |-> FALSE, failed |-> FALSE, cont |-> NoCont,
   col |-> 1, pdata |-> 1, idata |-> 1, inp |-> <<>>, ipos |-> 1, ipc |-> 1,
   tin |-> <<>>, out |-> <<>>, err |-> <<>>, mode |-> "prompt", origin |-> "run", file |-> FALSE,
   pg |-> [i |-> 0, c |-> 0, a |-> ListArgs(<<>>)], fs |-> fs, exit |-> 0,
   reads |-> 0, nread |-> 0, marks |-> <<>>, sins |-> 0, breaks |-> breaks, seed |-> "", rndi |-> 0, clock |-> clock]

Banner == Txt("Legacy Basic 3.2.0 Copyright (c) 2022-24 Nigel Perks") \o <<NL, NL>>

StartMonitor(s, quiet) ==
  Prompt(IF quiet THEN s ELSE Out(Out(s, Banner), Txt("Type HELP to list commands") \o <<NL, NL>>))

\* the names in a program, in order, ignoring letter case
RECURSIVE LineNames(_, _), Insert(_, _, _)
LineNames(L, ns) ==    \* L is at a token
  IF L.tok \in {NL, TREM} THEN <<L, ns>>
  ELSE IF L.tok = TDATA THEN LineNames(RenData(L), ns)
  ELSE LineNames(LexNext(L), IF L.tok = TID THEN Insert(ns, L.word, 1) ELSE ns)
Insert(ns, w, i) ==
  IF i > Len(ns) THEN Append(ns, w)
  ELSE IF Lower(ns[i]) = Lower(w) THEN ns
  ELSE IF TextLess(Lower(w), Lower(ns[i])) THEN SubSeq(ns, 1, i - 1) \o <<w>> \o SubSeq(ns, i, Len(ns))
  ELSE Insert(ns, w, i + 1)
RECURSIVE ListNames(_, _, _, _), ShowNames(_, _, _), ShowSource(_, _)
ListNames(s, i, L, ns) ==
  IF i > Len(s.src) THEN ShowNames(Tell(s, L.err), ns, 1)
  ELSE LET r == LineNames(LexLine(L, s.src[i].n, s.src[i].t), ns) IN ListNames(s, i + 1, r[1], r[2])
ShowNames(s, ns, i) ==
  IF i > Len(ns) THEN Ended(s, 0)
  ELSE LET w == ns[i]
           f == IF IsBuiltin(w) THEN 42 ELSE IF Upper(w) \in {Txt("SPC"), Txt("TAB")} THEN 61 ELSE SPACE
       IN ShowNames(Say(s, <<f, SPACE>> \o w), ns, i + 1)
ShowSource(s, i) ==
  IF i > Len(s.src) THEN Ended(s, 0)
  ELSE ShowSource(Say(s, Pad(NatTxt(s.src[i].n), 5) \o <<SPACE>> \o s.src[i].t), i + 1)

\* the interpreter is given a file to run, or to do something else with
StartFile(s0, quiet, name, what) ==
  LET s == [(IF quiet THEN s0 ELSE Out(s0, Banner)) EXCEPT !.file = TRUE]
      l == Load(s, name)
  IN IF l.err # <<>> THEN Ended(l, 1)
     ELSE IF what = "list" THEN ShowSource(l, 1)
     ELSE IF what = "names" THEN ListNames(l, 1, NewLex(name, l.any), <<>>)
     ELSE IF what \in {"parse", "code"} THEN LET c == Compile(l) IN Ended(c, IF c.prog.ok THEN 0 ELSE 1)
     ELSE LET r == RunProgram(l) IN IF r.mode = "run" THEN r ELSE Ended(r, 0)
=============================================================================
