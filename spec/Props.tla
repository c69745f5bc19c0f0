---------------------------------- MODULE Props ----------------------------------
(***************************************************************************)
(* The listed properties, stated of the specification: state invariants    *)
(* and properties of steps.  TLC checks all of them in every exploration.  *)
(* The number of the property (properties.jsonl) is in the name.           *)
(***************************************************************************)
EXTENDS Session

---------------------------------------------------------------------------
\* what happens in a step
Run(ops) == s.mode = "run" /\ ~RunOver(s) /\ Op \in ops /\ clk' = clk + 1
RunAny == s.mode = "run" /\ ~RunOver(s) /\ clk' = clk + 1
Failing == s.mode = "run" /\ s'.mode = "ran"
Leaving == s'.mode = "lost"
Good == ~Failing /\ ~Leaving
Inst == Code(s)[s.pc]
AtPrompt == s.mode = "prompt" /\ clk' = clk + 1

SameExcept(f, g, ks) == \A k \in (DOMAIN f \cup DOMAIN g) \ ks :
                          k \in DOMAIN f /\ k \in DOMAIN g /\ f[k] = g[k]

---------------------------------------------------------------------------
\* C17, C22: capacities are never exceeded, and nothing is half done at the prompt
C22_Capacities ==
  Len(s.stk) <= MAXNUM /\ Len(s.sstk) <= MAXSTR /\ Len(s.rstk) <= MAXRET /\ Len(s.fstk) <= MAXFOR
C17_AtRest ==
  s.mode = "prompt" =>
    /\ s.stk = <<>> /\ s.sstk = <<>> /\ ~s.fn.on
    /\ \A i \in 1..Len(s.rstk) : s.rstk[i].code = "prog"
    /\ \A i \in 1..Len(s.fstk) : s.fstk[i].code = "prog"
C22_Position ==
  s.mode = "run" => /\ s.pc \in 1..(Len(Code(s)) + 1)
                    /\ (s.code = "prog" => (s.line \in 1..Len(s.src) \/ s.src = <<>>))
\* C03: a variable controls at most one loop
C03_Loops == \A i, j \in 1..Len(s.fstk) : s.fstk[i].v = s.fstk[j].v => i = j
\* C07: a function is being called exactly when its definition is what is executed
C07_Call == s.fn.on <=> s.code = "def"
\* C06: every element is within the bounds of its array
C06_Elements ==
  s.mode \in {"prompt", "done"} => \A k \in DOMAIN s.arr : \A i \in DOMAIN s.arr[k].el :
    Len(i) = Len(s.arr[k].max) /\ \A j \in 1..Len(i) : i[j] <= s.arr[k].max[j]
\* C09: no string is longer than a concatenation may be
C09_Lengths == \A i \in 1..Len(s.sstk) : Len(s.sstk[i]) <= MAXCAT
\* C10: columns start at 1
C10_Column == s.col >= 1
\* C13: the program is in strict order of line number
C13_Order == /\ \A i \in 1..Len(s.src) : s.src[i].n >= 1 /\ s.src[i].n < BIG
             /\ \A i \in 1..(Len(s.src) - 1) : s.src[i].n < s.src[i + 1].n
\* C02: the place of every line of the compiled program is known, and only theirs
C02_Index ==
  s.mode = "prompt" /\ s.prog.ok =>
    /\ DOMAIN s.prog.idx = {s.src[i].n : i \in 1..Len(s.src)}
    /\ \A i \in 1..Len(s.src) : LET x == s.prog.bc[s.prog.idx[s.src[i].n]] IN x.op = "LINE" /\ x.a = i
\* C16: what can be continued is the program
C16_Cont == s.cont.on /\ s.prog.ok => s.cont.code = "prog" /\ s.cont.pc \in 1..(Len(s.prog.bc) + 1)

---------------------------------------------------------------------------
\* C02: execution is sequential except where an instruction says otherwise
Jumping == {"GOTO", "GOTRUE", "IFTHEN", "IFELSE", "ELSE", "ONGOTO", "ONGOSUB", "GOSUB", "RETURN", "END", "STOP",
            "NEXT", "NEXTV", "GETPN", "GETPS", "DEF", "ENDDEF", "INSEP", "INN"}
C02_Sequential == Run(ExprOps \cup AssignOps \cup PrintOps \cup DataOps \cup RandomOps \cup {"FOR", "LINE", "INBUF", "INS", "INEND", "INLINE"})
                  /\ Op \notin Jumping /\ Good
                  => s'.code = s.code /\ s'.pc = s.pc + 1
AtLine(n) == /\ s'.code = "prog" /\ s.prog.bc[s'.pc].op = "LINE"
             /\ s.src[s.prog.bc[s'.pc].a].n = n
C02_Jump ==
  /\ Run({"GOTO", "GOSUB"}) /\ Good => AtLine(Inst.a)
  /\ Run({"GOTRUE"}) /\ Good => IF IsZero(Top(s)) THEN s'.pc = s.pc + 1 ELSE AtLine(Inst.a)
  /\ Run({"ONGOTO", "ONGOSUB"}) /\ Good =>
       IF \E k \in 1..Inst.b : NEQ(NNum(k), Top(s))
       THEN AtLine(Code(s)[s.pc + (CHOOSE k \in 1..Inst.b : NEQ(NNum(k), Top(s)))].a)
       ELSE s'.pc = s.pc + Inst.b + 1
  /\ Run({"IFTHEN", "ELSE"}) /\ s'.pc # s.pc + 1 =>
       /\ s'.pc > Len(Code(s)) \/ Code(s)[s'.pc].op = "LINE"
       /\ \A i \in (s.pc + 1)..(s'.pc - 1) : Code(s)[i].op # "LINE"
  /\ Run({"IFELSE"}) /\ s'.pc # s.pc + 1 =>
       /\ Code(s)[s'.pc - 1].op = "ELSE"
       /\ \A i \in (s.pc + 1)..(s'.pc - 2) : Code(s)[i].op \notin {"ELSE", "LINE"}

\* C03: the loop that goes on is the named one or the latest, and it goes on exactly if not past its limit
C03_Next ==
  Run({"NEXT", "NEXTV"}) /\ Good =>
    LET mine == {i \in 1..Len(s.fstk) : Op = "NEXT" \/ s.fstk[i].v = Inst.a}
        si == CHOOSE i \in mine : \A j \in mine : j <= i
        f == s.fstk[si]
        x == NAdd(NumVal(s, f.v), f.step)
        more == IF NLT("0.0", f.step) THEN ~NLT(f.limit, x)
                ELSE IF NLT(f.step, "0.0") THEN ~NLT(x, f.limit) ELSE TRUE
    IN IF more THEN s'.fstk = s.fstk /\ s'.pc = f.pc + 1 /\ s'.code = f.code /\ s'.val[f.v] = x
       ELSE /\ s'.pc = s.pc + 1 /\ s'.val = s.val
            /\ Len(s'.fstk) = Len(s.fstk) - 1 /\ \A i \in 1..Len(s'.fstk) : s'.fstk[i] # f
C03_For ==
  Run({"FOR"}) /\ Good =>
    /\ Last(s'.fstk).v = Inst.a
    /\ {s'.fstk[i].v : i \in 1..Len(s'.fstk)} = {s.fstk[i].v : i \in 1..Len(s.fstk)} \cup {Inst.a}
    /\ s'.val[Inst.a] = s.stk[Len(s.stk) - 2]
C03_OnlyThere == RunAny /\ Op \notin LoopOps => s'.fstk = s.fstk

\* C04: a return goes to the place after the latest GOSUB not returned from
C04_Return ==
  /\ Run({"RETURN"}) /\ Good =>
       /\ s'.rstk = Front1(s.rstk)
       /\ <<s'.code, s'.pc, s'.line>> = <<Last(s.rstk).code, Last(s.rstk).pc, Last(s.rstk).line>>
  /\ Run({"GOSUB"}) /\ Good => s'.rstk = Append(s.rstk, [code |-> s.code, pc |-> s.pc + 1, line |-> s.line])
  /\ Run({"GOSUB", "ONGOSUB", "RETURN"}) /\ Failing => s'.rstk = s.rstk
  /\ RunAny /\ Op \notin SubOps => s'.rstk = s.rstk

\* C05: only assignments change variables, and only the one assigned
Target1 == CASE Op \in {"SETN", "SETS", "FOR", "READN", "READS", "INN", "INS", "INLINE", "NEXTV"} -> {Inst.a}
             [] Op = "NEXT" -> {Last(s.fstk).v}
             [] Op \in {"GETPN", "GETPS"} -> IF s'.fn.on /\ ~s.fn.on THEN {s'.fn.par} ELSE {}
             [] Op = "ENDDEF" -> {s.fn.par}
             [] OTHER -> {}
C05_Frame ==
  /\ RunAny /\ Good /\ Op # "CLEAR" => SameExcept(s.val, s'.val, Target1)
  /\ Run({"SETN"}) /\ Good => s'.val[Inst.a] = Top(s)
  /\ Run({"SETS"}) /\ Good => s'.val[Inst.a] = STop(s)
  /\ Run({"CLEAR"}) => DOMAIN s'.val = {} /\ DOMAIN s'.arr = {} /\ DOMAIN s'.def = {}

\* C06: only one element of one array changes at a time
ArrayOps == {"GETPN", "GETPS", "SETAN", "SETAS", "READN", "READS", "INN", "INS", "INLINE", "DIMN", "DIMS", "CLEAR"}
C06_Frame ==
  /\ RunAny /\ Op \notin ArrayOps => s'.arr = s.arr
  /\ Run(ArrayOps \ {"CLEAR", "DIMN", "DIMS"}) =>
       /\ DOMAIN s.arr \subseteq DOMAIN s'.arr
       /\ \A k \in DOMAIN s.arr :
            /\ s'.arr[k].max = s.arr[k].max
            /\ s'.arr[k].el # s.arr[k].el =>
                 /\ Op \in {"SETAN", "SETAS", "READN", "READS", "INN", "INS", "INLINE"} /\ k = Inst.a /\ Good
                 /\ \E i \in DOMAIN s'.arr[k].el : SameExcept(s.arr[k].el, s'.arr[k].el, {i})
  /\ Run({"DIMN", "DIMS"}) /\ Good => DOMAIN s'.arr[Inst.a].el = {} /\ Len(s'.arr[Inst.a].max) = Inst.b

\* C07: a call changes nothing but its parameter, which gets its own value back
C07_Isolated ==
  /\ s.fn.on /\ s'.fn.on => s'.val = s.val /\ s'.fn = s.fn
  /\ ~s.fn.on /\ s'.fn.on => s'.fn.had = (s'.fn.par \in DOMAIN s.val) /\ s'.fn.old = NumVal(s, s'.fn.par)
  /\ s.fn.on /\ ~s'.fn.on =>
       /\ (s.fn.par \in DOMAIN s'.val) = s.fn.had
       /\ s.fn.had => s'.val[s.fn.par] = s.fn.old

\* C08: relations and NOT, AND, OR of them are truth values; operands are used up
Truth == {"-1.0", "0.0"}
C08_Relations ==
  /\ Run({"NREL", "SREL"}) /\ Good => Top(s') \in Truth
  /\ Run({"NOT"}) /\ Good /\ Top(s) \in Truth => Top(s') = (IF Top(s) = "0.0" THEN "-1.0" ELSE "0.0")
  /\ Run({"AND"}) /\ Good /\ Top(s) \in Truth /\ Top2(s) \in Truth =>
       Top(s') = (IF Top(s) = "-1.0" /\ Top2(s) = "-1.0" THEN "-1.0" ELSE "0.0")
  /\ Run({"OR"}) /\ Good /\ Top(s) \in Truth /\ Top2(s) \in Truth =>
       Top(s') = (IF Top(s) = "-1.0" \/ Top2(s) = "-1.0" THEN "-1.0" ELSE "0.0")
C08_Stack ==
  /\ Run({"ADD", "SUB", "MUL", "DIV", "POW", "NREL", "AND", "OR"}) /\ Good =>
       Front1(s'.stk) = SubSeq(s.stk, 1, Len(s.stk) - 2)
  /\ Run({"LINE"}) => s.stk = <<>> /\ s.sstk = <<>>

\* C09: laws of the string functions
C09_Laws ==
  /\ Run({"LEFT$"}) /\ Good => LET r == STop(s')
                                     t == STop(s) IN
       Len(r) = Min2(NInt(Top(s)), Len(t)) /\ r = SubSeq(t, 1, Len(r))
  /\ Run({"RIGHT$"}) /\ Good => LET r == STop(s') t == STop(s) IN
       Len(r) = Min2(NInt(Top(s)), Len(t)) /\ r = SubSeq(t, Len(t) - Len(r) + 1, Len(t))
  /\ Run({"MID$"}) /\ Good => LET r == STop(s') t == STop(s) p == NInt(Top2(s)) IN
       p \in 1..Len(t) /\ Len(r) = Min2(NInt(Top(s)), Len(t) - p + 1) /\ r = SubSeq(t, p, p + Len(r) - 1)
  /\ Run({"CHR$"}) /\ Good => NEQ(NNum(IF STop(s') = <<>> THEN 0 ELSE STop(s')[1]), Top(s))
  /\ Run({"CONCAT"}) /\ Good => Len(STop(s')) = Len(STop(s)) + Len(STop2(s))

\* C10: the column is that of what has been printed
Printed == Flat(SubSeq(s'.out, Len(s.out) + 1, Len(s'.out)))
C10_Counts ==
  /\ Run(PrintOps \ {"CLS"}) /\ Good => s'.col = ColAfter(s.col, Printed)
  /\ Run({"PRCOMMA"}) => s'.col % FIELD = 1 /\ s'.col > s.col /\ s'.col <= s.col + FIELD
  /\ Run({"PRTAB"}) /\ Good /\ NInt(Top(s)) >= 1 => s'.col = NInt(Top(s))
  /\ RunAny /\ Op \notin PrintOps \cup {"INBUF"} /\ Good => s'.col = s.col

\* C11: an INPUT either goes on to its next item or starts again
C11_Again == Run(InputOps) /\ Good => s'.pc \in {s.pc + 1, s.ipc} /\ (Op = "INBUF" => s'.pc = s.pc + 1)

\* C12: DATA is read in order
C12_Data ==
  /\ Run({"READN", "READS"}) /\ Good =>
       \/ /\ s'.idata = s.idata /\ s'.pdata > s.pdata /\ s.prog.bc[s'.pdata - 1].op = "DATA"
          /\ \A i \in s.pdata..(s'.pdata - 2) : s.prog.bc[i].op # "DATA"
       \/ /\ s'.pdata = s.pdata /\ s'.idata > s.idata /\ s.imm.bc[s'.idata - 1].op = "DATA"
          /\ \A i \in s.idata..(s'.idata - 2) : s.imm.bc[i].op # "DATA"
  /\ RunAny /\ Op \notin {"READN", "READS", "RESTORE", "RESTOREL"} => s'.pdata = s.pdata /\ s'.idata = s.idata

\* C13: only commands change the program, and what is run is the program
Fresh(t) == LET P == ParseProgram(t.src, t.name, t.any, EMPTY) IN ~P.fail /\ t.prog.bc = P.bc
C13_Stored ==
  /\ s'.src # s.src => s.mode = "prompt"
  /\ s'.src # s.src => ~s'.prog.ok
  /\ AtPrompt /\ s'.mode = "run" /\ s'.code = "prog" => s'.prog.ok /\ Via(Fresh, s')
\* C01: a program with an error is not executed
C01_NotRun == AtPrompt /\ s'.has /\ s'.mode = "run" => Via(Fresh, s')

\* C14: what is saved is the program, and loading it gives it back
ReadBack(t) == ReadLines(FileLines(t, 1), 1, <<>>, <<>>)
ForOs == AtPrompt /\ s.tin # <<>> /\ LET i == SkipBlank(s.tin[1], 1) IN i <= Len(s.tin[1]) /\ s.tin[1][i] = 42
C14_Saved ==
  s'.fs # s.fs /\ ~ForOs =>
    /\ s.mode = "prompt" /\ s'.src = s.src /\ s'.prog = s.prog
    /\ \E k \in DOMAIN s'.fs :
         /\ SameExcept(s.fs, s'.fs, {k})
         /\ LET r == Via(ReadBack, s'.fs[k]) IN r[1] = <<>> => r[2] = s.src

\* C16: statements at the prompt leave what can be continued alone, unless they enter the program or start afresh
C16_Kept ==
  /\ RunAny => s'.cont = s.cont
  /\ s.mode = "run" /\ s'.mode \in {"prompt", "done"} /\ s.code = "prog" /\ s'.cont.on =>
       /\ s.stopped \/ s.intr
       /\ s'.cont.pc = (IF s.stopped THEN s.pc + 1 ELSE s.pc)
  /\ s'.mode = "prompt" /\ s.mode \in {"run", "ran"} =>
       s'.val = s.val /\ s'.arr = s.arr /\ s'.def = s.def /\ s'.src = s.src

\* C18: a failing statement does nothing but report
C18_Fails ==
  Failing =>
    /\ Len(s'.err) > Len(s.err) /\ SubSeq(s'.err, 1, Len(s.err)) = s.err
    /\ SubSeq(s'.err, Len(s.err) + 1, Len(s.err) + 15) = Txt("Runtime error: ")
    /\ s'.src = s.src
    /\ (s'.col = s.col \/ Op = "INBUF")
    /\ ~s.fn.on => s'.val = s.val
    /\ Op \notin {"FOR", "INBUF"} => s'.out = s.out
C18_Silent == RunAny /\ ~Failing => s'.err = s.err

\* C19: only RND takes random numbers, and they are in [0,1)
C19_Stream ==
  /\ Run({"RND"}) /\ Good => s'.rndi = s.rndi + 1 /\ s'.seed = s.seed
  /\ RunAny /\ Op \notin {"RND"} \cup RandomOps => s'.rndi = s.rndi /\ s'.seed = s.seed
  /\ ~RunAny => s'.rndi = s.rndi /\ s'.seed = s.seed
C19_Range == \A k \in DOMAIN Streams : \A i \in 1..Len(Streams[k]) :
               ~NLT(Streams[k][i], "0.0") /\ NLT(Streams[k][i], "1.0")

\* C21: what is written is only added to
C21_Monotone ==
  clk' = clk + 1 => /\ Len(s'.out) >= Len(s.out) /\ Len(s'.err) >= Len(s.err)
                    /\ SubSeq(s'.out, 1, Len(s.out)) = s.out
C21_Marks == Run({"LINE"}) => Len(s'.out) = Len(s.out) + (IF s.trace THEN 1 ELSE 0)

\* C25: after an interrupt the program stops as soon as nothing is half evaluated, and the interrupt is over
C25_Break ==
  /\ s.mode = "run" /\ s.intr /\ Between(s) /\ clk' = clk + 1 => s'.mode \in {"prompt", "done"}
  /\ s.mode \in {"prompt", "page", "long"} /\ s'.mode = "run" => ~s'.intr

\* C27: randomizing changes the numbers and nothing else, and the time is only looked at
C27_Random == Run({"RAND"}) /\ Good => s' = [s EXCEPT !.seed = s'.seed, !.rndi = 0, !.pc = @ + 1]
C27_Time == Run({"TIME$"}) /\ Good => s' = [s EXCEPT !.sstk = Append(@, Last(s'.sstk)), !.pc = @ + 1] /\ Len(Last(s'.sstk)) = 8
C27_Clock == s'.clock = s.clock

\* C28: a line for the operating system leaves everything but files and output alone
C28_Apart ==
  ForOs /\ s'.mode = "prompt" =>
    s' = [s EXCEPT !.tin = s'.tin, !.out = s'.out, !.fs = s'.fs, !.nread = s'.nread]

---------------------------------------------------------------------------
P_C01 == [][C01_NotRun]_vars
P_C02 == [][C02_Sequential /\ C02_Jump]_vars
P_C03 == [][C03_Next /\ C03_For /\ C03_OnlyThere]_vars
P_C04 == [][C04_Return]_vars
P_C05 == [][C05_Frame]_vars
P_C06 == [][C06_Frame]_vars
P_C07 == [][C07_Isolated]_vars
P_C08 == [][C08_Relations /\ C08_Stack]_vars
P_C09 == [][C09_Laws]_vars
P_C10 == [][C10_Counts]_vars
P_C11 == [][C11_Again]_vars
P_C12 == [][C12_Data]_vars
P_C13 == [][C13_Stored]_vars
P_C14 == [][C14_Saved]_vars
P_C16 == [][C16_Kept]_vars
P_C18 == [][C18_Fails /\ C18_Silent]_vars
P_C19 == [][C19_Stream]_vars
P_C21 == [][C21_Monotone /\ C21_Marks]_vars
P_C25 == [][C25_Break]_vars
P_C27 == [][C27_Random /\ C27_Time /\ C27_Clock]_vars
P_C28 == [][C28_Apart]_vars
ASSUME C19_Range
=============================================================================
