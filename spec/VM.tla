--------------------------------- MODULE VM ---------------------------------
(***************************************************************************)
(* The meaning of running a program: what every instruction does to the    *)
(* state of the interpreter.  The state is a record s, of which this       *)
(* module uses                                                             *)
(*   src    program text, a sequence of [n, t] in order of n               *)
(*   prog   the compiled program [ok, bc, idx, data]: instructions, where  *)
(*          each line starts, whether there is any DATA                    *)
(*   imm    the immediate line [bc, t, data]                               *)
(*   sym    names: key -> [kind, name];   val  values of simple variables  *)
(*   arr    arrays: key -> [max, el];     def  functions: key -> [bc, has, line] *)
(*   code, pc, line    the position: which code, instruction, source line  *)
(*   stk, sstk         unfinished numeric and string operands              *)
(*   rstk   GOSUBs not returned from;     fstk  FOR loops in progress      *)
(*   fn     the function call in progress                                  *)
(*   stopped, intr     STOP was executed; an interrupt has arrived         *)
(*   cont   where CONT goes on                                             *)
(*   col    print position;  pdata, idata  next DATA of program and line   *)
(*   inp, ipos, ipc    input line, how much is used, its INPUT             *)
(*   tin    lines that have been typed and not yet read                    *)
(*   out, err          what has been written (in pieces)                   *)
(*   reads, sins       how many lines INPUT has read, how many SINs have   *)
(*                     been evaluated;  breaks  at which of them an        *)
(*                     interrupt arrives;  nread  lines read altogether    *)
(*   seed, rndi        the stream of random numbers in use, how many used  *)
(***************************************************************************)
EXTENDS Parser

MAXNUM == 16     \* unfinished numeric operands
MAXSTR == 8      \* unfinished string operands
MAXRET == 8      \* GOSUBs in progress
MAXFOR == 8      \* loops in progress
FIELD  == 8      \* width of a PRINT field
MAXCAT == 255    \* length of a concatenated string
MAXEL  == 65536  \* elements of an array
MAXIN  == 127    \* characters of an input line read at once

EMPTY == <<>>    \* the function with no arguments

NoCont == [on |-> FALSE, code |-> "", pc |-> 0, line |-> 0]
NoFn   == [on |-> FALSE, code |-> "", pc |-> 0, line |-> 0, par |-> "", had |-> FALSE, old |-> "0.0",
           d |-> [bc |-> <<>>, has |-> FALSE, line |-> 0]]

Code(s) == IF s.code = "prog" THEN s.prog.bc ELSE IF s.code = "imm" THEN s.imm.bc ELSE s.fn.d.bc

Out(s, t) == [s EXCEPT !.out = Append(@, t)]
LineText(l) == NatTxt(l.n) \o <<SPACE>> \o l.t

\* the source line being executed, as a sequence of at most one
CurLine(s) ==
  IF s.code = "prog" THEN <<s.src[s.line]>>
  ELSE IF s.code = "imm" THEN <<[n |-> 0, t |-> s.imm.t]>>
  ELSE IF s.fn.d.has THEN <<s.src[s.fn.d.line]>> ELSE <<>>

\* the call in progress ends: back to the caller, the parameter's name gets its own value back
EndCall(s) ==
  [s EXCEPT !.code = s.fn.code, !.pc = s.fn.pc, !.line = s.fn.line, !.fn = NoFn,
            !.val = IF s.fn.had THEN (s.fn.par :> s.fn.old) @@ @
                    ELSE [k \in DOMAIN @ \ {s.fn.par} |-> @[k]]]

\* a run-time error: a report, and the statement is abandoned
RunErr(s, msg) ==
  LET l == CurLine(s)
      e == [s EXCEPT !.err = @ \o Txt("Runtime error: ") \o msg \o <<NL>>
                             \o (IF l = <<>> THEN <<>> ELSE LineText(l[1]) \o <<NL>>)]
      f == IF e.fn.on THEN EndCall(e) ELSE e
  IN [f EXCEPT !.stk = <<>>, !.sstk = <<>>, !.mode = "ran", !.failed = TRUE]

ErrNum(s, msg, x) == RunErr(s, msg \o <<58, SPACE>> \o NFmt(x))
Name(s, k) == s.sym[k].name

Goon(s) == [s EXCEPT !.pc = @ + 1]

\* ---- operands
PushN(s, x) ==
  IF Len(s.stk) >= MAXNUM THEN RunErr(s, Txt("numeric stack overflow"))
  ELSE [s EXCEPT !.stk = Append(@, x), !.pc = @ + 1]
PushS(s, t) ==
  IF Len(s.sstk) >= MAXSTR THEN RunErr(s, Txt("string stack overflow"))
  ELSE [s EXCEPT !.sstk = Append(@, t), !.pc = @ + 1]
PushL(s, b) == PushN(s, IF b THEN "-1.0" ELSE "0.0")

Top(s) == s.stk[Len(s.stk)]
Top2(s) == s.stk[Len(s.stk) - 1]
STop(s) == s.sstk[Len(s.sstk)]
STop2(s) == s.sstk[Len(s.sstk) - 1]
PopN(s, k) == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - k)]
PopS(s, k) == [s EXCEPT !.sstk = SubSeq(@, 1, Len(@) - k)]

IsZero(x) == NEQ(x, "0.0")
LogicOk(x) == NInInt32(x) /\ NIsInt(x)
NotCount(x) == NLT(x, "0.0") \/ ~NIsInt(x)      \* not a non-negative integer

LogicErr(s, x) == ErrNum(s, Txt("invalid logical value"), x)
CountErr(s, x) ==
  IF NotCount(x) THEN ErrNum(s, Txt("non-negative integer was expected"), x)
  ELSE ErrNum(s, Txt("out of range"), x)
CountBad(x) == NotCount(x) \/ NGtUInt(x)

\* ---- arrays
Sizes(dims) ==  \* whether these are possible maximum subscripts
  /\ \A i \in 1..Len(dims) : dims[i] < MAXEL
  /\ Len(dims) = 2 => dims[1] + 1 <= MAXEL \div (dims[2] + 1)

\* what is wrong with the top n operands as subscripts of k, or <<>>
RECURSIVE SubErr(_, _, _)
SubErr(s, k, n) ==    \* examined from the last to the first
  IF n = 0 THEN <<>>
  ELSE LET x == Top(s) IN
       IF NotCount(x)
       THEN Txt("non-negative integer was expected to index ") \o Name(s, k) \o <<58, SPACE>> \o NFmt(x)
       ELSE IF NGtUInt(x)
       THEN Txt("out of integer range to index ") \o Name(s, k) \o <<58, SPACE>> \o NFmt(x)
       ELSE SubErr(PopN(s, 1), k, n - 1)
Subs(s, n) == Tup([i \in 1..n |-> NInt(s.stk[Len(s.stk) - n + i])], n)

NewArr(s, k, dims) == [s EXCEPT !.arr = (k :> [max |-> dims, el |-> EMPTY]) @@ @]

\* The element of k whose n subscripts are on top of the stack, for Use(s, k, i),
\* which is "get" or "set" with value v; the array comes into being if it does not exist.
Element(s, k, n, use, v) ==
  IF n > 2 THEN RunErr(s, Txt("too many dimensions: ") \o Name(s, k))
  ELSE LET bad == SubErr(s, k, n) IN
  IF bad # <<>> THEN RunErr(s, bad)
  ELSE LET i == Subs(s, n)
           a0 == PopN(s, n)
           auto == Tup([j \in 1..n |-> IF i[j] < 10 THEN 10 ELSE i[j]], n)
       IN IF k \notin DOMAIN s.arr /\ ~Sizes(auto)
          THEN RunErr(s, Txt("invalid dimensions: ") \o Name(s, k))
          ELSE LET a == IF k \in DOMAIN s.arr THEN a0 ELSE NewArr(a0, k, auto)
                   m == a.arr[k].max
               IN IF Len(m) # n \/ (\E j \in 1..n : i[j] > m[j])
                  THEN RunErr(a, Txt("array indexes invalid or out of range: ") \o Name(s, k))
                  ELSE IF use = "set"
                  THEN [a EXCEPT !.arr[k].el = (i :> v) @@ @, !.pc = @ + 1]
                  ELSE LET el == a.arr[k].el
                           str == IsStrName(Name(s, k))
                       IN IF str THEN PushS(a, IF i \in DOMAIN el THEN el[i] ELSE <<>>)
                          ELSE PushN(a, IF i \in DOMAIN el THEN el[i] ELSE "0.0")

Dim(s, k, n) ==
  LET s1 == [s EXCEPT !.arr = [j \in DOMAIN @ \ {k} |-> @[j]]] IN
  IF n > 2 THEN RunErr(s1, Txt("too many dimensions: ") \o Name(s, k))
  ELSE LET bad == SubErr(s, k, n) IN
  IF bad # <<>> THEN RunErr(s1, bad)
  ELSE IF ~Sizes(Subs(s, n)) THEN RunErr(s1, Txt("invalid dimensions: ") \o Name(s, k))
  ELSE Goon(NewArr(PopN(s1, n), k, Subs(s, n)))

\* assign v to a variable (n = 0) or an element
SetVar(s, k, v) == [s EXCEPT !.val = (k :> v) @@ @, !.pc = @ + 1]
Assign(s, k, n, v) == IF n = 0 THEN SetVar(s, k, v) ELSE Element(s, k, n, "set", v)

\* ---- control
HasLine(s, n) == s.prog.ok /\ n \in DOMAIN s.prog.idx
NoLine(s, n) == RunErr(s, Txt("Line not found: ") \o NatTxt(n))
GoTo(s, n) ==
  IF HasLine(s, n) THEN [s EXCEPT !.code = "prog", !.pc = s.prog.idx[n]] ELSE NoLine(s, n)

GoSub(s, n, back) ==
  IF ~HasLine(s, n) THEN NoLine(s, n)
  ELSE IF Len(s.rstk) >= MAXRET THEN RunErr(s, Txt("GOSUB is nested too deeply"))
  ELSE GoTo([s EXCEPT !.rstk = Append(@, [code |-> s.code, pc |-> back, line |-> s.line])], n)

RECURSIVE SkipTo(_, _, _)
SkipTo(bc, i, op) == IF i > Len(bc) THEN i ELSE IF bc[i].op = op THEN i ELSE SkipTo(bc, i + 1, op)

RECURSIVE FindLoop(_, _, _)
FindLoop(f, v, i) == IF i > Len(f) THEN 0 ELSE IF f[i].v = v THEN i ELSE FindLoop(f, v, i + 1)

Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

NumVal(s, k) == IF k \in DOMAIN s.val THEN s.val[k] ELSE "0.0"
StrVal(s, k) == IF k \in DOMAIN s.val THEN s.val[k] ELSE <<>>

RECURSIVE LoopList(_, _)
LoopList(s, i) ==
  IF i = 0 THEN <<>>
  ELSE Name(s, s.fstk[i].v) \o Txt(" = ") \o NFmt(NumVal(s, s.fstk[i].v)) \o <<44, SPACE>>
       \o NFmt(s.fstk[i].limit) \o <<59, SPACE>> \o LoopList(s, i - 1)

For(s, k) ==
  LET si == FindLoop(s.fstk, k, 1)
      n == Len(s.stk)
      f == [code |-> s.code, pc |-> s.pc, line |-> s.line, v |-> k, step |-> s.stk[n], limit |-> s.stk[n - 1]]
  IN IF si = 0 /\ Len(s.fstk) >= MAXFOR
     THEN RunErr(Out(s, Txt("-- overflow: ") \o LoopList(s, Len(s.fstk)) \o <<NL>>), Txt("FOR is nested too deeply"))
     ELSE SetVar([PopN(s, 3) EXCEPT !.fstk = Append(IF si = 0 THEN @ ELSE Without(@, si), f)], k, s.stk[n - 2])

Next1(s, si) ==
  LET f == s.fstk[si]
      x == NAdd(NumVal(s, f.v), f.step)
      past == (NLT("0.0", f.step) /\ NLT(f.limit, x)) \/ (NLT(f.step, "0.0") /\ NLT(x, f.limit))
  IN IF past THEN Goon([s EXCEPT !.fstk = Without(@, si)])
     ELSE [s EXCEPT !.val = (f.v :> x) @@ @, !.code = f.code, !.pc = f.pc + 1, !.line = f.line]

NextVar(s, k) ==
  IF s.fstk = <<>> THEN RunErr(s, Txt("NEXT without FOR"))
  ELSE LET si == FindLoop(s.fstk, k, 1) IN
       IF si = 0 THEN RunErr(s, Txt("NEXT without FOR: ") \o Name(s, k)) ELSE Next1(s, si)

NextInner(s) ==
  IF s.fstk = <<>> THEN RunErr(s, Txt("NEXT without FOR")) ELSE Next1(s, Len(s.fstk))

On(s, i) ==
  LET x == Top(s)
      t == PopN(s, 1)
      k == NInt(x)
  IN IF ~NIsInt(x) THEN ErrNum(t, Txt("ON value is invalid"), x)
     ELSE IF k < 1 \/ k > i.b THEN [t EXCEPT !.pc = @ + i.b + 1]
     ELSE LET n == Code(s)[s.pc + k].a IN
          IF i.op = "ONGOTO" THEN GoTo(t, n) ELSE GoSub(t, n, s.pc + i.b + 1)

Define(s, k) ==
  LET bc == Code(s)
      e == SkipTo(bc, s.pc, "ENDDEF")
  IN [s EXCEPT !.def = (k :> [bc |-> SubSeq(bc, s.pc, e), has |-> s.code = "prog", line |-> s.line]) @@ @,
               !.pc = e + 1]

Call(s, k, n) ==
  IF k \notin DOMAIN s.def
  THEN RunErr(s, Txt("user-defined function has not been defined: ") \o Name(s, k))
  ELSE IF s.fn.on THEN RunErr(s, Txt("nested user-defined function calls are not allowed"))
  ELSE IF n # 1
  THEN RunErr(s, Txt("unexpected number of parameters: ") \o Name(s, k) \o Txt(": expected 1, received ") \o NatTxt(n))
  ELSE LET d == s.def[k]
           par == d.bc[2].a
       IN [PopN(s, 1) EXCEPT
             !.fn = [on |-> TRUE, code |-> s.code, pc |-> s.pc, line |-> s.line, par |-> par,
                     had |-> par \in DOMAIN s.val, old |-> NumVal(s, par), d |-> d],
             !.val = (par :> Top(s)) @@ @,
             !.code = "def", !.pc = 3, !.line = d.line]

\* a name with parentheses in an expression is an array unless it has been defined by DEF
GetParen(s, k, n) ==
  IF s.sym[k].kind = "def" THEN Call(s, k, n)
  ELSE Element([s EXCEPT !.sym[k].kind = "arr"], k, n, "get", 0)

\* ---- output
ColAfter(col, t) ==   \* print position after t
  LET nl == {i \in 1..Len(t) : t[i] = NL} IN
  IF nl = {} THEN col + Len(t)
  ELSE 1 + Len(t) - (CHOOSE i \in nl : \A j \in nl : j <= i)
Put(s, t) == [s EXCEPT !.out = Append(@, t), !.col = ColAfter(@, t)]

ToField(col) == ((col - 1) \div FIELD + 1) * FIELD + 1   \* start of the next field

Tab(s, k) ==
  LET t == IF k < s.col THEN Put(s, <<NL>>) ELSE s IN
  IF t.col < k THEN Put(t, Spaces(k - t.col)) ELSE t

\* ---- numbers in text
\* <<whether there is a number, its value, where it and the blanks after it end>>, from position i on
Number(t, i0) ==
  LET i == SkipBlank(t, i0) IN
  IF i > Len(t) \/ ~(IsDigit(t[i]) \/ t[i] \in {46, 45, 43}) THEN <<FALSE, "0.0", i0>>
  ELSE LET v == NParse(Drop(t, i)) IN <<TRUE, v[1], SkipBlank(t, i + v[2])>>

\* ---- DATA
OwnData(s) == s.code = "imm" /\ s.imm.data
\* <<message, text, state with the item taken>>
TakeData(s) ==
  LET own == OwnData(s)
      bc == IF own THEN s.imm.bc ELSE s.prog.bc
      dp == IF own THEN s.idata ELSE s.pdata
  IN IF ~own /\ ~(s.prog.ok /\ s.prog.data) THEN <<Txt("no DATA"), <<>>, s>>
     ELSE LET i == SkipTo(bc, dp, "DATA") IN
          IF i > Len(bc) THEN <<Txt("out of DATA"), <<>>, s>>
          ELSE <<<<>>, bc[i].a, IF own THEN [s EXCEPT !.idata = i + 1] ELSE [s EXCEPT !.pdata = i + 1]>>

ReadN(s, i) ==
  LET d == TakeData(s) IN
  IF d[1] # <<>> THEN RunErr(s, d[1])
  ELSE LET v == Number(d[2], 1) IN
       IF ~v[1] \/ v[3] <= Len(d[2]) THEN RunErr(d[3], Txt("numeric data expected: ") \o d[2])
       ELSE Assign(d[3], i.a, i.b, v[2])
ReadS(s, i) ==
  LET d == TakeData(s) IN
  IF d[1] # <<>> THEN RunErr(s, d[1]) ELSE Assign(d[3], i.a, i.b, d[2])

\* ---- INPUT
\* read up to n characters of one line: <<text (<<>> at the end of input), state>>
Fetch(s, n) ==
  IF s.tin = <<>> THEN <<<<>>, s>>
  ELSE LET l == s.tin[1] IN
       IF Len(l) <= n THEN <<l, [s EXCEPT !.tin = Tail(@), !.nread = @ + 1]>>
       ELSE <<SubSeq(l, 1, n), [s EXCEPT !.tin[1] = SubSeq(l, n + 1, Len(l))]>>

InBuf(s, prompt) ==
  LET r == Fetch(Out(s, prompt \o <<63, SPACE>>), MAXIN) IN
  IF r[1] = <<>> THEN RunErr(r[2], Txt("end of input"))
  ELSE [r[2] EXCEPT !.inp = r[1], !.ipos = 1, !.ipc = s.pc, !.col = 1, !.pc = @ + 1,
                    !.reads = @ + 1, !.intr = @ \/ (s.reads + 1) \in s.breaks.input,
                    !.marks = IF (s.reads + 1) \in s.breaks.input THEN Append(@, s.nread) ELSE @]

InAgain(s, msg) == [Out(s, msg \o <<NL>>) EXCEPT !.pc = s.ipc]

InSep(s) ==
  LET i == SkipBlank(s.inp, s.ipos) IN
  IF i <= Len(s.inp) /\ s.inp[i] = 44 THEN [s EXCEPT !.ipos = i + 1, !.pc = @ + 1]
  ELSE InAgain([s EXCEPT !.ipos = i], Txt("* More input items are expected *"))

InNum(s, i) ==
  LET v == Number(s.inp, s.ipos) IN
  IF v[1] /\ (v[3] > Len(s.inp) \/ s.inp[v[3]] \in {NL, 44})
  THEN Assign([s EXCEPT !.ipos = v[3]], i.a, i.b, v[2])
  ELSE InAgain(PopN(s, i.b), Txt("* Invalid input *"))

RECURSIVE FieldEnd(_, _)
FieldEnd(t, i) == IF i > Len(t) \/ t[i] \in {NL, 44} THEN i ELSE FieldEnd(t, i + 1)

InStr(s, i) ==
  LET e == FieldEnd(s.inp, s.ipos) IN
  Assign([s EXCEPT !.ipos = e], i.a, i.b, SubSeq(s.inp, s.ipos, e - 1))

RECURSIVE SkipWhite(_, _)
SkipWhite(t, i) == IF i <= Len(t) /\ t[i] \in {SPACE, TABC, NL, CR} THEN SkipWhite(t, i + 1) ELSE i

InEnd(s) ==
  IF SkipWhite(s.inp, s.ipos) > Len(s.inp) THEN Goon(s)
  ELSE Goon(Out(s, Txt("* Extra input was discarded *") \o <<NL>>))

InLine(s, i) ==
  LET e == FindFrom(s.inp, NL, 1) IN Assign(s, i.a, i.b, SubSeq(s.inp, 1, e - 1))

\* ---- built-in functions
\* the time of day in seconds: in a session with a clock, it advances while SIN is computed
Now(s) == (s.clock.at + s.clock.tick * s.sins) % 86400
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
TimeText(n) == Two(n \div 3600) \o <<58>> \o Two((n \div 60) % 60) \o <<58>> \o Two(n % 60)

StrFn(s, op) ==     \* functions giving a string
  LET x == Top(s)
      t == STop(s)
      n == Len(t)
  IN CASE op = "CHR$" ->
            IF NLT(x, "0.0") \/ NLT("255.0", x) \/ ~NIsInt(x)
            THEN ErrNum(PopN(s, 1), Txt("invalid character code"), x)
            ELSE PushS(PopN(s, 1), IF IsZero(x) THEN <<>> ELSE <<NInt(x)>>)
       [] op = "STR$" -> PushS(PopN(s, 1), NFmt(x))
       [] op = "LEFT$" ->
            IF CountBad(x) THEN CountErr(s, x)
            ELSE PushS(PopN(PopS(s, 1), 1), SubSeq(t, 1, Min2(NInt(x), n)))
       [] op = "RIGHT$" ->
            IF CountBad(x) THEN CountErr(s, x)
            ELSE PushS(PopN(PopS(s, 1), 1), SubSeq(t, n - Min2(NInt(x), n) + 1, n))
       [] op = "MID$" ->
            LET p == Top2(s) IN
            IF CountBad(x) THEN CountErr(s, x)
            ELSE IF CountBad(p) THEN CountErr(s, p)
            ELSE IF NInt(p) < 1 \/ NInt(p) > n THEN RunErr(s, Txt("string index out of range"))
            ELSE PushS(PopN(PopS(s, 1), 2), SubSeq(t, NInt(p), Min2(n, NInt(p) + Min2(NInt(x), n) - 1)))
       [] op = "TIME$" -> IF s.clock.on THEN PushS(s, TimeText(Now(s))) ELSE [s EXCEPT !.mode = "lost"]

NumFn(s, op) ==     \* numeric functions of a number
  LET x == Top(s)
      t == PopN(s, 1)
      r == CASE op = "ABS" -> NAbs(x) [] op = "ATN" -> NAtn(x) [] op = "COS" -> NCos(x)
             [] op = "EXP" -> NExp(x) [] op = "INT" -> NFloor(x) [] op = "SIN" -> NSin(x)
             [] op = "SQR" -> NSqrt(x) [] op = "TAN" -> NTan(x) [] op = "LOG" -> NLog(x)
             [] op = "SGN" -> IF NLT(x, "0.0") THEN "-1.0" ELSE IF NLT("0.0", x) THEN "1.0" ELSE x
  IN IF op = "LOG" /\ (NLT(x, "0.0") \/ IsZero(x)) THEN RunErr(t, Txt("invalid logarithm"))
     ELSE IF op = "SIN"
     THEN PushN([t EXCEPT !.sins = @ + 1, !.intr = @ \/ (s.sins + 1) \in s.breaks.sin], r)
     ELSE PushN(t, r)

StrNumFn(s, op) ==   \* numeric functions of a string
  LET t == STop(s)
      r == PopS(s, 1)
  IN CASE op = "LEN" -> PushN(r, NNum(Len(t)))
       [] op = "ASC" -> PushN(r, IF t = <<>> THEN "0.0" ELSE NNum(t[1]))
       [] op = "VAL" ->
            LET v == Number(t, 1) IN
            IF ~v[1] \/ v[3] <= Len(t) THEN RunErr(r, Txt("invalid number: ") \o t)
            ELSE PushN(r, v[2])

\* The generator is a given stream of numbers for each seed (see the property about RND).
Streams == LoadSessions(1).rnd
ANYSEED == "?"      \* the numbers depend on the time
Rnd(s) ==
  IF s.seed = ANYSEED \/ s.rndi >= Len(Streams[s.seed]) THEN [s EXCEPT !.mode = "lost"]
  ELSE PushN([s EXCEPT !.rndi = @ + 1], Streams[s.seed][s.rndi + 1])
Seed(s) ==
  LET x == Top(s) IN
  IF CountBad(x) THEN CountErr(s, x)
  ELSE LET k == NAdd(x, "0.0") IN
       IF k \notin DOMAIN Streams THEN [s EXCEPT !.mode = "lost"]
       ELSE Goon([PopN(s, 1) EXCEPT !.seed = k, !.rndi = 0])

\* ---- operators
NumOp(op, a, b) ==
  CASE op = "ADD" -> NAdd(a, b) [] op = "SUB" -> NSub(a, b) [] op = "MUL" -> NMul(a, b)
    [] op = "DIV" -> NDiv(a, b) [] op = "POW" -> NPow(a, b)
Rel(op, a, b) ==
  CASE op = "EQ" -> NEQ(a, b) [] op = "NE" -> ~NEQ(a, b)
    [] op = "LT" -> NLT(a, b) [] op = "GT" -> NLT(b, a)
    [] op = "LE" -> NLT(a, b) \/ NEQ(a, b) [] op = "GE" -> NLT(b, a) \/ NEQ(a, b)
SRel(op, a, b) ==
  CASE op = "EQ" -> a = b [] op = "NE" -> a # b
    [] op = "LT" -> TextLess(a, b) [] op = "GT" -> TextLess(b, a)
    [] op = "LE" -> ~TextLess(b, a) [] op = "GE" -> ~TextLess(a, b)
Logic(s, op) ==
  LET b == Top(s)  a == Top2(s) IN
  IF ~LogicOk(b) THEN LogicErr(s, b)
  ELSE IF ~LogicOk(a) THEN LogicErr(s, a)
  ELSE PushN(PopN(s, 2), IF op = "AND" THEN NAndInt(a, b) ELSE NOrInt(a, b))

\* ---- the instructions, in groups
ExprOps == {"PUSHN", "PUSHS", "POPN", "POPS", "GETN", "GETS", "GETPN", "GETPS", "NEG", "ADD", "SUB", "MUL", "DIV",
            "POW", "NREL", "SREL", "OR", "AND", "NOT", "CONCAT"} \cup BuiltinNames
AssignOps == {"SETN", "SETS", "SETAN", "SETAS", "DIMN", "DIMS", "CLEAR"}
JumpOps == {"GOTO", "GOTRUE", "IFTHEN", "IFELSE", "ELSE", "ONGOTO", "END", "STOP", "LINE"}
SubOps == {"GOSUB", "RETURN", "ONGOSUB"}
LoopOps == {"FOR", "NEXT", "NEXTV"}
FnOps == {"DEF", "ENDDEF"}
PrintOps == {"PRLN", "PRSPC", "PRTAB", "PRCOMMA", "PRNUM", "PRSTR", "CLS"}
InputOps == {"INBUF", "INEND", "INSEP", "INN", "INS", "INLINE"}
DataOps == {"DATA", "READN", "READS", "RESTORE", "RESTOREL"}
RandomOps == {"SEED", "RAND"}

DoExpr(s, i) ==
  LET op == i.op IN
  CASE op = "PUSHN" -> PushN(s, i.a)
    [] op = "PUSHS" -> PushS(s, i.a)
    [] op = "POPN" -> Goon(PopN(s, 1))
    [] op = "POPS" -> Goon(PopS(s, 1))
    [] op = "GETN" -> PushN(s, NumVal(s, i.a))
    [] op = "GETS" -> PushS(s, StrVal(s, i.a))
    [] op \in {"GETPN", "GETPS"} -> GetParen(s, i.a, i.b)
    [] op = "NEG" -> PushN(PopN(s, 1), NNeg(Top(s)))
    [] op \in {"ADD", "SUB", "MUL", "DIV", "POW"} -> PushN(PopN(s, 2), NumOp(op, Top2(s), Top(s)))
    [] op = "NREL" -> PushL(PopN(s, 2), Rel(i.a, Top2(s), Top(s)))
    [] op = "SREL" -> PushL(PopS(s, 2), SRel(i.a, STop2(s), STop(s)))
    [] op \in {"OR", "AND"} -> Logic(s, op)
    [] op = "NOT" -> IF LogicOk(Top(s)) THEN PushN(PopN(s, 1), NNotInt(Top(s))) ELSE LogicErr(s, Top(s))
    [] op = "CONCAT" ->
         LET n == Len(STop(s)) + Len(STop2(s)) IN
         IF n > MAXCAT THEN RunErr(s, Txt("concatenated string would be too long: ") \o NatTxt(n) \o Txt(" characters"))
         ELSE PushS(PopS(s, 2), STop2(s) \o STop(s))
    [] op = "RND" -> Rnd(s)
    [] op \in {"CHR$", "STR$", "LEFT$", "RIGHT$", "MID$", "TIME$"} -> StrFn(s, op)
    [] op \in {"LEN", "ASC", "VAL"} -> StrNumFn(s, op)
    [] OTHER -> NumFn(s, op)

DoAssign(s, i) ==
  LET op == i.op IN
  CASE op = "SETN" -> SetVar(PopN(s, 1), i.a, Top(s))
    [] op = "SETS" -> SetVar(PopS(s, 1), i.a, STop(s))
    [] op = "SETAN" -> Element(PopN(s, 1), i.a, i.b, "set", Top(s))
    [] op = "SETAS" -> Element(PopS(s, 1), i.a, i.b, "set", STop(s))
    [] op \in {"DIMN", "DIMS"} -> Dim(s, i.a, i.b)
    [] op = "CLEAR" -> Goon([s EXCEPT !.val = EMPTY, !.arr = EMPTY, !.def = EMPTY])

DoJump(s, i) ==
  LET op == i.op  bc == Code(s) IN
  CASE op = "LINE" ->
         LET t == [s EXCEPT !.line = i.a, !.pc = @ + 1] IN
         IF s.trace THEN Out(t, <<91>> \o NatTxt(CurLine(t)[1].n) \o <<93>>) ELSE t
    [] op = "GOTO" -> GoTo(s, i.a)
    [] op = "GOTRUE" -> IF IsZero(Top(s)) THEN Goon(PopN(s, 1)) ELSE GoTo(PopN(s, 1), i.a)
    [] op = "IFTHEN" -> IF IsZero(Top(s)) THEN [PopN(s, 1) EXCEPT !.pc = SkipTo(bc, s.pc + 1, "LINE")]
                        ELSE Goon(PopN(s, 1))
    [] op = "IFELSE" -> IF IsZero(Top(s)) THEN [PopN(s, 1) EXCEPT !.pc = SkipTo(bc, s.pc + 1, "ELSE") + 1]
                        ELSE Goon(PopN(s, 1))
    [] op = "ELSE" -> [s EXCEPT !.pc = SkipTo(bc, s.pc + 1, "LINE")]
    [] op = "ONGOTO" -> On(s, i)
    [] op = "END" -> [s EXCEPT !.pc = Len(bc) + 1]
    [] op = "STOP" -> [s EXCEPT !.stopped = TRUE]

DoSub(s, i) ==
  CASE i.op = "GOSUB" -> GoSub(s, i.a, s.pc + 1)
    [] i.op = "ONGOSUB" -> On(s, i)
    [] i.op = "RETURN" ->
         IF s.rstk = <<>> THEN RunErr(s, Txt("RETURN without GOSUB"))
         ELSE LET r == Last(s.rstk) IN
              [s EXCEPT !.rstk = Front1(@), !.code = r.code, !.pc = r.pc, !.line = r.line]

DoLoop(s, i) ==
  CASE i.op = "FOR" -> For(s, i.a)
    [] i.op = "NEXTV" -> NextVar(s, i.a)
    [] i.op = "NEXT" -> NextInner(s)

DoFn(s, i) == IF i.op = "DEF" THEN Define(s, i.a) ELSE Goon(EndCall(s))

ClsText == <<NL>> \o Txt("----------------------------------------------------------------") \o <<NL, NL>>

DoPrint(s, i) ==
  LET op == i.op IN
  CASE op = "PRLN" -> Goon(Put(s, <<NL>>))
    [] op = "PRCOMMA" -> Goon(Put(s, Spaces(ToField(s.col) - s.col)))
    [] op = "PRNUM" -> Goon(Put(PopN(s, 1), <<SPACE>> \o NFmt(Top(s)) \o <<SPACE>>))
    [] op = "PRSTR" -> Goon(Put(PopS(s, 1), STop(s)))
    [] op = "CLS" -> Goon([Out(s, ClsText) EXCEPT !.col = 1])
    [] op \in {"PRSPC", "PRTAB"} ->
         LET x == Top(s) IN
         IF CountBad(x) THEN CountErr(s, x)
         ELSE IF NInt(x) > 9999 THEN [s EXCEPT !.mode = "lost"]    \* not explored
         ELSE IF op = "PRSPC" THEN Goon(Put(PopN(s, 1), Spaces(NInt(x))))
         ELSE Goon(Tab(PopN(s, 1), NInt(x)))

DoInput(s, i) ==
  LET op == i.op IN
  CASE op = "INBUF" -> InBuf(s, i.a)
    [] op = "INSEP" -> InSep(s)
    [] op = "INN" -> InNum(s, i)
    [] op = "INS" -> InStr(s, i)
    [] op = "INEND" -> InEnd(s)
    [] op = "INLINE" -> InLine(s, i)

DoData(s, i) ==
  LET op == i.op IN
  CASE op = "DATA" -> Goon(s)
    [] op = "READN" -> ReadN(s, i)
    [] op = "READS" -> ReadS(s, i)
    [] op = "RESTORE" -> Goon([s EXCEPT !.pdata = 1, !.idata = 1])
    [] op = "RESTOREL" -> IF HasLine(s, i.a) THEN Goon([s EXCEPT !.pdata = s.prog.idx[i.a]]) ELSE NoLine(s, i.a)

Reseed(a) == Goon([a[1] EXCEPT !.seed = a[2], !.rndi = 0])

DoRandom(s, i) == IF i.op = "SEED" THEN Seed(s) ELSE [s EXCEPT !.mode = "lost"]

Exec(s) ==
  LET i == Code(s)[s.pc]  op == i.op IN
  IF op \in ExprOps THEN DoExpr(s, i)
  ELSE IF op \in AssignOps THEN DoAssign(s, i)
  ELSE IF op \in JumpOps THEN DoJump(s, i)
  ELSE IF op \in PrintOps THEN DoPrint(s, i)
  ELSE IF op \in LoopOps THEN DoLoop(s, i)
  ELSE IF op \in SubOps THEN DoSub(s, i)
  ELSE IF op \in FnOps THEN DoFn(s, i)
  ELSE IF op \in InputOps THEN DoInput(s, i)
  ELSE IF op \in DataOps THEN DoData(s, i)
  ELSE DoRandom(s, i)

\* ---- starting and ending
\* no expression or function call is part way through
Between(s) == s.stk = <<>> /\ s.sstk = <<>> /\ ~s.fn.on

RunOver(s) == s.pc > Len(Code(s)) \/ s.stopped \/ (s.intr /\ Between(s))

\* no subroutine, loop or function is in progress, and the program cannot be continued
Reset(s) ==
  [s EXCEPT !.stk = <<>>, !.sstk = <<>>, !.rstk = <<>>, !.fstk = <<>>, !.fn = NoFn, !.cont = NoCont,
            !.col = 1, !.pdata = 1, !.idata = 1]

StartRun(s) == [s EXCEPT !.mode = "run", !.stopped = FALSE, !.intr = FALSE, !.failed = FALSE, !.col = 1]

\* something in progress would go on in the immediate line, which is now forgotten
InImmediate(s) ==
  \/ \E i \in 1..Len(s.rstk) : s.rstk[i].code # "prog"
  \/ \E i \in 1..Len(s.fstk) : s.fstk[i].code # "prog"

EndRun(s) ==
  LET shown == IF s.failed THEN s
               ELSE IF s.intr THEN Out(s, Txt("Break") \o <<NL>>)
               ELSE IF s.stopped THEN Out(s, LineText(CurLine(s)[1]) \o <<NL>> \o Txt("Stopped") \o <<NL>>)
               ELSE s
      kept == IF s.code # "prog" THEN shown
              ELSE [shown EXCEPT !.cont =
                      IF ~s.failed /\ (s.stopped \/ s.intr)
                      THEN [on |-> TRUE, code |-> "prog", pc |-> IF s.stopped THEN s.pc + 1 ELSE s.pc, line |-> s.line]
                      ELSE NoCont]
  IN IF s.origin = "imm" /\ InImmediate(kept) THEN Reset(kept) ELSE kept

\* ---- compiling
NoProg == [ok |-> FALSE, bc |-> <<>>, idx |-> EMPTY, data |-> FALSE]
HasData(bc) == \E i \in 1..Len(bc) : bc[i].op = "DATA"

Index(bc, src) ==
  LET at == {i \in 1..Len(bc) : bc[i].op = "LINE"} IN
  [n \in {src[bc[i].a].n : i \in at} |-> CHOOSE i \in at : src[bc[i].a].n = n]

Forget(s) == [s EXCEPT !.sym = EMPTY, !.val = EMPTY, !.arr = EMPTY, !.def = EMPTY]

\* compile the program if it has changed; every name and value and all control state are forgotten
Compile(s) ==
  IF ~s.has \/ s.prog.ok THEN s
  ELSE LET P == ParseProgram(s.src, s.name, s.any, EMPTY)
           t == [Forget(s) EXCEPT !.err = @ \o P.L.err, !.sym = P.sym]
       IN IF P.fail THEN t
          ELSE Reset([t EXCEPT !.prog = [ok |-> TRUE, bc |-> P.bc, idx |-> Index(P.bc, s.src), data |-> HasData(P.bc)]])
Compiled(s) == ~s.has \/ s.prog.ok

RunProgram(s) ==
  IF ~s.has THEN s
  ELSE LET c == Compile(s) IN
       IF ~c.prog.ok THEN c
       ELSE StartRun([Reset(c) EXCEPT !.code = "prog", !.pc = 1, !.line = 1, !.origin = "run"])

RunImmediate(s, line) ==
  LET c == Compile(s) IN
  IF ~Compiled(c) THEN c
  ELSE LET P == ParseLine(NewParser(<<>>, FALSE, c.sym), 1, 0, line)
           t == [c EXCEPT !.err = @ \o P.L.err, !.sym = P.sym]
       IN IF P.fail THEN t
          ELSE StartRun([t EXCEPT !.imm = [bc |-> P.bc, t |-> line, data |-> HasData(P.bc)],
                                  !.idata = 1, !.code = "imm", !.pc = 1, !.line = 1, !.origin = "imm"])

Continue(s) ==   \* only if s.cont.on and the program has not changed
  StartRun([s EXCEPT !.code = s.cont.code, !.pc = s.cont.pc, !.line = s.cont.line, !.origin = "cont"])
=============================================================================
