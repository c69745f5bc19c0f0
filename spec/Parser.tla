------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The grammar and the static rules of Legacy Basic: which lines are       *)
(* valid, what is reported for a line that is not, and the instructions a  *)
(* valid line stands for.                                                  *)
(*                                                                         *)
(* A parser state P is a record                                            *)
(*   L     lexer state (its err field collects everything reported)        *)
(*   bc    instructions so far, each [op, a, b]                            *)
(*   sym   the names met so far: key -> [kind, name]                       *)
(*   ift   position of the IF that the next ELSE of this line belongs to   *)
(*   fail  an error has been reported; parsing stops                       *)
(*   ty    type of the expression just parsed: "n" or "s"                  *)
(*   key   the identifier just parsed, np its number of subscripts         *)
(***************************************************************************)
EXTENDS Lexer, TLC

\* A name is identified by its spelling ignoring letter case and whether it has parentheses.
Key(w, paren) == Str(IF paren THEN Upper(w) \o <<40>> ELSE Upper(w))
IsStrName(w) == w # <<>> /\ Last(w) = DOLLAR
TypeOf(w) == IF IsStrName(w) THEN "s" ELSE "n"

\* built-in functions: argument types ("d": an optional argument without effect), result
Builtins ==
  [ABS |-> <<"n", "n">>, ASC |-> <<"n", "s">>, ATN |-> <<"n", "n">>, COS |-> <<"n", "n">>,
   EXP |-> <<"n", "n">>, INT |-> <<"n", "n">>, LEN |-> <<"n", "s">>, LOG |-> <<"n", "n">>,
   RND |-> <<"n", "d">>, SGN |-> <<"n", "n">>, SIN |-> <<"n", "n">>, SQR |-> <<"n", "n">>,
   TAN |-> <<"n", "n">>, VAL |-> <<"n", "s">>,
   FIX |-> <<"x">>, USR |-> <<"x">>]
  @@ ("CHR$" :> <<"s", "n">>) @@ ("LEFT$" :> <<"s", "s", "n">>) @@ ("MID$" :> <<"s", "s", "n", "n">>)
  @@ ("RIGHT$" :> <<"s", "s", "n">>) @@ ("STR$" :> <<"s", "n">>) @@ ("TIME$" :> <<"s", "d">>)
  @@ ("GET$" :> <<"x">>) @@ ("HEX$" :> <<"x">>) @@ ("INKEY$" :> <<"x">>) @@ ("SPACE$" :> <<"x">>)
BuiltinNames == DOMAIN Builtins
IsBuiltin(w) == Len(w) <= 6 /\ Str(Upper(w)) \in BuiltinNames

KindName(k) ==
  CASE k = "unk" -> Txt("unknown: used before defined")
    [] k = "var" -> Txt("variable")
    [] k = "arr" -> Txt("array")
    [] k = "def" -> Txt("user-defined function")
    [] k = "bui" -> Txt("built-in function")

NewParser(name, any, sym) ==
  [L |-> NewLex(name, any), bc |-> <<>>, sym |-> sym, ift |-> 0, fail |-> FALSE,
   ty |-> "n", key |-> "", np |-> 0]

Tk(P) == P.L.tok
Adv(P) == [P EXCEPT !.L = LexNext(@)]
Em(P, op, a, b) == [P EXCEPT !.bc = Append(@, [op |-> op, a |-> a, b |-> b])]

\* ---- reports
\* the line, and a caret under the current token
Where(L) ==
  LET n == IF L.ln # 0 THEN NatTxt(L.ln) \o <<SPACE>> ELSE <<>>
  IN n \o L.text \o <<NL>> \o Spaces(Len(n) + L.tpos) \o <<94, NL>>

FailNT(P, msg) ==
  [P EXCEPT !.fail = TRUE, !.L.err = @ \o Where(P.L) \o Txt("Error: ") \o msg \o <<NL>>]
Fail(P, msg) == FailNT(P, msg \o <<58, SPACE>> \o TokenDesc(P.L))
FailName(P, msg, w) == FailNT(P, msg \o <<58, SPACE>> \o w)

Match(P, t) ==
  IF P.fail THEN P
  ELSE IF Tk(P) = t THEN Adv(P)
  ELSE Fail([P EXCEPT !.L.err = @ \o Txt("Error: expected: ") \o TokenName(t) \o <<NL>>],
            Txt("unexpected token"))

EndOfStatement(P) == Tk(P) \in {TEOF, NL, 58, TELSE}

\* ---- line numbers: 1 to 65535
IsLineNum(P) == Tk(P) = TNUM /\ NIsInt(P.L.num) /\ NInt(P.L.num) >= 1 /\ NInt(P.L.num) <= 65535
\* parse a line number and emit an instruction that has it
LineNum(P, op) ==
  IF P.fail THEN P
  ELSE IF IsLineNum(P) THEN Em(Adv(P), op, NInt(P.L.num), 0)
  ELSE Fail(P, Txt("line number expected"))

\* ---- expressions
RECURSIVE Expr(_), AndExpr(_), NotExpr(_), AddExpr(_), MulExpr(_), NegExpr(_), PowExpr(_)
RECURSIVE OrRest(_), AndRest(_), AddRest(_), MulRest(_), Primary(_)
RECURSIVE CountTok(_, _, _), Subscripts(_, _), BuiltinArgs(_, _, _)
RECURSIVE Identifier(_, _)

NumExpr(P) ==
  IF P.fail THEN P
  ELSE LET Q == Expr(P) IN
       IF Q.fail \/ Q.ty = "n" THEN Q ELSE FailNT(Q, Txt("numeric expression expected"))
StrExpr(P) ==
  IF P.fail THEN P
  ELSE LET Q == Expr(P) IN
       IF Q.fail \/ Q.ty = "s" THEN Q ELSE FailNT(Q, Txt("string expression expected"))

Expr(P) == OrRest(AndExpr(P))
OrRest(P) ==
  IF P.fail \/ Tk(P) # TOR THEN P
  ELSE LET Q == AndExpr(Adv(P)) IN
       IF Q.fail THEN Q
       ELSE IF P.ty = "n" /\ Q.ty = "n" THEN OrRest(Em(Q, "OR", 0, 0))
       ELSE FailNT(Q, Txt("Invalid types for OR"))

AndExpr(P) == AndRest(NotExpr(P))
AndRest(P) ==
  IF P.fail \/ Tk(P) # TAND THEN P
  ELSE LET Q == NotExpr(Adv(P)) IN
       IF Q.fail THEN Q
       ELSE IF P.ty = "n" /\ Q.ty = "n" THEN AndRest(Em(Q, "AND", 0, 0))
       ELSE FailNT(Q, Txt("Invalid types for AND"))

\* skip a run of one token: <<P, how many>>
CountTok(P, t, n) == IF Tk(P) = t THEN CountTok(Adv(P), t, n + 1) ELSE <<P, n>>

RelOp(t) == CASE t = 61 -> "EQ" [] t = 60 -> "LT" [] t = 62 -> "GT"
              [] t = TNE -> "NE" [] t = TLE -> "LE" [] t = TGE -> "GE" [] OTHER -> ""

RelExpr(P) ==
  LET A == AddExpr(P) IN
  IF A.fail THEN A
  ELSE LET op == RelOp(Tk(A)) IN
       IF op = "" THEN A
       ELSE LET B == AddExpr(Adv(A)) IN
            IF B.fail THEN B
            ELSE IF A.ty # B.ty THEN Fail(B, Txt("type mismatch in relational expression"))
            ELSE [Em(B, IF A.ty = "s" THEN "SREL" ELSE "NREL", op, 0) EXCEPT !.ty = "n"]

NotExpr(P) ==
  LET c == CountTok(P, TNOT, 0)
      A == RelExpr(c[1])
  IN IF A.fail \/ c[2] = 0 THEN A
     ELSE IF A.ty # "n" THEN FailNT(A, Txt("NOT requires a numeric value"))
     ELSE IF c[2] % 2 = 1 THEN Em(A, "NOT", 0, 0) ELSE A

AddExpr(P) == AddRest(MulExpr(P))
AddRest(P) ==
  IF P.fail THEN P
  ELSE IF P.ty = "n" /\ Tk(P) \in {43, 45}
  THEN LET Q == MulExpr(Adv(P)) IN
       IF Q.fail THEN Q
       ELSE IF Q.ty # "n" THEN FailNT(Q, Txt("Additive operator type mismatch"))
       ELSE AddRest(Em(Q, IF Tk(P) = 43 THEN "ADD" ELSE "SUB", 0, 0))
  ELSE IF P.ty = "s" /\ Tk(P) = 43
  THEN LET Q == MulExpr(Adv(P)) IN
       IF Q.fail THEN Q
       ELSE IF Q.ty # "s" THEN FailNT(Q, Txt("String concatenation type mismatch"))
       ELSE AddRest(Em(Q, "CONCAT", 0, 0))
  ELSE P

MulExpr(P) == MulRest(NegExpr(P))
MulRest(P) ==
  IF P.fail \/ Tk(P) \notin {42, 47} THEN P
  ELSE LET Q == NegExpr(Adv(P)) IN
       IF Q.fail THEN Q
       ELSE IF P.ty = "n" /\ Q.ty = "n" THEN MulRest(Em(Q, IF Tk(P) = 42 THEN "MUL" ELSE "DIV", 0, 0))
       ELSE FailNT(Q, Txt("Invalid types for multiplicative operator"))

NegExpr(P) ==
  LET c == CountTok(P, 45, 0)
      A == PowExpr(c[1])
  IN IF A.fail \/ c[2] = 0 THEN A
     ELSE IF A.ty # "n" THEN FailNT(A, Txt("negation requires a numeric value"))
     ELSE IF c[2] % 2 = 1 THEN Em(A, "NEG", 0, 0) ELSE A

PowExpr(P) ==
  LET A == Primary(P) IN
  IF A.fail \/ A.ty # "n" \/ Tk(A) # 94 THEN A
  ELSE LET B == PowExpr(Adv(A)) IN
       IF B.fail THEN B
       ELSE IF B.ty # "n" THEN FailNT(B, Txt("Invalid types for power operator"))
       ELSE Em(B, "POW", 0, 0)

Primary(P) ==
  IF Tk(P) = TNUM THEN [Em(Adv(P), "PUSHN", P.L.num, 0) EXCEPT !.ty = "n"]
  ELSE IF Tk(P) = TSTR THEN [Em(Adv(P), "PUSHS", P.L.word, 0) EXCEPT !.ty = "s"]
  ELSE IF Tk(P) = TID THEN
    IF IsBuiltin(P.L.word) THEN
      LET name == Str(Upper(P.L.word))
          b == Builtins[name]
      IN IF b[1] = "x" THEN Fail(P, Txt("built-in function not yet implemented"))
         ELSE LET A == Adv(P)
                  B == IF b[2] = "d"
                       THEN IF Tk(A) # 40 THEN A
                            ELSE LET A2 == Adv(A) IN
                                 IF Tk(A2) = 41 THEN Adv(A2)
                                 ELSE LET A3 == Expr(A2) IN
                                      IF A3.fail THEN A3
                                      ELSE Match(Em(A3, IF A3.ty = "n" THEN "POPN" ELSE "POPS", 0, 0), 41)
                       ELSE Match(BuiltinArgs(Match(A, 40), b, 2), 41)
              IN IF B.fail THEN B ELSE [Em(B, name, 0, 0) EXCEPT !.ty = b[1]]
    ELSE LET A == Identifier(P, "unk") IN
         IF A.fail THEN A
         ELSE [Em(A, IF A.np > 0 THEN (IF TypeOf(P.L.word) = "s" THEN "GETPS" ELSE "GETPN")
                                 ELSE (IF TypeOf(P.L.word) = "s" THEN "GETS" ELSE "GETN"), A.key, A.np)
               EXCEPT !.ty = TypeOf(P.L.word)]
  ELSE IF Tk(P) = 40 THEN Match(Expr(Adv(P)), 41)
  ELSE Fail(P, Txt("expression expected"))

BuiltinArgs(P, b, i) ==
  IF P.fail THEN P
  ELSE LET Q == IF b[i] = "n" THEN NumExpr(P) ELSE StrExpr(P) IN
       IF Q.fail \/ i = Len(b) THEN Q
       ELSE BuiltinArgs(Match(Q, 44), b, i + 1)

\* the subscripts after an opening parenthesis
Subscripts(P, n) ==
  LET Q == NumExpr(P) IN
  IF Q.fail THEN Q
  ELSE IF Tk(Q) = 44 THEN Subscripts(Adv(Q), n + 1)
  ELSE [Match(Q, 41) EXCEPT !.np = n + 1]

\* A name, with subscripts if it has parentheses.  kind is what a name with
\* parentheses must be, "unk" if it may be an array or a function.
Identifier(P, kind) ==
  LET w == P.L.word
      A == Match(P, TID)
      B == IF A.fail THEN A
           ELSE IF Tk(A) = 40 THEN Subscripts(Adv(A), 0)
           ELSE [A EXCEPT !.np = 0]
  IN IF B.fail THEN B
     ELSE IF IsBuiltin(w)
     THEN FailName(B, Txt("name already used for ") \o KindName("bui"), w)
     ELSE LET k == Key(w, B.np > 0)
              C == [B EXCEPT !.key = k]
          IN IF k \notin DOMAIN C.sym
             THEN [C EXCEPT !.sym = (k :> [kind |-> IF C.np > 0 THEN kind ELSE "var", name |-> w]) @@ @]
             ELSE IF C.np = 0 THEN C
             ELSE IF C.sym[k].kind = "unk" THEN [C EXCEPT !.sym[k].kind = kind]
             ELSE IF kind # "unk" /\ C.sym[k].kind # kind
             THEN FailName(C, Txt("expected ") \o KindName(kind) \o Txt(", found ") \o KindName(C.sym[k].kind), w)
             ELSE C

SimpleVar(P) ==
  LET A == Identifier(P, "unk") IN
  IF A.fail \/ A.np = 0 THEN A
  ELSE FailName(A, Txt("simple variable expected"), A.sym[A.key].name)

\* a numeric variable without subscripts
NumVar(P) ==
  IF P.fail THEN P
  ELSE LET A == SimpleVar(P) IN
       IF A.fail THEN A
       ELSE IF IsStrName(A.sym[A.key].name)
       THEN FailName(A, Txt("numeric variable expected"), A.sym[A.key].name)
       ELSE A

\* ---- statements
\* an item that is read into, by an instruction for its type
Target(P, opn, ops) ==
  LET A == Identifier(P, "arr") IN
  IF A.fail THEN A
  ELSE Em(A, IF IsStrName(A.sym[A.key].name) THEN ops ELSE opn, A.key, A.np)

RECURSIVE DataItems(_)
DataItems(P) ==
  LET Q == [P EXCEPT !.L = LexData(@)] IN
  IF Tk(Q) = TERR THEN Fail(Q, Txt("data item expected"))
  ELSE LET R == Adv(Em(Q, "DATA", Q.L.word, 0)) IN
       IF Tk(R) = 44 THEN DataItems(R) ELSE R

ReadItem(P) == Target(P, "READN", "READS")

DimItem(P) ==
  LET A == Identifier(P, "arr") IN
  IF A.fail THEN A
  ELSE IF A.np = 0 THEN FailName(A, Txt("array name and dimensions expected"), A.sym[A.key].name)
  ELSE Em(A, IF IsStrName(A.sym[A.key].name) THEN "DIMS" ELSE "DIMN", A.key, A.np)

DefStmt(P0) ==
  LET P == Adv(P0) IN
  IF Tk(P) # TID THEN Fail(P, Txt("User-defined function name expected"))
  ELSE LET w == P.L.word
           k == Key(w, TRUE)
           old == IF IsBuiltin(w) THEN "bui" ELSE IF k \in DOMAIN P.sym THEN P.sym[k].kind ELSE ""
       IN IF old \notin {"", "unk", "def"}
          THEN Fail(P, Txt("name already used for ") \o KindName(old))
          ELSE LET A == [P EXCEPT !.sym = IF old = "" THEN (k :> [kind |-> "def", name |-> w]) @@ @
                                          ELSE [@ EXCEPT ![k].kind = "def"]]
                   B == Match(Em(Adv(A), "DEF", k, 1), 40)
                   C == NumVar(B)
                   D == IF C.fail THEN C ELSE Match(Match(Em(C, "PARAM", C.key, 0), 41), 61)
                   E == IF IsStrName(w) THEN StrExpr(D) ELSE NumExpr(D)
               IN IF E.fail THEN E ELSE Em(E, "ENDDEF", 0, 0)

ForStmt(P) ==
  LET V == NumVar(Adv(P))
      A == NumExpr(Match(V, 61))
      B == NumExpr(Match(A, TTO))
  IN IF B.fail THEN B
     ELSE LET C == IF Tk(B) = TSTEP THEN NumExpr(Adv(B)) ELSE Em(B, "PUSHN", NNum(1), 0)
          IN IF C.fail THEN C ELSE Em(C, "FOR", V.key, 0)

NextItem(P) == LET V == NumVar(P) IN IF V.fail THEN V ELSE Em(V, "NEXTV", V.key, 0)

\* optional prompt of INPUT
InputBuf(P) ==
  IF P.fail THEN P
  ELSE IF Tk(P) = TSTR
  THEN LET Q == Adv(P)
           R == IF Tk(Q) \in {44, 59} THEN Adv(Q) ELSE Q
       IN Em(R, "INBUF", P.L.word, 0)
  ELSE Em(P, "INBUF", <<>>, 0)

RECURSIVE InputItems(_)
InputItems(P) ==
  IF P.fail THEN P
  ELSE LET Q == Target(P, "INN", "INS") IN
       IF Q.fail \/ Tk(Q) # 44 THEN Q
       ELSE InputItems(Em(Adv(Q), "INSEP", 0, 0))

InputStmt(P) == LET Q == InputItems(InputBuf(Adv(P))) IN IF Q.fail THEN Q ELSE Em(Q, "INEND", 0, 0)

LineInput(P) ==
  LET A == InputBuf(Match(Adv(P), TINPUT)) IN
  IF A.fail THEN A
  ELSE LET B == Identifier(A, "arr") IN
       IF B.fail THEN B
       ELSE IF ~IsStrName(B.sym[B.key].name)
       THEN FailName(B, Txt("string variable or array element expected"), B.sym[B.key].name)
       ELSE Em(B, "INLINE", B.key, B.np)

Assignment(P) ==
  LET V == Identifier(P, "arr") IN
  IF V.fail THEN V
  ELSE LET E == Expr(Match(V, 61))
           str == IsStrName(V.sym[V.key].name)
           M == Match(V, 61)
       IN IF M.fail THEN M
          ELSE IF E.fail THEN E
          ELSE IF (E.ty = "s") # str THEN Fail(E, Txt("type mismatch in assignment"))
          ELSE IF V.np > 0 THEN Em(E, IF str THEN "SETAS" ELSE "SETAN", V.key, V.np)
          ELSE Em(E, IF str THEN "SETS" ELSE "SETN", V.key, 0)

\* items separated by commas
Item(P, kind) ==
  CASE kind = "read" -> ReadItem(P)
    [] kind = "dim" -> DimItem(P)
    [] kind = "next" -> NextItem(P)
    [] kind = "online" -> LineNum(P, "ONLINE")
RECURSIVE CommaList(_, _)
CommaList(P, kind) ==
  LET Q == Item(P, kind) IN
  IF Q.fail \/ Tk(Q) # 44 THEN Q ELSE CommaList(Adv(Q), kind)

OnStmt(P) ==
  LET A == NumExpr(Adv(P)) IN
  IF A.fail THEN A
  ELSE IF Tk(A) \notin {TGOTO, TGOSUB} THEN Fail(A, Txt("GOTO or GOSUB expected"))
  ELSE LET i == Len(A.bc) + 1
           B == CommaList(Adv(Em(A, IF Tk(A) = TGOTO THEN "ONGOTO" ELSE "ONGOSUB", 0, 0)), "online")
       IN IF B.fail THEN B ELSE [B EXCEPT !.bc[i].b = Len(B.bc) - i]

PrintFn(P, op) ==
  LET Q == Match(NumExpr(Match(Adv(P), 40)), 41) IN IF Q.fail THEN Q ELSE Em(Q, op, 0, 0)

RECURSIVE PrintItems(_, _)
PrintItems(P, sep) ==     \* sep: the last thing was a separator
  IF P.fail THEN P
  ELSE IF EndOfStatement(P) THEN (IF sep THEN P ELSE Em(P, "PRLN", 0, 0))
  ELSE IF Tk(P) = TID /\ Upper(P.L.word) = Txt("SPC") THEN PrintItems(PrintFn(P, "PRSPC"), FALSE)
  ELSE IF Tk(P) = TID /\ Upper(P.L.word) = Txt("TAB") THEN PrintItems(PrintFn(P, "PRTAB"), FALSE)
  ELSE IF Tk(P) = 59 THEN PrintItems(Adv(P), TRUE)
  ELSE IF Tk(P) = 44 THEN PrintItems(Em(Adv(P), "PRCOMMA", 0, 0), TRUE)
  ELSE LET Q == Expr(P) IN
       IF Q.fail THEN Q
       ELSE PrintItems(Em(Q, IF Q.ty = "n" THEN "PRNUM" ELSE "PRSTR", 0, 0), FALSE)

\* A statement, giving <<P, whether another statement must follow at once>>
IfStmt(P) ==
  LET A == Match(NumExpr(Adv(P)), TTHEN) IN
  IF A.fail THEN <<A, FALSE>>
  ELSE IF Tk(A) = TNUM THEN <<[LineNum(A, "GOTRUE") EXCEPT !.ift = 0], FALSE>>
  ELSE <<[Em(A, "IFTHEN", 0, 0) EXCEPT !.ift = Len(A.bc) + 1], TRUE>>

ElseClause(P) ==
  IF P.ift = 0
  THEN IF P.bc # <<>> /\ Last(P.bc).op = "GOTRUE" THEN <<LineNum(Adv(P), "GOTO"), FALSE>>
       ELSE <<Fail(P, Txt("unexpected ELSE")), FALSE>>
  ELSE <<[Em([Adv(P) EXCEPT !.bc[P.ift].op = "IFELSE"], "ELSE", 0, 0) EXCEPT !.ift = 0], TRUE>>

OneStatement(P) ==
  LET t == Tk(P) IN
  CASE t = TCLEAR -> Em(Adv(P), "CLEAR", 0, 0)
    [] t = TCLS -> Em(Adv(P), "CLS", 0, 0)
    [] t = TDATA -> DataItems(P)
    [] t = TDEF -> DefStmt(P)
    [] t = TDIM -> CommaList(Adv(P), "dim")
    [] t = TEND -> Em(Adv(P), "END", 0, 0)
    [] t = TFOR -> ForStmt(P)
    [] t = TGOSUB -> LineNum(Adv(P), "GOSUB")
    [] t = TGOTO -> LineNum(Adv(P), "GOTO")
    [] t = TINPUT -> InputStmt(P)
    [] t = TLET -> Assignment(Adv(P))
    [] t = TLINE -> LineInput(P)
    [] t = TNEXT -> LET A == Adv(P) IN IF Tk(A) = TID THEN CommaList(A, "next") ELSE Em(A, "NEXT", 0, 0)
    [] t = TON -> OnStmt(P)
    [] t \in {TPRINT, 63} -> PrintItems(Adv(P), FALSE)
    [] t = TRANDOMIZE -> LET A == Adv(P) IN
                         IF EndOfStatement(A) THEN Em(A, "RAND", 0, 0)
                         ELSE LET B == NumExpr(A) IN IF B.fail THEN B ELSE Em(B, "SEED", 0, 0)
    [] t = TREAD -> CommaList(Adv(P), "read")
    [] t = TREM -> [P EXCEPT !.L = LexDiscard(@)]
    [] t = TRESTORE -> LET A == Adv(P) IN IF Tk(A) = TNUM THEN LineNum(A, "RESTOREL") ELSE Em(A, "RESTORE", 0, 0)
    [] t = TRETURN -> Em(Adv(P), "RETURN", 0, 0)
    [] t = TSTOP -> Em(Adv(P), "STOP", 0, 0)
    [] t = TID -> Assignment(P)
    [] t \in {NL, 58} -> P
    [] OTHER -> Fail(P, Txt("statement expected"))

Statement(P) ==
  LET r == IF Tk(P) = TIF THEN IfStmt(P) ELSE <<OneStatement(P), FALSE>> IN
  IF r[1].fail THEN r
  ELSE IF Tk(r[1]) = TELSE THEN ElseClause(r[1]) ELSE r

RECURSIVE Complete(_)
Complete(P) == LET r == Statement(P) IN IF r[1].fail \/ ~r[2] THEN r[1] ELSE Complete(r[1])

RECURSIVE ColonList(_)
ColonList(P) ==
  IF P.fail \/ Tk(P) # 58 THEN P ELSE ColonList(Complete(Adv(P)))

\* one line: i is its position in the program, from 1
ParseLine(P, i, ln, text) ==
  LET Q == Em([P EXCEPT !.L = LexLine(@, ln, text), !.ift = 0], "LINE", i, 0)
  IN Match(ColonList(Complete(Q)), NL)

RECURSIVE ParseLines(_, _, _)
ParseLines(P, src, i) ==
  IF P.fail \/ i > Len(src) THEN P
  ELSE ParseLines(ParseLine(P, i, src[i].n, src[i].t), src, i + 1)

ParseProgram(src, name, any, sym) == ParseLines(NewParser(name, any, sym), src, 1)
=============================================================================
