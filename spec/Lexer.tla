------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The words of Legacy Basic: how the text of a line is divided into       *)
(* tokens.  A lexer state is a record                                      *)
(*   text   the line            pos   characters consumed so far           *)
(*   tpos   characters before the current token                            *)
(*   tok    current token       word  its text     num   its value         *)
(*   ln     line number         name  file name (<<>> if none)             *)
(*   any    keywords are recognised anywhere                               *)
(*   err    text written to the error output so far                        *)
(***************************************************************************)
EXTENDS Chars

MAXWORD == 128   \* size of a word including its terminator

\* tokens: character codes, or
TNONE == 256
TERR  == 257
TEOF  == 258
TID   == 259
TNUM  == 260
TSTR  == 261
TNE   == 262
TLE   == 263
TGE   == 264
TAND == 265  TCLEAR == 266  TCLS == 267  TDATA == 268  TDEF == 269  TDIM == 270
TELSE == 271  TEND == 272  TFOR == 273  TGOSUB == 274  TGOTO == 275  TIF == 276
TINPUT == 277  TLET == 278  TLINE == 279  TNEXT == 280  TNOT == 281  TON == 282
TOR == 283  TPRINT == 284  TRANDOMIZE == 285  TREAD == 286  TREM == 287
TRESTORE == 288  TRETURN == 289  TSTEP == 290  TSTOP == 291  TTHEN == 292  TTO == 293

Keywords == <<
  Txt("AND"), Txt("CLEAR"), Txt("CLS"), Txt("DATA"), Txt("DEF"), Txt("DIM"),
  Txt("ELSE"), Txt("END"), Txt("FOR"), Txt("GOSUB"), Txt("GOTO"), Txt("IF"),
  Txt("INPUT"), Txt("LET"), Txt("LINE"), Txt("NEXT"), Txt("NOT"), Txt("ON"),
  Txt("OR"), Txt("PRINT"), Txt("RANDOMIZE"), Txt("READ"), Txt("REM"),
  Txt("RESTORE"), Txt("RETURN"), Txt("STEP"), Txt("STOP"), Txt("THEN"), Txt("TO") >>

KeywordSet == {Keywords[i] : i \in 1..29}
KeywordToken == [w \in KeywordSet |-> TAND - 1 + (CHOOSE i \in 1..29 : Keywords[i] = w)]

\* the keyword a word is, whatever its letter case, or TID
WordToken(w) == LET u == Upper(w) IN
  IF Len(u) <= 9 /\ u \in KeywordSet THEN KeywordToken[u] ELSE TID

\* the keyword that text continues with after p characters, or 0
KeywordAt(t, p) ==
  LET u == Upper(SubSeq(t, p + 1, IF Len(t) < p + 9 THEN Len(t) ELSE p + 9))
      hit == {i \in 1..29 : Len(Keywords[i]) <= Len(u) /\ SubSeq(u, 1, Len(Keywords[i])) = Keywords[i]}
  IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j

NewLex(name, any) == [text |-> <<>>, pos |-> 0, tpos |-> 0, tok |-> TNONE, word |-> <<>>,
                      num |-> "0.0", ln |-> 0, name |-> name, any |-> any, err |-> <<>>]

\* the character after p consumed ones; the line ends with an unlimited supply of NL
At(t, p) == IF p < Len(t) THEN t[p + 1] ELSE NL

IsBlank(c) == c = SPACE \/ c = TABC \/ c = CR

RECURSIVE SkipBlanks(_, _)
SkipBlanks(t, p) == IF p < Len(t) /\ IsBlank(t[p + 1]) THEN SkipBlanks(t, p + 1) ELSE p

RECURSIVE EndAlnum(_, _)
EndAlnum(t, p) == IF p < Len(t) /\ IsAlnum(t[p + 1]) THEN EndAlnum(t, p + 1) ELSE p

RECURSIVE EndDigits(_, _)
EndDigits(t, p) == IF p < Len(t) /\ IsDigit(t[p + 1]) THEN EndDigits(t, p + 1) ELSE p

Min2(a, b) == IF a < b THEN a ELSE b

\* an error found by the lexer: the line, and a message
LexErr(L, p, msg) ==
  [L EXCEPT !.pos = Min2(p, Len(L.text)), !.tok = TERR,
            !.err = @ \o (IF L.name # <<>> THEN L.name \o <<40>> \o NatTxt(L.ln) \o Txt("): ") ELSE <<>>)
                      \o (IF L.ln # 0 THEN NatTxt(L.ln) \o <<SPACE>> ELSE <<>>)
                      \o L.text \o <<NL>> \o msg \o <<NL>>]

Tok(L, p, t, w) == [L EXCEPT !.pos = p, !.tok = t, !.word = w]

InvalidChar(L, p, c) ==
  LexErr(L, p, Txt("invalid character on line: value ") \o NatTxt(c) \o <<NL>>)

\* a name or keyword starting after p characters, keywords being whole words
LexWord(L, p) ==
  LET e == EndAlnum(L.text, p)
      n == e - p
  IN IF n > MAXWORD - 2
     THEN LexErr(L, p + MAXWORD - 1, Txt("a keyword or name is too long: ") \o SubSeq(L.text, p + 1, p + MAXWORD - 2) \o Txt("..."))
     ELSE LET e2 == IF At(L.text, e) = DOLLAR THEN e + 1 ELSE e
              w == SubSeq(L.text, p + 1, e2)
          IN Tok(L, e2, WordToken(w), w)

\* where a name ends if keywords are recognised anywhere: before the next keyword
RECURSIVE EndName(_, _)
EndName(t, p) ==
  IF p < Len(t) /\ IsAlnum(t[p + 1]) /\ ~(IsAlpha(t[p + 1]) /\ KeywordAt(t, p) # 0)
  THEN EndName(t, p + 1) ELSE p

LexCrunched(L, p) ==
  LET k == KeywordAt(L.text, p) IN
  IF k # 0 THEN Tok(L, p + Len(Keywords[k]), TAND - 1 + k, Keywords[k])
  ELSE LET e == EndName(L.text, p + 1)
           n == e - p
       IN IF n > MAXWORD - 2
          THEN LexErr(L, p + MAXWORD - 2, Txt("name is too long: ") \o SubSeq(L.text, p + 1, p + MAXWORD - 2) \o Txt("..."))
          ELSE LET stopped == e < Len(L.text) /\ IsAlnum(L.text[e + 1]) \* by a keyword
                   e2 == IF ~stopped /\ At(L.text, e) = DOLLAR THEN e + 1 ELSE e
               IN Tok(L, e2, TID, SubSeq(L.text, p + 1, e2))

\* digits [. digits] [E [-] digits]; an E not beginning an exponent is not part of the number
LexNumber(L, p) ==
  LET t == L.text
      e1 == EndDigits(t, p)
      e2 == IF At(t, e1) = 46 THEN EndDigits(t, e1 + 1) ELSE e1
      isexp == Low(At(t, e2)) = 101 /\ (IsDigit(At(t, e2 + 1)) \/ At(t, e2 + 1) = 45)
      e3 == IF ~isexp THEN e2
            ELSE EndDigits(t, IF At(t, e2 + 1) = 45 THEN e2 + 2 ELSE e2 + 1)
      w == SubSeq(t, p + 1, e3)
  IN IF Len(w) > MAXWORD - 1
     THEN LexErr(L, p + MAXWORD, Txt("number is too long: ") \o SubSeq(w, 1, MAXWORD - 1) \o Txt("..."))
     ELSE LET v == NParse(w) IN
          IF v[2] # Len(w) THEN [LexErr(L, e3, Txt("invalid number: ") \o w \o <<NL>>) EXCEPT !.word = w]
          ELSE [Tok(L, e3, TNUM, w) EXCEPT !.num = v[1]]

\* quoted text after the opening quotation mark, with its length limit
RECURSIVE LexQuoted(_, _, _)
LexQuoted(L, p, q) ==   \* q: current position; the text started at p
  LET c == At(L.text, q) IN
  IF c = QUOTE THEN Tok(L, q + 1, TSTR, SubSeq(L.text, p + 1, q))
  ELSE IF c = NL
  THEN LexErr(L, q + 1, Txt("unterminated string: \"") \o SubSeq(L.text, p + 1, q) \o Txt("..."))
  ELSE IF q - p >= MAXWORD - 1
  THEN LexErr(L, q + 1, Txt("a string is too long: \"") \o SubSeq(L.text, p + 1, q) \o Txt("..."))
  ELSE IF c >= 127 THEN InvalidChar(L, q + 1, c)
  ELSE LexQuoted(L, p, q + 1)

LexNext(L0) ==
  LET t == L0.text
      p == SkipBlanks(t, L0.pos)
      c == At(t, p)
      L == [L0 EXCEPT !.tpos = p]
      d == At(t, p + 1)
  IN IF IsAlpha(c) THEN (IF L.any THEN LexCrunched(L, p) ELSE LexWord(L, p))
     ELSE IF IsDigit(c) \/ c = 46 THEN LexNumber(L, p)
     ELSE IF c = QUOTE THEN LexQuoted(L, p + 1, p + 1)
     ELSE IF c = 60 THEN (IF d = 62 THEN Tok(L, p + 2, TNE, L.word)
                          ELSE IF d = 61 THEN Tok(L, p + 2, TLE, L.word)
                          ELSE Tok(L, p + 1, 60, L.word))
     ELSE IF c = 62 THEN (IF d = 61 THEN Tok(L, p + 2, TGE, L.word)
                          ELSE Tok(L, p + 1, 62, L.word))
     ELSE IF c >= 127 THEN InvalidChar(L, p + 1, c)
     ELSE Tok(L, IF p < Len(t) THEN p + 1 ELSE p, c, L.word)

LexLine(L, ln, text) == LexNext([L EXCEPT !.ln = ln, !.text = text, !.pos = 0])

\* the rest of the line is a remark
LexDiscard(L) == [L EXCEPT !.pos = Len(L.text), !.tpos = Len(L.text), !.tok = NL]

RECURSIVE SkipBlank2(_, _)
SkipBlank2(t, p) == IF p < Len(t) /\ (t[p + 1] = SPACE \/ t[p + 1] = TABC) THEN SkipBlank2(t, p + 1) ELSE p

RECURSIVE TrimEnd(_)
TrimEnd(w) == IF w # <<>> /\ IsBlank(Last(w)) THEN TrimEnd(Front1(w)) ELSE w

\* unquoted DATA text
RECURSIVE LexBare(_, _, _)
LexBare(L, p, q) ==
  LET c == At(L.text, q) IN
  IF c = QUOTE \/ c = 44 \/ c = 58 \/ c = NL
  THEN [L EXCEPT !.pos = Min2(q, Len(L.text)), !.word = TrimEnd(SubSeq(L.text, p + 1, q))]
  ELSE IF q - p >= MAXWORD - 1
  THEN LexErr(L, q + 1, Txt("data is too long: ") \o SubSeq(L.text, p + 1, q) \o Txt("..."))
  ELSE IF c >= 127 THEN InvalidChar(L, q + 1, c)
  ELSE LexBare(L, p, q + 1)

\* one DATA item into word; the token is TERR if it is bad, TDATA otherwise
LexData(L0) ==
  LET p == SkipBlank2(L0.text, L0.pos)
      L == [L0 EXCEPT !.tpos = p, !.tok = TDATA]
  IN IF At(L.text, p) = QUOTE
     THEN LET M == LexQuoted(L, p + 1, p + 1) IN IF M.tok = TERR THEN M ELSE [M EXCEPT !.tok = TDATA]
     ELSE LexBare(L, p, p)

\* how a token is described in a message
TokenName(t) ==
  IF t = NL THEN Txt("end of line")
  ELSE IF t = TNONE THEN Txt("no token")
  ELSE IF t = TERR THEN Txt("invalid token")
  ELSE IF t = TEOF THEN Txt("end of file")
  ELSE IF t = TID THEN Txt("name")
  ELSE IF t = TNUM THEN Txt("number")
  ELSE IF t = TSTR THEN Txt("string")
  ELSE IF t = TNE THEN Txt("<>")
  ELSE IF t = TLE THEN Txt("<=")
  ELSE IF t = TGE THEN Txt(">=")
  ELSE IF t >= TAND /\ t <= TTO THEN Keywords[t - TAND + 1]
  ELSE IF t > 31 /\ t < 127 THEN <<39, t, 39>>
  ELSE Txt("unknown token: ") \o NatTxt(t)

TokenDesc(L) ==
  IF L.tok = TID THEN Txt("name: ") \o L.word
  ELSE IF L.tok = TNUM THEN Txt("number: ") \o NFmt(L.num)
  ELSE IF L.tok = TSTR THEN Txt("string: \"") \o L.word \o <<QUOTE>>
  ELSE TokenName(L.tok)
=============================================================================
