--------------------------------- MODULE Shell ---------------------------------
(***************************************************************************)
(* The part of the operating system's command interpreter that the         *)
(* sessions use: commands of words, quoted or not, separated by semicolons *)
(*   echo words   writes the words, on the output or to a file             *)
(*   : words      does nothing, as do true, false and the unknown nosuch   *)
(*   exit n       ends the line                                            *)
(* A word > or >> is followed by the name of the file.  The result is a    *)
(* sequence of [op, text, file], or is not ok if a line is anything else.  *)
(***************************************************************************)
EXTENDS Chars

Plain(c) == IsAlnum(c) \/ c \in {46, 44, 43, 58, 61, 95, 47, 45, 64, 37}    \* . , + : = _ / - @ %
Separator(c) == c \in {59, 62}

NoWord == [on |-> FALSE, t |-> <<>>]
NoCmd == [words |-> <<>>, to |-> <<>>, redir |-> ""]

\* st: ok, the commands so far, the command and word being read, the quote that is open
Start0 == [ok |-> TRUE, done |-> <<>>, cmd |-> NoCmd, word |-> NoWord, quote |-> 0]

EndWord(st) ==
  IF ~st.word.on THEN st
  ELSE IF st.cmd.redir # "" /\ st.cmd.to = <<>>
  THEN [st EXCEPT !.cmd.to = st.word.t, !.word = NoWord]
  ELSE [st EXCEPT !.cmd.words = Append(@, st.word.t), !.word = NoWord]

EndCmd(st0) ==
  LET st == EndWord(st0) IN
  IF st.cmd.words = <<>> \/ (st.cmd.redir # "" /\ st.cmd.to = <<>>) THEN [st EXCEPT !.ok = FALSE]
  ELSE [st EXCEPT !.done = Append(@, st.cmd), !.cmd = NoCmd]

AddTo(st, c) == [st EXCEPT !.word = [on |-> TRUE, t |-> Append(@.t, c)]]

RECURSIVE Read(_, _, _)
Read(st, t, i) ==
  IF ~st.ok THEN st
  ELSE IF i > Len(t) THEN (IF st.quote # 0 THEN [st EXCEPT !.ok = FALSE] ELSE EndCmd(st))
  ELSE LET c == t[i] IN
       IF c > 126 \/ c < 32 THEN [st EXCEPT !.ok = FALSE]
       ELSE IF st.quote # 0
       THEN IF c = st.quote THEN Read([st EXCEPT !.quote = 0], t, i + 1)
            ELSE IF c \in {92, 36, 96, 33} THEN [st EXCEPT !.ok = FALSE]    \* \ $ ` !
            ELSE Read(AddTo(st, c), t, i + 1)
       ELSE IF c \in {34, 39} THEN Read([st EXCEPT !.quote = c, !.word.on = TRUE], t, i + 1)
       ELSE IF c = SPACE THEN Read(EndWord(st), t, i + 1)
       ELSE IF c = 59 THEN Read(EndCmd(st), t, i + 1)
       ELSE IF c = 62
       THEN LET e == EndWord(st)
                two == i < Len(t) /\ t[i + 1] = 62 IN
            IF e.cmd.redir # "" \/ (i > 1 /\ IsDigit(t[i - 1])) THEN [st EXCEPT !.ok = FALSE]
            ELSE Read([e EXCEPT !.cmd.redir = IF two THEN "append" ELSE "write"], t, IF two THEN i + 2 ELSE i + 1)
       ELSE IF Plain(c) THEN Read(AddTo(st, c), t, i + 1)
       ELSE [st EXCEPT !.ok = FALSE]

RECURSIVE Spaced(_, _)
Spaced(ws, i) == IF i > Len(ws) THEN <<>> ELSE IF i = Len(ws) THEN ws[i] ELSE ws[i] \o <<SPACE>> \o Spaced(ws, i + 1)

Known(c) ==
  \/ c.words[1] = Txt("echo") /\ (Len(c.words) = 1 \/ c.words[2] = <<>> \/ c.words[2][1] # 45)
  \/ c.words[1] \in {Txt(":"), Txt("true"), Txt("false"), Txt("nosuch")}
  \/ c.words[1] = Txt("exit") /\ c.redir = "" /\ (Len(c.words) = 1 \/ (Len(c.words) = 2 /\ c.words[2] \in {<<48 + d>> : d \in 0..9}))
FileOk(c) == c.redir = "" \/ \A i \in 1..Len(c.to) : IsAlnum(c.to[i]) \/ c.to[i] = 46

Written(c) == IF c.words[1] = Txt("echo") THEN Spaced(Tail(c.words), 1) \o <<NL>> ELSE <<>>

\* a line ends with the first exit
RECURSIVE UpTo(_, _)
UpTo(cs, i) == IF i > Len(cs) \/ cs[i].words[1] = Txt("exit") THEN i - 1 ELSE UpTo(cs, i + 1)

Shell(t) ==
  LET r == Read(Start0, t, 1) IN
  IF r.ok /\ \A i \in 1..Len(r.done) : Known(r.done[i]) /\ FileOk(r.done[i])
  THEN [ok |-> TRUE, cmds |-> Tup([i \in 1..Len(r.done) |->
                                    [t |-> Written(r.done[i]), to |-> Str(r.done[i].to), redir |-> r.done[i].redir]], UpTo(r.done, 1))]
  ELSE [ok |-> FALSE, cmds |-> <<>>]
=============================================================================
