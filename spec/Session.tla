-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* The interpreter as a transition system: a user types lines, and the     *)
(* interpreter reads and carries them out, one step at a time.             *)
(*                                                                         *)
(* What the user may do is given by a session (read from a file):          *)
(*   script    a sequence of slots; in each, one of several alternatives   *)
(*             is typed, an alternative being a sequence of lines.  Lines  *)
(*             are typed when the interpreter waits for one.               *)
(*   alphabet  after the script, any of these is typed, any number of      *)
(*             times up to `depth`, if the interpreter is at its prompt    *)
(* All choices are explored.  `s` is the state of the interpreter (see VM  *)
(* and Monitor), `typed` everything typed so far, `path` the choices made. *)
(***************************************************************************)
EXTENDS Start

VARIABLES sid, todo, s, typed, path, clk

vars == <<sid, todo, s, typed, path, clk>>

Sessions == LoadSessions(1).sessions
Se == Sessions[sid]

Files(fs) == [k \in {Str(Txt(fs[i].name)) : i \in 1..Len(fs)} |->
                Txt(fs[CHOOSE i \in 1..Len(fs) : fs[i].name = k].text)]
SetOf(q) == {q[i] : i \in 1..Len(q)}

Boot(e) ==
  LET b == Blank(e.any, e.trace, [input |-> SetOf(e.breaks.input), sin |-> SetOf(e.breaks.sin)], Files(e.files), e.clock)
  IN IF Len(e.argv) > 0 THEN CommandLine(b, e.argv)
     ELSE IF e.what = "monitor" THEN StartMonitor(b, e.quiet) ELSE StartFile(b, e.quiet, Txt(e.file), e.what)

Init ==
  /\ sid \in 1..Len(Sessions)
  /\ todo = Se.script
  /\ LET b == Via(Boot, Se) IN
       s \in IF b.seed = ANYSEED /\ b.clock.on THEN {[b EXCEPT !.seed = k] : k \in DOMAIN Streams} ELSE {b}
  /\ typed = <<>>
  /\ path = <<>>
  /\ clk = 0

Op == Code(s)[s.pc].op
\* the interpreter is waiting for a line that has not been typed
Waiting ==
  /\ s.tin = <<>>
  /\ \/ s.mode \in {"prompt", "page"}
     \/ s.mode = "run" /\ ~RunOver(s) /\ Op = "INBUF"

Picks == Len(path)
Exhausted == todo = <<>> /\ (Len(Se.alphabet) = 0 \/ Picks >= Se.depth)   \* input ends

Type(lines, i) ==
  /\ s' = [s EXCEPT !.tin = Tup([j \in 1..Len(lines) |-> Txt(lines[j])], Len(lines))]
  /\ typed' = typed \o lines
  /\ path' = Append(path, i)
  /\ clk' = 0
  /\ UNCHANGED sid

TypeLine ==
  /\ Waiting
  /\ todo # <<>>
  /\ \E i \in 1..Len(todo[1]) : Type(todo[1][i], i)
  /\ todo' = Tail(todo)

PickLine ==
  /\ Waiting
  /\ todo = <<>> /\ ~Exhausted
  /\ \E i \in 1..Len(Se.alphabet) : Type(Se.alphabet[i], i)
  /\ UNCHANGED todo

\* a step of the interpreter
Ready == ~Waiting \/ Exhausted
Step(t) ==
  /\ clk < Se.fuel
  /\ s' = t
  /\ clk' = clk + 1
  /\ UNCHANGED <<sid, todo, typed, path>>

Command_ == s.mode = "prompt" /\ Ready /\ Step(Via(ReadCommand, s))
Page == s.mode = "page" /\ Ready /\ Step(Via(TurnPage, s))
Discard == s.mode = "long" /\ Step(Via(DropLine, s))
Finish == (s.mode = "ran" \/ (s.mode = "run" /\ RunOver(s))) /\ Step(Via(Return, s))

Doing(ops) == s.mode = "run" /\ ~RunOver(s) /\ Op \in ops /\ Tally(Op)
Expression == Doing(ExprOps) /\ Step(Via(Exec, s))
Assignment_ == Doing(AssignOps) /\ Step(Via(Exec, s))
Jump == Doing(JumpOps) /\ Step(Via(Exec, s))
Subroutine == Doing(SubOps) /\ Step(Via(Exec, s))
Loop == Doing(LoopOps) /\ Step(Via(Exec, s))
Function == Doing(FnOps) /\ Step(Via(Exec, s))
Printing == Doing(PrintOps) /\ Step(Via(Exec, s))
Input == Doing(InputOps) /\ Ready /\ Step(Via(Exec, s))
Data == Doing(DataOps) /\ Step(Via(Exec, s))
Randomize ==
  /\ Doing(RandomOps)
  /\ IF Op = "RAND" /\ s.clock.on
     THEN \E k \in DOMAIN Streams : Step(Via(Reseed, <<s, k>>))     \* the numbers depend on the time
     ELSE Step(Via(Exec, s))

Next ==
  \/ TypeLine \/ PickLine \/ Command_ \/ Page \/ Discard \/ Finish
  \/ Expression \/ Assignment_ \/ Jump \/ Subroutine \/ Loop \/ Function
  \/ Printing \/ Input \/ Data \/ Randomize

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What is written down for the comparison with the implementation. *)
Over == s.mode \in {"done", "lost"} \/ clk >= Se.fuel

Report(t) ==
  [sid |-> sid, path |-> path, typed |-> typed, out |-> Str(Flat(t.out)), err |-> Str(t.err),
   exit |-> t.exit, marks |-> t.marks, mode |-> t.mode, files |-> [k \in DOMAIN t.fs |-> Str(t.fs[k])]]

\* trees: every behaviour is explored to its end, and reported there
TreeView == <<sid, path, clk, s.seed>>
Recorded == Over => Emit(Via(Report, s))

\* graphs: what has been written and typed is not part of the state, so that all states
\* reachable with an alphabet can be explored; every way of coming back to the
\* prompt is reported, with a shortest history that leads to it
GraphView == <<sid, todo, [s EXCEPT !.out = <<>>, !.err = <<>>, !.nread = 0, !.reads = 0, !.marks = <<>>]>>
Transition ==
  (clk' = clk + 1 /\ s'.mode \in {"prompt", "done"} /\ s'.tin = <<>>)
    => Emit([Via(Report, s') EXCEPT !.mode = "done"])
=============================================================================
