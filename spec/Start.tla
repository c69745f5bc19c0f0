--------------------------------- MODULE Start ---------------------------------
(***************************************************************************)
(* The command line: what the interpreter is asked to do, and whether it   *)
(* is asked something it can do.                                           *)
(***************************************************************************)
EXTENDS Monitor

NoOptions == [mode |-> "", any |-> FALSE, quiet |-> FALSE, trace |-> FALSE, version |-> FALSE, memory |-> FALSE, random |-> FALSE,
              named |-> FALSE, file |-> <<>>, said |-> "", what |-> <<>>]

Is(a, long, short) == a = Txt(long) \/ a = Txt(short)

\* the options o after argument a
Argument(o, a) ==
  CASE Is(a, "--help", "-h") \/ Is(a, "-?", "/?") \/ Is(a, "--help-full", "-hh") -> [o EXCEPT !.said = "help"]
    [] Is(a, "--list", "-l") -> [o EXCEPT !.mode = "list"]
    [] Is(a, "--list-names", "-n") -> [o EXCEPT !.mode = "names"]
    [] Is(a, "--parse", "-p") -> [o EXCEPT !.mode = "parse"]
    [] Is(a, "--code", "-c") -> [o EXCEPT !.mode = "code"]
    [] Is(a, "--run", "-r") -> [o EXCEPT !.mode = "run"]
    [] Is(a, "--keywords-anywhere", "-k") -> [o EXCEPT !.any = TRUE]
    [] Is(a, "--quiet", "-q") -> [o EXCEPT !.quiet = TRUE]
    [] Is(a, "--trace-basic", "-t") -> [o EXCEPT !.trace = TRUE]
    [] Is(a, "--version", "-v") -> [o EXCEPT !.version = TRUE]
    [] Is(a, "--report-memory", "-m") -> [o EXCEPT !.memory = TRUE]
    [] Is(a, "--randomize", "-z") -> [o EXCEPT !.random = TRUE]
    [] Is(a, "--trace-log", "-g") \/ Is(a, "--trace-for", "-f") -> o   \* what these print is set aside: nothing else changes
    [] OTHER ->
         IF Len(a) > 0 /\ a[1] = 45 THEN [o EXCEPT !.said = "error", !.what = Txt("unrecognised option: ") \o a]
         ELSE IF ~o.named THEN [o EXCEPT !.named = TRUE, !.file = a]
         ELSE [o EXCEPT !.said = "error", !.what = Txt("unexpected argument: ") \o a]

RECURSIVE Arguments(_, _, _)
Arguments(o, as, i) ==
  IF i > Len(as) \/ o.said # "" THEN o ELSE Arguments(Argument(o, Txt(as[i])), as, i + 1)

Fatal(s, t) == Ended(Tell(s, Txt("legacy-basic: fatal: ") \o t \o <<NL>>), 1)

\* what is done with a session's command line: s0 has its files and interrupts
CommandLine(s0, argv) ==
  LET o == Arguments(NoOptions, argv, 1)
      s == [s0 EXCEPT !.any = o.any, !.trace = o.trace, !.seed = IF o.random THEN ANYSEED ELSE @]
  IN IF o.said = "help" THEN Ended(Out(s, Txt("Usage")), 1)      \* the rest is compared by the replay
     ELSE IF o.said = "error" THEN Fatal(s, o.what)
     ELSE IF o.version THEN Ended(Out(s, Banner), 1)
     ELSE IF ~o.named
     THEN IF o.mode # "" THEN Fatal(IF o.quiet THEN s ELSE Out(s, Banner), Txt("invalid option for interactive mode"))
          ELSE StartMonitor(s, o.quiet)
     ELSE StartFile(s, o.quiet, o.file, IF o.mode = "" THEN "run" ELSE o.mode)
=============================================================================
