"""Sessions for C26 (the command line)."""
import itertools, re
import lb, gen, gen2
from gen import Prop, prop, standard
from lb import session

HELP = ["--help", "-h", "-?", "/?", "--help-full", "-hh"]
MODES = {"--list": "list", "-l": "list", "--list-names": "names", "-n": "names", "--parse": "parse", "-p": "parse", "--code": "code", "-c": "code", "--run": "run", "-r": "run"}
FLAGS = ["--keywords-anywhere", "-k", "--quiet", "-q", "--trace-basic", "-t", "--report-memory", "-m", "--randomize", "-z", "--trace-log", "-g", "--trace-for", "-f"]
VERSION = ["--version", "-v"]
WRONG = ["--bogus", "-x", "--", "-", "--Quiet", "--list=", "-Q", "-qq", "--lis", "--list-name", "--listt", "--trace", "-kq", "--parse ", "-L", "--run-", "---run"]
FILES26 = {
    "p.bas": "10 INPUT A$:PRINT \"got \";A$;157440+2\n20 FOR I=1 TO 2:PRINT I;LEN(A$):NEXT\n",
    "k.bas": "10 FORI=1TO3:PRINTI;:NEXT:A$=\"FORK\"\n20 REMARK\n30 PRINT157440+2;A$:IFITHENEND\n",
    "bad.bas": "10 PRINT 157440+2\n20 PRINT )\n30 PRINT 3\n",
    "err.bas": "10 PRINT \"one\"\n20 PRINT LOG(-1)\n30 PRINT 157440+2\n",
    "stop.bas": "10 PRINT \"s\"\n20 STOP\n30 PRINT \"t\"\n",
    "odd.bas": "20 PRINT 2\n10 PRINT 1\n",
    "a b": "1 PRINT \"spaces in the name\"\n",
    "l": "1 PRINT \"a file named l\"\n",
    "none": "",
}
NAMES = list(FILES26) + ["missing.bas", "", "p", "P.BAS", "list", "/nonexistent/p.bas"]
SCRIPT = [["x,y"], ["LOAD \"p.bas\""], ["RUN"], ["there"], ["PRINT 1;A$"], ["10 FORJ=1TO2:PRINTJ:NEXT", "10 PRINT LOG(0)"], ["RUN"]]


def started(check, rep, real, s, typed):
    """The replay of a command line."""
    a, r = s["argv"], dict(real)
    if rep["out"] == "Usage":       # what help says: every option, in both its forms
        if r["late"] or r["exit"] != 1 or r["err"] or r["files"] != rep["files"]:
            return "help does not end as it should"
        if not r["out"].startswith("Usage: ") or "157442" in r["out"]:
            return "it does not begin with help"
        for x, y in zip(list(MODES)[::2] + FLAGS[::2] + VERSION[:1] + ["--help", "--help-full"], list(MODES)[1::2] + FLAGS[1::2] + VERSION[1:] + ["-h", "-hh"]):
            if not re.search(r"(?m)^%s, %s$" % (x, y), r["out"]):
                return "help does not mention %s" % x
        first = [x for x in a if x in HELP][0]
        if bool(re.search(r"(?m)^    \S", r["out"])) != (first in HELP[4:]):
            return "help is not the one asked for"
        return None
    m = gen2.MEM.search(r["out"])
    asked = "-m" in a or "--report-memory" in a
    if bool(m) != (asked and rep["exit"] == 0):
        return "memory report: %s" % ("missing" if asked else "not asked for")
    if m:
        r["out"] = r["out"][:m.start()]
    if "-g" in a or "--trace-log" in a:
        keep = lambda e: [x for x in lb.loose(e) if x[0] in ("runtime", "syntax")]
        if keep(rep["err"]) != keep(r["err"]):
            return "errors differ"
        r["err"] = rep["err"]
    if "-f" in a or "--trace-for" in a:
        r["out"] = gen2.FORS.sub("", r["out"])
    modes = [x for x in a if x in MODES]
    if modes and MODES[modes[-1]] == "code" and rep["exit"] == 0:
        if "157442" in r["out"] or not r["out"].startswith(rep["out"]) or (len(r["out"]) > len(rep["out"])) != any(FILES26.get(x) for x in a):
            return "no listing of the code"
        r["out"] = rep["out"]
    return lb.compare(rep, r, False)


class Start(Prop):
    note = "What --code, --help and the memory report show is only checked to be there; the rest of what a command line does is compared exactly."

    def jobs(self, check, rep):
        return [(rep["session"], rep["typed"], rep["marks"], rep, started)]


def line(fam, argv, **kw):
    return session(fam, what="command", files=FILES26, script=SCRIPT, argv=argv, fuel=400, **kw)


def c26_pairs(rng, n):
    """Every argument alone and every pair, with a file and without."""
    args = list(MODES) + FLAGS + VERSION + ["--help", "-hh", "--bogus", "-"]
    res = []
    for x in args + HELP + WRONG + NAMES:
        for f in [[], ["p.bas"]] + [[f] for f in (NAMES if x not in WRONG and x not in HELP else [])]:
            res += [line("single", [x] + f), line("single", f + [x])]
    for x, y in itertools.product(args, args):
        if n > 1 or rng.random() < .5:
            res.append(line("pairs", rng.sample([x, y, rng.choice(["p.bas", "k.bas"])], 3)))
        if n > 1 or rng.random() < .2:
            res.append(line("pairs", [x, y]))
    return res


def c26_random(rng, n):
    res = []
    for _ in range(n):
        k = rng.randint(2, 7)
        pool = rng.choice([FLAGS, FLAGS + list(MODES), FLAGS + list(MODES), FLAGS + list(MODES) + VERSION, FLAGS * 3 + list(MODES) + WRONG + HELP + VERSION])
        a = [rng.choice(pool) for _ in range(k)]
        for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2])):
            a.insert(rng.randint(0, len(a)), rng.choice(NAMES if rng.random() < .5 else ["p.bas", "k.bas", "bad.bas", "err.bas"]))
        res.append(line("random", a))
    return res


prop("C26", (c26_pairs, 1), (c26_random, 900), cls=Start)
