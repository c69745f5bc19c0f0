"""Sessions for each property, and what is compared besides the behaviours of
the specification themselves."""
import itertools, os, re, string
import lb
from lb import session, lines
from common import *

ASSUMPTIONS = [
    "TLC, its module override host/LBHost.java (IEEE arithmetic, %g, strtod) and the driver lib/lb.py are right",
    "the C library, compiler and operating system are right",
    "the interpreter is deterministic, so one replay of a behaviour decides it",
]


ONLY = os.environ.get("LB_FAMILIES", "").split()      # for trying out single families


class Prop:
    flags = ""
    env = None
    level = "model_checking"
    module = "MC.tla"
    assumptions = []
    note = ""
    rule = "sessions made by the families named under `families`; every behaviour TLC finds for them is replayed once"

    def __init__(self, pid, families):
        self.pid = pid
        self.families = families     # functions of (rng, how many) giving sessions or (sessions, cfg)
        self.extra = {}

    def streams(self, check):
        return {"": []}        # the value of RND is not predicted

    def batches(self, check):
        rounds, limit = (1, 0) if check.tier == "quick" else (10 ** 6, 900)
        for k in range(rounds):
            if k and check.elapsed() > limit:
                break
            tree, rest = [], []
            for f, n in self.families:
                if ONLY and f.__name__ not in ONLY:
                    continue
                r = f(check.rng, n * (1 if check.tier == "quick" else 2))
                if isinstance(r, tuple):
                    if k == 0:
                        rest.append(r)
                else:
                    tree += r
            size = 3000
            for i in range(0, len(tree), size):
                yield tree[i:i + size]
            for r in rest:
                yield r

    def lost(self, check, rep):
        """What is done with a behaviour that leaves what is specified."""
        return []

    def raw(self, check):
        """Further replays: (session, typed, judge)."""
        return []

    def jobs(self, check, rep):
        return [(rep["session"], rep["typed"], rep["marks"], rep, standard)]


def standard(check, rep, real, s, typed):
    return lb.compare(rep, real, check.exact)


# ------------------------------------------------------------------ texts
def prog_file(fam, text, modes=("run",), **kw):
    """Sessions that give the interpreter a program file."""
    if not isinstance(text, str):
        text = "\n".join(text) + "\n"
    return [session(fam, what=m, file="p.bas", files={"p.bas": text}, **kw) for m in modes]


def number(stmts, start=10, step=10):
    return ["%d %s" % (start + step * i, t) for i, t in enumerate(stmts)]


def typed_in(prog, *then):
    return [[p] for p in prog] + [t if isinstance(t, list) else [t] for t in then]


# ------------------------------------------------------------------ C13: editing
TEXTS = ["PRINT 1", "PRINT \"a b\"", "REM  two  blanks", "LET X=5", "X = 7 : PRINT X", "GOTO 20", "end", "print  x ;",
         "DATA a, b ,c", "?\"q\"", "foo bar", "\"", "PRINT \"x", "IF X THEN 10", "REM", ":", "10 20", "-5", "  PRINT 2", "\tPRINT 3"]


def edit_line(rng, numbers):
    n = rng.choice(numbers)
    k = rng.random()
    if k < 0.25:
        return "%d" % n
    sep = rng.choice([" ", " ", " ", " ", "", "  "])
    t = rng.choice(TEXTS)
    if sep == "" and t[0].isdigit():
        sep = " "
    return rng.choice(["", "", "", " ", "  \t"]) + rng.choice(["%d", "%d", "%d", "%d", "%05d"]) % n + sep + t


def list_cmd(rng, numbers):
    def n():
        return str(rng.choice(numbers) + rng.choice([0, 0, 0, 1, -1]))
    b = lambda: rng.choice(["", "", "", " "])
    f = rng.choice(["", n(), n(), "0"])
    t = rng.choice(["", "-", "-" + b() + n(), "-" + b() + n(), "-0"])
    w = rng.choice(["LIST", "LIST", "list", "List"])
    p = rng.choice(["", "", "", "", "P", " p", "x", "-"])
    return w + rng.choice([" ", " ", "  ", ""]) + f + b() + t + b() + p


def c13_edits(rng, n):
    res = []
    for _ in range(n):
        nums = sorted(rng.sample([1, 2, 5, 9, 10, 11, 19, 20, 25, 30, 99, 100, 101, 255, 256, 1000, 9999, 32767, 32768, 65534, 65535], rng.randint(2, 7)))
        sc = []
        for _ in range(rng.randint(4, 22)):
            k = rng.random()
            if k < 0.66:
                sc.append([edit_line(rng, nums)])
            elif k < 0.90:
                sc.append([list_cmd(rng, nums)])
            elif k < 0.92:
                sc.append(["NEW"])
            else:
                sc.append([rng.choice(["RUN", "RUN", "COMPILE", "NEW x", "X=1", "PRINT X", "LIST 10-x", "run"])])
        sc.append(["LIST"])
        sc.append([["RUN"], ["PRINT X"]] if rng.random() < 0.3 else ["LIST -"])
        res.append(session("edits", sc, fuel=400))
    return res


def c13_orders(rng, n):
    """All orders in which a few lines can be entered, and one replaced or deleted."""
    perms = list(itertools.permutations([10, 20, 30, 40, 50]))
    res = []
    for p in rng.sample(perms, min(n, len(perms))):
        sc = [["%d PRINT %d" % (k, k)] for k in p]
        sc.append(["%d" % k for k in (10, 20, 30, 40, 50)] + ["%d PRINT \"new\"" % k for k in (10, 30, 50)] + ["5 END", "55 END", "25 END"])
        sc += [["LIST"], ["RUN"]]
        res.append(session("orders", sc))
    return res


def c13_numbers(rng, n):
    big = ["0", "00", "1", "65535", "65536", "65537", "99999", "100000", "4294967295", "4294967296", "4294967297", "4294967306",
           "8589934602", "18446744073709551616", "18446744073709551626", "99999999999999999999999", "0010", "000"]
    res = []
    for b in big:
        if b.isdigit() and 2000000000 <= int(b) < 4294967296:
            continue
        res.append(session("numbers", [["10 PRINT 1"], [b + " PRINT 2", b, b + "PRINT 2", " " + b + " PRINT 3"], ["LIST", "LIST " + b, "LIST -" + b, "LIST " + b + "-"], ["RUN"]]))
    return res


def c13_pages(rng, n):
    res = []
    for _ in range(n):
        k = rng.choice([1, 21, 22, 23, 24, 25, 45, 46, 47, 48, 49, 70])
        sc = [[["%d REM %d" % (10 * i, i) for i in range(1, k + 1)]]]
        a = rng.choice(["", "", "10-", "20-", "-%d" % (10 * k - 10), "-%d" % (10 * k), "30-%d" % (10 * k - 5), "%d" % (10 * k)])
        sc.append(["LIST %sP" % a, "LIST %s p" % a])
        for _ in range(rng.randint(0, k // 23 + 1)):
            sc.append([rng.choice(["", "x", "LIST", "10 PRINT 5", " "])])
        sc.append(["LIST"])
        res.append(session("pages", sc, fuel=500))
    return res


def c13_long(rng, n):
    res = []
    for k in [100, 120, 122, 123, 124, 125, 126, 127, 128, 129, 130, 200, 252, 253, 254, 255, 256, 257, 300, 380, 381, 382, 600]:
        l = "10 REM " + "x" * (k - 7)
        res.append(session("long", [["10 PRINT 1"], [l, "20 PRINT \"" + "y" * (k - 11) + "\"", "PRINT \"" + "z" * (k - 8) + "\""], ["LIST"], ["RUN"]]))
        res.append(session("long", [["10 PRINT 1"], [l + "\0", "10" + " " * (k - 2) + "\0"]]))
    return res


def c13_graph(rng, n):
    a = ["10 PRINT 1", "10 PRINT 2", "10", "20 PRINT X", "20", "30 X=X+1", "RUN", "LIST", "NEW", "LIST 20", "LIST -20", "LIST 11-30", "X=5"]
    return [session("graph", alphabet=a, depth=60)], "Graph.cfg"


# ------------------------------------------------------------------ C01: static errors
BEFORE = '10 PRINT "before";'


def whole_program(rng, fam, prog, allmodes=False):
    """The same program given to the interpreter in every way."""
    text = "\n".join(prog) + "\n"
    modes = ["run", "parse", "RUN", "COMPILE", "imm"]
    for m in (modes if allmodes else [rng.choice(modes)]):
        if m in ("run", "parse"):
            yield session(fam, what=m, file="p.bas", files={"p.bas": text}, fuel=250, script=lines("1", "2", "3"))
        else:
            then = {"RUN": ["RUN"], "COMPILE": ["COMPILE", "RUN"], "imm": ["PRINT 1"]}[m]
            if all(len(l) < 120 for l in prog):
                yield session(fam, [[p] for p in prog] + [[t] for t in then], fuel=250)
            else:
                yield session(fam, [['LOAD "p.bas"']] + [[t] for t in then], files={"p.bas": text}, fuel=250)


def c01_mutants(rng, n):
    res = []
    for _ in range(n):
        k = rng.random()
        s = mutate(rng, rng.choice(STATEMENTS))
        if rng.random() < 0.3:
            s = rng.choice(STATEMENTS) + ":" + s
        if rng.random() < 0.15:
            s = s + ":" + rng.choice(STATEMENTS)
        if rng.random() < 0.1:
            s = mutate(rng, s)
        prog = [BEFORE, "20 " + s, '30 PRINT "after";', "40 " + rng.choice(STATEMENTS + ["PRINT"] * 20)]
        if k < 0.15:
            prog[1], prog[3] = "20 PRINT 2", "40 " + s
        elif k < 0.25:
            prog[0] = "10 " + s
        if rng.random() < 0.15:
            res.append(session("mutants-immediate", [[BEFORE], [s], ["PRINT 7"], ["RUN"]], fuel=250))
        else:
            res += whole_program(rng, "mutants", prog)
    return res


def one_token_away():
    for s in STATEMENTS:
        ts = tokens(s)
        for i in range(len(ts)):
            yield ts[:i] + ts[i + 1:]
            yield ts[:i + 1] + ts[i:]
            for r in ("1", "A", "B$", '"s"', "(", ")", ",", "=", "THEN", "+"):
                yield ts[:i] + [r] + ts[i + 1:]
        for i in range(len(ts) + 1):
            for r in ("1", "A", "(", ")", ",", ";", "-", "NOT"):
                yield ts[:i] + [r] + ts[i:]


def typed_expressions():
    """Operators between operands of all types, functions with arguments of all types and any number."""
    ops = ["+", "-", "*", "/", "^", "=", "<", ">", "<>", "<=", ">=", "AND", "OR"]
    args = ["1", "A", "\"s\"", "A$", "E(1)", "E$(1)", "(A$)", "LEN(A$)", "CHR$(65)", "-A", "-A$", "NOT A", "NOT A$", "RND", "1+A$", "A$=B$", "FNA(1)", "FNB$(1)"]
    ctx = ["PRINT %s", "A=%s", "A$=%s", "IF %s THEN 30", "E(%s)=1", "FOR I=1 TO %s", "ON %s GOTO 30", "PRINT ABS(%s)", "PRINT LEN(%s)", "PRINT TAB(%s)", "RANDOMIZE %s", "DEF FNC(X)=%s", "DEF FNC$(X)=%s", "PRINT (%s)"]
    k = 0
    for o in ops:
        for x in args:
            for y in args:
                yield ctx[k % len(ctx)] % ("%s %s %s" % (x, o, y))
                yield "PRINT %s %s %s" % (x, o, y)
                k += 1 if k % 17 else 2
    for x in args:
        for c in ctx:
            yield c % x
    fs = ["ASC", "ABS", "ATN", "CHR$", "COS", "EXP", "INT", "LEFT$", "LEN", "LOG", "MID$", "RIGHT$", "RND", "SGN", "SIN", "SQR", "STR$", "TAN", "VAL", "SPC", "TAB", "E", "E$", "FNA", "FNB$"]
    few = ["1", "A$", "A", "\"s\""]
    for f in fs:
        for m in range(0, 4):
            for c in itertools.product(few, repeat=m):
                yield "PRINT %s(%s)" % (f, ",".join(c))
        for t in ("%s", "%s(", "%s)", "%s()", "%s(1", "%s 1", "%s(,)", "%s(1,)", "%s(,1)", "%s((1))", "%s(1;2)", "%s=1", "%s(1)=1", "%s=\"s\"", "%s(1)=\"s\""):
            yield "PRINT " + t % f
            yield t % f


def c01_all_mutants(rng, n):
    """Every statement with one of its tokens left out, doubled or replaced by a few others, and
    expressions with operands of every type.  Many of them in one session, each compiled on its own."""
    cases = [" ".join(c) for c in one_token_away()] + list(typed_expressions())
    if n < len(cases):
        cases = rng.sample(cases, n)
    else:
        rng.shuffle(cases)
    res = []
    for c in cases[:400]:
        res += prog_file("all-mutants", [BEFORE, "20 " + c, "30 END"], modes=("parse",))
    for i in range(0, len(cases), 30):
        sc = [[BEFORE]] + [[x] for c in cases[i:i + 30] for x in ("20 " + c, "COMPILE")] + [["20 PRINT 2"], ["RUN"]]
        res.append(session("packed", sc, fuel=300))
    return res


USES = ["{0}=1", "{0}(1)=1", "{0}=\"s\"", "{0}(1)=\"s\"", "DEF {0}(X)=1", "DEF {0}(X)=\"s\"", "PRINT {0}", "PRINT {0}(1)", "PRINT {0}(1,2)", "DIM {0}(3)", "DIM {0}",
        "READ {0}", "READ {0}(1)", "INPUT {0}", "INPUT {0}(1)", "LINE INPUT {0}", "FOR {0}=1 TO 2", "FOR {0}(1)=1 TO 2", "NEXT {0}", "NEXT {0}(1)",
        "DEF G({0})=1", "DEF G({0}(1))=1", "LET {0}={0}", "PRINT {0}(\"s\")", "PRINT {0}({0})", "PRINT {0}()", "PRINT {0}+1", "PRINT {0}+\"s\"", "IF {0} THEN END"]


def c01_names(rng, n):
    pairs = [(a, b, w) for a in USES for b in USES for w in ("A", "A$", "LEN", "STR$", "RND", "SPC", "TAB", "HEX$", "fn", "Mid$")]
    res = []
    for a, b, w in rng.sample(pairs, min(n, len(pairs))):
        v = w if rng.random() < .6 else w.swapcase()
        prog = [BEFORE, "20 DATA 1,2", "30 " + a.format(w), "40 " + b.format(v)]
        if rng.random() < 0.3:
            res.append(session("names-immediate", [[BEFORE], ["30 " + a.format(w)], ["RUN"], ["5"], [b.format(v)], ["PRINT 1"], ["5", "x"]], fuel=250))
        else:
            res += whole_program(rng, "names", prog)
    return res


def c01_positions(rng, n):
    """The first of several errors is the one reported, whatever comes before."""
    bad = ["PRINT (", "GOTO", "A=", "FOR", "X=\"s\"", "foo", "PRINT \"x", "IF 1", "ELSE", "NEXT 5", "GOTO 0", "GOTO 65536", "GOTO 1.5", "DIM A", "PRINT 1 ELSE",
           "ON 1 PRINT", "RESTORE 0", "DATA \"x", "DATA \"x\" y", "IF 1 THEN 0", "IF 1 THEN 10 ELSE A", "IF 1 THEN", "LET", "LINE A$", "LINE INPUT A", "INPUT 5", "INPUT \"p\"", "A$=1",
           "A=A$", "IF A$ THEN 10", "PRINT TAB(A$)", "PRINT LEFT$(1,1)", "PRINT LEFT$(A$)", "PRINT LEN(A$", "PRINT ABS 1", "PRINT ABS(1,2)", "DEF A=1", "DEF F(1)=1", "DEF F()=1",
           "DEF F(X$)=1", "DEF F(X,Y)=1", "DEF F(X)=\"s\"", "DEF F$(X)=1", "RANDOMIZE \"s\"", "FOR A$=1 TO 2", "FOR A=1 TO", "FOR A=1 STEP 2", "FOR A=\"s\" TO 2", "NEXT A$", "READ 5",
           "RETURN 5", "END 5", "STOP 10", "CLS 1", "CLEAR 1", "GOSUB A", "NOT 1", "THEN 10", "TO 5", "STEP 1", "AND", "1", "\"s\"", "PRINT 1)", "PRINT 1 2 )", "PRINT A$*2", "PRINT -A$",
           "PRINT NOT A$", "PRINT A$ AND 1", "PRINT 1 OR A$", "PRINT A$^2", "PRINT 1+A$", "PRINT A$+1", "PRINT A$-B$", "PRINT 1=A$", "PRINT A$<1", "DIM A(A$)", "A(A$)=1", "A(1=1", "A()=1",
           "IF 1 THEN PRINT 1 ELSE PRINT 2 ELSE PRINT 3", "PRINT 1e", "PRINT 1.2.3", "PRINT @", "PRINT 1\x7f", "PRINT HEX$(1)", "PRINT FIX(1)", "MID$(A$,1,1)=\"x\"", "LEN(A$)=1", "LET STR$=1"]
    res = []
    for s in bad:
        prog = ["10 REM first", BEFORE.replace("10", "20"), "30 " + s, "40 " + rng.choice(bad), "50 END"]
        res += list(whole_program(rng, "positions", prog, True))
        res.append(session("positions", [["10 PRINT 1"], [s], ["RUN"], [s], ["PRINT 2"], ["  " + s + " "]]))
    return res


def c01_lengths(rng, n):
    res = []
    for k in (125, 126, 127, 128, 129, 130, 200):
        for t in ("A" * k + "=1", "PRINT " + "A" * k, "PRINT \"%s\"" % ("x" * k), "PRINT 1%s" % ("0" * (k - 1)), "PRINT .%s" % ("1" * (k - 1)), "A%s$=\"s\"" % ("B" * (k - 2)), "DATA %s,2" % ("d" * k),
                  "DATA \"%s\",2" % ("e" * k), "REM %s" % ("r" * k), "X=1E-%s" % ("0" * (k - 3)), "GOTO %s1" % ("0" * (k - 1))):
            for any in (False, True):
                res += prog_file("lengths", [BEFORE, "20 " + t, "30 PRINT 2"], modes=("parse", "run"), any=any, fuel=250)
    return res


# ------------------------------------------------------------------ C02: jumps and IF
def c02_if(rng, d, letters, targets):
    """An IF statement.  A line number after THEN goes with one after ELSE, statements with statements."""
    def stmts(d):
        if d > 0 and rng.random() < 0.4:
            return c02_if(rng, d - 1, letters, targets)
        t = [rng.choice(['PRINT "%s";' % next(letters)] * 5 + ["GOTO " + rng.choice(targets), "END", "ON %s GOTO %s" % (rng.choice("ABC"), ",".join(rng.sample(targets, 2))), "A=1-A", "REM x" if rng.random() < .1 else "B=A", "GOSUB 900"])
             for _ in range(rng.choice([1, 1, 2, 3]))]
        if d > 0 and rng.random() < 0.3:
            t.append(c02_if(rng, d - 1, letters, targets))
        return ":".join(t)
    c = rng.choice(["A", "B", "C", "A", "B", "C", "NOT A", "A AND B", "A=B", "A>B", "A*2-1", "A OR C", "A$=\" 1 \"", "C/2", "-B"])
    if rng.random() < .25:
        t = "IF %s THEN %s" % (c, rng.choice(targets))
        return t + " ELSE " + rng.choice(targets) if rng.random() < .6 else t
    a = stmts(d)
    t = "IF %s THEN %s" % (c, a)
    if rng.random() < 0.75 and "ELSE" not in a and not re.search(r"THEN \d+$", a) or rng.random() < .01:
        t += " ELSE " + stmts(d)
    return t


def c02_ifs(rng, n):
    res = []
    for _ in range(n):
        L = itertools.cycle(string_letters)
        m = rng.randint(2, 5)
        nums = [100 + 20 * i for i in range(m)]
        tg = [str(x) for x in nums + [nums[-1] + 20]] + (["77"] if rng.random() < 0.1 else [])
        prog = ["10 INPUT A,B,C:A$=STR$(A)", "20 K=K+1:IF K>12 THEN END"]
        for x in nums:
            t = c02_if(rng, 2, L, tg + ["20"])
            if rng.random() < 0.4:
                t += ":" + rng.choice(['PRINT "%s";' % next(L), "B=1-B", "GOTO 20"])
            prog.append("%d %s" % (x, t))
        prog += ["%d PRINT \"end\"" % (nums[-1] + 20), "890 END", '900 PRINT "sub";:RETURN']
        prog = [p for p in prog if len(p) < 240]
        vals = ["%d,%d,%d" % v for v in itertools.product((0, 1), repeat=3)]
        if rng.random() < 0.5:
            res += prog_file("ifs", prog, script=[rng.sample(vals, 4)], trace=rng.random() < .7, fuel=600)
        elif all(len(p) < 125 for p in prog):
            res.append(session("ifs-typed", [[p] for p in prog] + [["RUN", "GOTO 20", "GOTO %s" % tg[0]], rng.sample(vals, 3)], trace=rng.random() < .5, fuel=600))
    return res


string_letters = "abcdefghijklmnopqrstuvwxyz"


def c02_shapes(rng, n):
    """Every shape of IF ... THEN ... ELSE ... on one line up to two inner IFs, with every truth assignment."""
    def make(d):
        """(what follows THEN or ELSE, whether an ELSE may follow it)"""
        r = [("S", True), ("SS", True)]
        if d:
            r += [("In", False), ("InEn", False), ("SIn", False)]
            for a, ok in make(d - 1):
                r += [("I" + a, ok), ("SI" + a, ok)]
                if ok:
                    for b, _ in make(d - 1):
                        r.append(("I" + a + "E" + b, False))
                        if a == "S":
                            r.append(("SI" + a + "E" + b, False))
        return r
    shapes = {x for x, _ in make(3 if n >= 1000 else 2) if "I" in x}
    shapes = sorted(shapes)
    if n < len(shapes):
        shapes = rng.sample(shapes, n)
    res = []
    for sh in shapes:
        L, V = itertools.count(), itertools.count()
        t = ""
        for ch in sh:
            if ch in "SI" and t and t[-1] == ";":
                t += ":"
            if ch == "S":
                t += 'PRINT "%s";' % string_letters[next(L) % 26]
            elif ch == "n":
                t += "%d" % (30 + 10 * (next(L) % 3))
            elif ch == "I":
                t += "IF %s THEN " % "ABCD"[next(V) % 4]
            else:
                t += " ELSE "
        k = min(4, sh.count("I"))
        prog = ["10 INPUT " + ",".join("ABCD"[:k]), "20 " + t + ':PRINT "!";', '30 PRINT "30";', '40 PRINT "40";', '50 PRINT "50";']
        res += prog_file("shapes", prog, script=[[",".join(v) for v in itertools.product("01", repeat=k)]])
    return res


def c02_jumps(rng, n):
    """Lines that jump about, each visited a limited number of times."""
    res = []
    for _ in range(n):
        m = rng.randint(3, 9)
        nums = sorted(rng.sample([1, 2, 5, 9, 10, 11, 20, 21, 30, 99, 100, 397, 398, 407, 794, 804, 1000, 5000, 9999, 32768, 65535], m))
        t = lambda: str(rng.choice(nums) if rng.random() < 0.96 else rng.choice([3, 12, 64000]))
        prog = []
        for x in nums:
            st = ["K=K+1"] if rng.random() < .5 else []
            for _ in range(rng.randint(1, 3)):
                st.append(rng.choice(['PRINT "%s";' % rng.choice(string_letters), "PRINT K;", "GOTO " + t(), "IF K>%d THEN %s" % (rng.randint(1, 9), t()), "IF K<%d THEN %s ELSE %s" % (rng.randint(1, 9), t(), t()),
                                      "ON K GOTO %s" % ",".join(t() for _ in range(rng.randint(1, 5))), "ON K-%d GOTO %s,%s" % (rng.randint(0, 3), t(), t()), "ON K/2 GOTO %s,%s" % (t(), t()),
                                      "IF K=%d THEN PRINT K ELSE GOTO %s" % (rng.randint(1, 6), t()), "IF K>20 THEN END", "REM GOTO 1", "DATA 5", "END", ""]))
            prog.append("%d %s" % (x, ":".join(st)))
        if rng.random() < 0.6:
            res += prog_file("jumps", prog, trace=rng.random() < .7, fuel=300)
        else:
            res.append(session("jumps-typed", [[p] for p in prog] + [["RUN"], ["GOTO " + t(), "IF 1 THEN " + t(), "IF 0 THEN 5 ELSE " + t(), "ON 2 GOTO 1," + t(), "PRINT K:GOTO " + t() + ":PRINT 9"], ["PRINT K"]], trace=rng.random() < .5, fuel=300))
    return res


def c02_on(rng, n):
    res = []
    for x in ["0", "1", "2", "3", "4", "5", "-1", "0.5", "1.5", "2.999", "3.0001", "1E10", "-1E10", "4294967297", "4294967296", "-4294967295", "65537", "256", "257", "\"x\"", "1E300", "1/0", "-1/0"]:
        for k in (1, 2, 3, 5):
            tg = ["100", "200", "300", "400", "500"][:k]
            prog = ["10 ON %s GOTO %s:PRINT \"none\":END" % (x, ",".join(tg)), "20 PRINT \"next line\":END"] + ['%s PRINT "at %s":END' % (t, t) for t in tg]
            res += prog_file("on", prog, trace=(k == 2))
            res.append(session("on-typed", [[p] for p in prog[2:]] + [["ON %s GOTO %s:PRINT \"none\"" % (x, ",".join(tg))]]))
    return res


# ------------------------------------------------------------------ C03: loops
def c03_ranges(rng, n):
    vals = ["0", "1", "2", "3", "-1", "5", "0.5", "2.5", "-2"]
    steps = ["", "1", "-1", "2", "-2", "0.5", "-0.5", "3", "0.1", "0", "-0", "1E10", "-7"]
    res = []
    for _ in range(n):
        a, b, s = rng.choice(vals), rng.choice(vals), rng.choice(steps)
        st = " STEP " + s if s else ""
        body = rng.choice(["PRINT I;", "PRINT I;", "PRINT I;:L=L+1:S=5", "PRINT I;:I=I+1", "IF I=2 THEN I=I+0.5 ELSE PRINT I;", "PRINT I;:L=0"])
        nx = rng.choice(["NEXT", "NEXT I", "NEXT i"])
        form = rng.random()
        if form < .3:
            prog = ["10 FOR I=%s TO %s%s:%s:K=K+1:IF K>9 THEN END ELSE %s" % (a, b, st, body, nx), "20 PRINT \"out\";I"]
        elif form < .6:
            prog = ["5 L=%s:S=%s" % (b, s or "1"), "10 FOR I=%s TO L STEP S" % a, "20 " + body, "30 K=K+1:IF K>9 THEN PRINT \"enough\":END", "40 " + nx, "50 PRINT \"out\";I:NEXT"]
        else:
            prog = ["10 FOR I=%s TO %s%s" % (a, b, st), "20 " + body, "30 K=K+1:IF K>9 THEN 50", "40 " + nx, "50 PRINT \"out\";I", "60 NEXT I:PRINT \"again\";I:IF K<15 THEN K=K+1:GOTO 60"]
        if rng.random() < .7:
            res += prog_file("ranges", prog, fuel=400)
        else:
            res.append(session("ranges-immediate", [["FOR I=%s TO %s%s:PRINT I;:K=K+1:IF K<8 THEN NEXT" % (a, b, st)], ["PRINT I;K"], ["NEXT"], ["FOR J=1 TO 2:NEXT J:PRINT J"]], fuel=400))
    return res


def c03_scramble(rng, n):
    """FOR and NEXT in any arrangement."""
    res = []
    for _ in range(n):
        V = rng.choice([["I", "J"], ["I", "J", "K1"], ["A", "B", "C", "D"], ["I", "i", "J"]])
        m = rng.randint(3, 10)
        prog = ["1 REM"]
        nums = [10 * (i + 1) for i in range(m)]
        for x in nums:
            st = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                v = rng.choice(V)
                st.append(rng.choice(["FOR %s=%s TO %s" % (v, rng.randint(0, 3), rng.randint(0, 4)), "FOR %s=%s TO %s STEP %s" % (v, rng.randint(0, 3), rng.randint(0, 4), rng.choice(["2", "-1", ".5", "1"])),
                                      "NEXT", "NEXT", "NEXT " + v, "NEXT " + v, "NEXT %s,%s" % (v, rng.choice(V)), "NEXT %s,%s,%s" % (v, rng.choice(V), rng.choice(V)), 'PRINT "%s";%s;' % (v.lower(), v),
                                      'PRINT "%s";%s;' % (v.lower(), v), "IF %s>2 THEN %d" % (v, rng.choice(nums)), "GOTO %d" % rng.choice(nums), "IF %s=%d THEN NEXT ELSE PRINT \"*\";" % (v, rng.randint(0, 3)),
                                      "IF %s<>%d THEN NEXT %s" % (v, rng.randint(0, 3), v), "%s=%s+1" % (v, v), "GOSUB 500"]))
            prog.append("%d Z=Z+1:IF Z>18 THEN END ELSE %s" % (x, ":".join(st)))
        prog += ["490 END", "500 FOR S=1 TO 2:PRINT \"s\";S;:" + rng.choice(["NEXT", "NEXT S", "RETURN", "NEXT I", "PRINT"]), "510 RETURN"]
        if rng.random() < .7:
            res += prog_file("scramble", prog, trace=rng.random() < .5, fuel=500)
        else:
            res.append(session("scramble-typed", [[p] for p in prog if len(p) < 125] + [["RUN"], ["NEXT", "NEXT " + V[0], "GOTO 20", "FOR I=1 TO 2:NEXT", "PRINT I:NEXT " + V[-1]], ["NEXT", "RUN"]], fuel=500))
    return res


def c03_nest(rng, n):
    """Nested loops as they are usually written, and left or continued in unusual ways."""
    res = []
    for _ in range(n):
        ln = itertools.count(10, 10)
        prog = []

        def put(s):
            k = next(ln)
            prog.append("%d %s" % (k, s))
            return k

        def loops(vs, d):
            if not vs or d == 0:
                put('PRINT "%s";%s' % (rng.choice(string_letters), ";".join("IJKL") + ";"))
                return
            v = vs[0]
            a, b = rng.randint(0, 3), rng.randint(0, 4)
            st = rng.choice(["", "", " STEP 1", " STEP -1", " STEP .5", " STEP 2", " STEP %s" % (rng.choice("IJKL") if rng.random() < .2 else "1.5")])
            one = rng.random() < .25
            head = "FOR %s=%s TO %s%s" % (v, rng.choice([str(a), str(a), "N-%d" % a]), rng.choice([str(b), str(b), "N"]), st)
            if one:
                put(head + ':PRINT %s;:NEXT%s' % (v, rng.choice(["", " " + v])))
                return
            put(head)
            k = rng.random()
            if k < .15:
                put("IF %s=%d THEN %s=%s" % (v, rng.randint(0, 3), v, rng.randint(0, 5)))
            elif k < .3:
                put("N=N+1:IF N>6 THEN N=2")
            elif k < .4:
                put("IF %s>1 THEN %d" % (v, 9000))
            for _ in range(rng.choice([1, 1, 1, 2])):
                loops(vs[1:] if rng.random() < .9 else vs, d - 1)
            if rng.random() < .1 and len(vs) > 1:
                put("IF %s=%d THEN NEXT %s" % (v, rng.randint(0, 3), v))
            if rng.random() < .12:
                put("GOSUB 8000")
            put("Z=Z+1:IF Z>14 THEN 9000")
            put(rng.choice(["NEXT " + v, "NEXT", "NEXT " + v.lower(), "NEXT:PRINT \"/\";"]))
        put("N=3")
        vs = list("IJKL")
        rng.shuffle(vs)
        loops(vs, rng.randint(1, 3))
        loops(rng.sample(vs, 3), 1)
        put("END")
        prog += ["8000 FOR M=1 TO 2:PRINT \"m\";:IF M=%d THEN RETURN" % rng.randint(1, 4), "8010 NEXT:RETURN", "9000 PRINT \"left\";I;J;K;L:Z=Z+1:IF Z<30 THEN NEXT:PRINT \"fin\""]
        if rng.random() < .85:
            res += prog_file("nest", prog, trace=rng.random() < .3, fuel=1500)
        else:
            res.append(session("nest-typed", [[q] for q in prog] + [["RUN"], ["NEXT", "PRINT I;J;K;L", "FOR I=1 TO 2:PRINT I;:NEXT:PRINT J"], ["NEXT", "CONT"]], fuel=2000))
    return res


def c03_depth(rng, n):
    vs = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J"]
    res = []
    for d in range(6, 11):
        fors = ["%d FOR %s=1 TO %d" % (10 + i, vs[i], 2 if i in (0, d - 1) else 1) for i in range(d)]
        for nx in (["%d NEXT %s" % (60 + i, vs[d - 1 - i]) for i in range(d)], ["%d NEXT" % (60 + i) for i in range(d)], ["60 NEXT " + ",".join(reversed(vs[:d]))],
                   ["60 NEXT A", "70 NEXT"], ["60 NEXT %s" % vs[d // 2], "65 NEXT", "66 FOR Z=1 TO 1:NEXT Z:PRINT Z", "67 FOR Y=1 TO 2:FOR Z=1 TO 1:NEXT Z:NEXT Y:PRINT Y;Z"]):
            prog = fors + ["50 PRINT \"in\";"] + nx + ["90 PRINT \"done\""]
            res += prog_file("depth", prog, fuel=900)
        # the same variable again does not need room
        prog = fors + ["50 K=K+1:IF K<6 THEN %d" % rng.choice(range(10, 10 + d)), "60 PRINT \"ok\""]
        res += prog_file("depth", prog, fuel=900)
        res.append(session("depth-typed", [[p] for p in fors] + [["50 PRINT \"in\""], ["RUN"], ["NEXT"], ["FOR Q=1 TO 2:PRINT Q:NEXT"], ["NEXT B"], ["NEXT A"], ["FOR Q=1 TO 2:PRINT Q:NEXT", "NEXT Q"]], fuel=900))
    # a loop left by a jump and entered again many times
    for k in (3, 7, 8, 9, 20):
        res += prog_file("reentry", ["10 K=K+1:IF K>%d THEN 60" % k, "20 FOR I=1 TO 10", "30 IF I=3 THEN 10", "40 PRINT I;:NEXT", "50 END", "60 PRINT \"x\":NEXT:PRINT I"], fuel=1500)
        res += prog_file("reentry", ["10 K=K+1:IF K>%d THEN 90" % k, "20 FOR I=1 TO 2", "30 FOR J=1 TO 3", "40 IF J=2 THEN 60", "50 NEXT J", "60 NEXT I", "70 GOTO 10", "90 PRINT I;J:NEXT"], fuel=3000)
    return res


# ------------------------------------------------------------------ C04: subroutines
def c04_scramble(rng, n):
    res = []
    for _ in range(n):
        m = rng.randint(3, 8)
        nums = [10 * (i + 1) for i in range(m)]
        t = lambda: str(rng.choice(nums) if rng.random() < .96 else 7)
        prog = []
        for x in nums:
            st = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                st.append(rng.choice(["GOSUB " + t(), "GOSUB " + t(), "RETURN", "RETURN", "ON K GOSUB %s" % ",".join(t() for _ in range(rng.randint(1, 4))), "ON K-2 GOSUB %s,%s" % (t(), t()), 'PRINT "%s";' % rng.choice(string_letters),
                                      'PRINT "%s";' % rng.choice(string_letters), "IF K<%d THEN GOSUB %s" % (rng.randint(1, 9), t()), "IF K>%d THEN RETURN ELSE GOSUB %s" % (rng.randint(1, 5), t()), "GOTO " + t(), "FOR I=1 TO 2", "NEXT", "NEXT I",
                                      "IF K=%d THEN PRINT \"y\":RETURN ELSE PRINT \"n\";" % rng.randint(1, 6)]))
            prog.append("%d K=K+1:IF K>16 THEN END ELSE %s" % (x, ":".join(st)))
        if rng.random() < .65:
            res += prog_file("scramble", prog, trace=rng.random() < .5, fuel=400)
        else:
            res.append(session("scramble-typed", [[p] for p in prog if len(p) < 125] + [["RUN", "GOSUB " + t() + ":PRINT \"back\"", "ON 2 GOSUB 10,%s,20:PRINT \"back\"" % t()],
                                                                                      ["RETURN", "GOSUB %s:PRINT K:GOSUB %s:PRINT \"b2\"" % (t(), t()), "PRINT K:K=0"], ["RETURN"]], fuel=500))
    return res


def c04_tree(rng, n):
    """Well formed nests of calls, printed on entry and on return."""
    res = []
    for _ in range(n):
        m = rng.randint(2, 7)
        prog = ["10 GOSUB 100:PRINT \"r1\";:ON 2 GOSUB 7,%d,9:PRINT \"r2\"" % (100 * rng.randint(1, m)), "20 IF 1 THEN GOSUB %d:PRINT \"r3\" ELSE GOSUB 100" % (100 * m),
                "30 FOR I=1 TO 2:GOSUB %d:PRINT \"i\";I;:NEXT:PRINT" % (100 * rng.randint(1, m)), "40 GOSUB 100:GOSUB %d:GOSUB 100:END" % (100 * m)]
        for i in range(1, m + 1):
            b = ['PRINT "<%d";' % i]
            for _ in range(rng.randint(0, 2)):
                if i < m:
                    j = 100 * rng.randint(i + 1, m)
                    b.append(rng.choice(["GOSUB %d" % j, "ON 1 GOSUB %d" % j, "IF I<2 THEN GOSUB %d" % j if rng.random() < .5 else "ON 5 GOSUB %d,7" % j, "FOR J=1 TO 2:GOSUB %d:NEXT J" % j]))
                b.append('PRINT "%d";' % (i * 10 + len(b)))
            b.append('PRINT "%d>";:RETURN' % i)
            prog.append("%d %s" % (100 * i, ":".join(b)))
        res += prog_file("tree", prog, trace=rng.random() < .4, fuel=2500)
    return res


def c04_depth(rng, n):
    res = []
    for d in range(6, 12):
        res += prog_file("depth", ["10 K=0:GOSUB 100:PRINT \"home\";K:END", "100 K=K+1:PRINT K;:IF K<%d THEN GOSUB 100:PRINT \"b\";K;" % d, "110 PRINT \"r\";:RETURN"], fuel=900)
        res += prog_file("depth", ["10 K=0:ON 1 GOSUB 100,200:PRINT \"home\";K:END", "100 K=K+1:PRINT K;:IF K<%d THEN ON 2 GOSUB 10,100,10:PRINT \"b\";K;" % d, "110 PRINT \"r\";:RETURN"], fuel=900)
        sc = [["100 K=K+1:PRINT K;:IF K<%d THEN GOSUB 100:PRINT \"b\";K;" % d], ["110 PRINT \"r\";:RETURN"], ["120 STOP"], ["GOSUB 100:PRINT \"home\""]]
        res.append(session("depth-typed", sc + [["RETURN"], ["K=%d:GOSUB 100:PRINT K" % (d - 1), "PRINT K"], ["RETURN:PRINT 1", "K=0:GOSUB 100:PRINT 5"], ["RETURN"]], fuel=900))
        # a call that fails for want of a line or of room takes no place
        res.append(session("depth-failed", [["10 K=K+1:IF K<%d THEN GOSUB 10" % d], ["20 PRINT K;"], ["30 RETURN"], ["RUN"], ["GOSUB 7"], ["ON 1 GOSUB 8"], ["RETURN", "GOSUB 20:PRINT \"x\""], ["RETURN"], ["K=0:GOSUB 10:PRINT \"y\""]], fuel=900))
    for d in range(1, 9):
        res.append(session("stopped", [["10 GOSUB 20:PRINT \"home\":END"], ["20 K=K+1:IF K<%d THEN GOSUB 20:PRINT K;:RETURN ELSE STOP:RETURN" % d], ["30 PRINT \"thirty\""], ["RUN"],
                                       ["CONT", "RETURN", "PRINT K", "GOSUB 30", "PRINT X(99)"], ["CONT", "RETURN", "GOTO 30"], ["RETURN"]], fuel=900))
    return res


# ------------------------------------------------------------------ C05: variables
NAMES = ["A", "B", "AB", "BA", "A1", "A2", "A11", "A10", "X", "XY", "XYZ", "FORX", "TOTAL", "ONE", "ORDER", "IFFY", "PRINTER", "LENGTH", "NOTE", "SCORE", "ANDY", "ENDED", "TABLE", "SPCX", "RNDX", "DATAX", "STEPS",
         "LongVariableName", "LongVariableNames", "LongVariableNamf", "z", "Z9", "FN", "FNA", "REMARK", "LETTER", "a1b2c3"]


def vary(rng, w):
    return "".join(c.upper() if rng.random() < .5 else c.lower() for c in w)


def c05_names(rng, n):
    res = []
    for _ in range(n):
        names = rng.sample(NAMES, rng.randint(3, 7))
        kinds = []
        for w in names:
            for k in rng.sample(["{}", "{}$", "{}(1)", "{}$(1)"], rng.randint(1, 4)):
                kinds.append(k.format(w))
        prog, c = [], 0
        ln = 10
        for _ in range(rng.randint(6, 16)):
            v = rng.choice(kinds)
            c += 1
            val = '"s%d"' % c if "$" in v else str(c)
            same = [w for w in kinds if ("$" in w) == ("$" in v)]
            vv = vary(rng, v)
            st = rng.choice(["%s=%s" % (vv, val)] * 5 + ["LET %s=%s" % (vv, rng.choice(same)), "%s=%s+%s" % (vv, rng.choice(same), rng.choice(same)), "READ " + vv, "%s=%s" % (vv, vary(rng, v)),
                            "INPUT " + vv, "PRINT %s;" % rng.choice(kinds)] + (["FOR %s=1 TO 2:NEXT" % vv] if v.isalnum() else []) + (["CLEAR"] if rng.random() < .1 else []))
            prog.append("%d %s" % (ln, st))
            ln += 10
        for k in kinds:
            prog.append("%d PRINT %s;" % (ln, vary(rng, k)))
            ln += 10
        prog.append("%d DATA 901,902,903,904,905,906,907,908,909,910,911,912,913,914,915,916" % ln)
        ins = lines(*["80%d" % i for i in range(16)])
        if rng.random() < .6:
            res += prog_file("names", prog, script=ins, fuel=600)
        else:
            show = "PRINT " + ";".join(kinds)
            show = show if len(show) < 120 else "PRINT " + ";".join(kinds[:4])
            sc = [[p] for p in prog if "INPUT" not in p] + [["RUN"], [show], [rng.choice(["CLEAR", "RUN", "NEW", "%s=%s" % (kinds[0], '"q"' if "$" in kinds[0] else "77"), prog[0], str(ln), str(ln - 10)])], [show], ["RUN"]]
            res.append(session("names-typed", sc, fuel=1200))
    return res


def c05_copies(rng, n):
    """String values are independent of where they came from."""
    res = []
    for _ in range(n):
        S = ["A$", "B$", "C$", "D$(1)", "D$(2)", "E$(1,1)"]
        prog = ["10 DEF F$(X)=A$+STR$(X)", "20 A$=\"one\":B$=\"two\""]
        ln = 30
        for _ in range(rng.randint(4, 12)):
            a, b = rng.choice(S), rng.choice(S)
            prog.append("%d %s" % (ln, rng.choice(["%s=%s" % (a, b), "%s=%s" % (a, b), "%s=%s+%s" % (a, a, b), "%s=LEFT$(%s,2)" % (a, b), "%s=MID$(\"z\"+%s,1,3)" % (a, b), "%s=F$(%d)" % (a, rng.randint(1, 9)),
                                                   "READ %s" % a, "%s=\"lit\"" % a, "%s=%s" % (a, a), "%s=RIGHT$(%s,1)+%s" % (a, a, a), "INPUT %s" % a, "LINE INPUT %s" % a, "%s=CHR$(65)+%s" % (a, b),
                                                   "IF %s=%s THEN %s=\"eq\"" % (a, b, a), "%s=\"\"" % a, "RESTORE:READ %s,%s" % (a, b)])))
            ln += 10
        prog += ["%d PRINT \"[\";%s;\"]\";" % (ln + i, v) for i, v in enumerate(S)] + ["%d DATA d1,d2,\"d 3\",d4,d5,d6,d7,d8,d9,d10,d11,d12,d13,d14,d15,d16" % (ln + 9)]
        res += prog_file("copies", prog, script=lines(*["in%d" % i for i in range(14)]), fuel=700)
    return res


def c05_lifetimes(rng, n):
    """Definedness across RUN, CLEAR, edits, errors, STOP."""
    res = []
    for _ in range(n):
        sc = [["10 PRINT A;B$;C(1);D$(2);:A=A+1:B$=B$+\"x\":C(1)=C(1)+10:D$(2)=D$(2)+\"y\""], ["20 PRINT FNA(2)"], ["30 DEF FNA(Z)=Z+A"], ["40 IF A<2 THEN 10"]]
        for _ in range(rng.randint(4, 10)):
            sc.append([rng.choice(["RUN", "GOTO 10", "PRINT A;B$;C(1);D$(2)", "A=5:B$=\"imm\"", "CLEAR", "C(1)=7", "DIM C(3)", "DEF FNA(Q)=100*Q", "PRINT FNA(3)", "50 PRINT \"e\"", "50", "NEW", "COMPILE", "PRINT 1/0",
                                   "PRINT C(99)", "CLEAR:PRINT A;B$;C(1)", "FOR A=1 TO 3:NEXT", "PRINT \"", "10 PRINT A;B$;C(1);D$(2)", "RENUM", "LIST", "D$(2)=B$", "READ A", "END", "A$=\"z\":PRINT A;A$"])])
        res.append(session("lifetimes", sc, fuel=700))
    return res


def c05_clear(rng, n):
    """CLEAR in the middle of loops, functions and subroutines."""
    res = []
    for _ in range(n):
        prog = ["10 A=1:A$=\"s\":B(2)=5:DEF FNA(X)=X+A", "20 FOR I=1 TO 3", "30 GOSUB 100", "40 PRINT I;A;A$;B(2);", "50 NEXT:K=K+1", "60 PRINT \"done\";I;A", "70 PRINT FNA(1)", "80 END", "100 IF I=%d THEN CLEAR" % rng.randint(0, 3),
                "110 " + rng.choice(["A=A+1", "A$=A$+\"t\"", "DIM B(5)", "B(1)=I", "PRINT FNA(I);", "CLEAR", "I=I+1"]), "120 RETURN"]
        res += prog_file("clear", prog, fuel=700)
    return res


# ------------------------------------------------------------------ C06: arrays
def c06_random(rng, n):
    res = []
    for _ in range(n):
        arrs = {}
        prog = []
        ln = 10
        for w in rng.sample(["A", "B", "C$", "D$", "AA"], rng.randint(1, 3)):
            nd = rng.choice([1, 1, 2])
            dims = [rng.choice([0, 1, 2, 3, 9, 10, 11, 12]) for _ in range(nd)]
            if rng.random() < .75:
                prog.append("%d DIM %s(%s)" % (ln, w, ",".join(map(str, dims))))
                arrs[w] = dims
                ln += 10
            else:
                arrs[w] = [10] * nd
        c = 0
        for _ in range(rng.randint(5, 14)):
            w = rng.choice(list(arrs))
            d = arrs[w]

            def sub(bad):
                q = [str(rng.randint(0, x)) for x in d]
                if bad:
                    i = rng.randrange(len(d))
                    q[i] = rng.choice([str(d[i] + 1), "-1", "0.5", str(d[i] + 0.5), "1E10", "4294967296", "65536", str(d[i] + 2), "-0.5", "100"])
                    if rng.random() < .2:
                        q = q + ["0"] if rng.random() < .5 else q[:1]
                return ",".join(q)
            bad = rng.random() < .05
            c += 1
            v = '"v%d"' % c if "$" in w else str(c)
            s1, s2 = sub(bad), sub(False)
            prog.append("%d %s" % (ln, rng.choice(["%s(%s)=%s" % (w, s1, v)] * 4 + ["%s(%s)=%s(%s)" % (w, s1, w, s2), "PRINT %s(%s);" % (w, s1), "READ %s(%s)" % (w, s1), "INPUT %s(%s)" % (w, s1), "%s(%s)=%s+%s(%s)" % (w, s1, v, w, s1),
                            "DIM %s(%s)" % (w, ",".join(map(str, d))) if rng.random() < .3 else "PRINT %s(%s);" % (w, s2)])))
            ln += 10
        # read everything back
        for w, d in arrs.items():
            if len(d) == 1:
                prog.append("%d FOR I=0 TO %d:PRINT \"[\";%s(I);\"]\";:NEXT:PRINT" % (ln, d[0], w))
            else:
                prog.append("%d FOR I=0 TO %d:FOR J=0 TO %d:PRINT \"[\";%s(I,J);\"]\";:NEXT:NEXT:PRINT" % (ln, d[0], min(d[1], 6), w))
            ln += 10
        prog.append("%d DATA 71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86" % ln)
        if rng.random() < .7:
            res += prog_file("random", prog, script=lines(*["6%d" % i for i in range(14)]), fuel=2500)
        else:
            prog = [p for p in prog if "INPUT" not in p]
            w = list(arrs)[0]
            sc = [[p] for p in prog] + [["RUN"], ["PRINT %s(0%s)" % (w, ",0" * (len(arrs[w]) - 1)), "%s(1%s)=%s" % (w, ",1" * (len(arrs[w]) - 1), '"i"' if "$" in w else "5"), "DIM %s(2)" % w], ["PRINT %s(1%s)" % (w, ",1" * (len(arrs[w]) - 1))]]
            res.append(session("random-typed", sc, fuel=2500))
    return res


def c06_bounds(rng, n):
    """Every subscript around the bounds of every kind of array, with and without DIM."""
    subs = ["0", "1", "2", "3", "4", "9", "10", "11", "12", "-1", "-0", "0.5", "2.5", "3.0", "1E0", "1E9", "1E10", "1E300", "65535", "65536", "4294967294", "4294967295", "4294967296", "4294967297", "1/0", "-1/0"]
    res = []
    for decl in ("", "DIM A(3)", "DIM A(0)", "DIM A(10)", "DIM A(11)", "DIM A(3,2)", "DIM A(0,0)", "DIM A(2,3,4)", "DIM A(10,10)", "DIM A(65535)", "DIM A(255,255)", "DIM A(256,254)", "DIM A(255,256)", "DIM A(65535,0)", "DIM A(0,65535)",
                 "DIM A(32767,1)", "DIM A(32768,1)", "DIM A(1,32767)", "DIM A(1,32768)"):
        for s in subs:
            if len(res) > 4000:
                break
            d = decl.replace("A(", rng.choice(["A(", "A$("]))
            w = "A$" if "$" in d else "A"
            v = '"v"' if w == "A$" else "7"
            alts = []
            for form in ("%s(%s)", "%s(%s,0)", "%s(0,%s)", "%s(%s,2)", "%s(3,%s)", "%s(%s,%s)", "%s(1,2,%s)"):
                e = form % ((w,) + (s,) * (form.count("%s") - 1))
                alts += ["PRINT " + e, e + "=" + v]
            alts = rng.sample(alts, 4)
            show = ["PRINT %s(0);%s(3);%s(2)" % (w, w, w), "PRINT %s(0,0);%s(2,2);%s(3,1)" % (w, w, w), "PRINT %s(10)" % w, "PRINT %s(11)" % w, "PRINT %s(%s)" % (w, s), "PRINT %s(%s,0)" % (w, s), "DIM %s(4):PRINT %s(4)" % (w, w)]
            big = re.search(r"\d{3}", d)
            sc = ([[d]] if d else []) + [alts if not big else alts[:2]] + [rng.sample(show, 2)]
            res.append(session("bounds", sc, fuel=300))
    return rng.sample(res, min(n, len(res)))


def c06_dims(rng, n):
    vals = ["0", "1", "3", "10", "255", "256", "65534", "65535", "65536", "-1", "0.5", "2.5", "1E10", "4294967295", "4294967296", "1/0", "\"x\""]
    res = []
    for a in vals:
        for b in [None] + vals:
            d = a if b is None else a + "," + b
            if rng.random() < n / 300:
                res.append(session("dims", [["A(1)=5:A$(2)=\"s\""], ["DIM A(%s)" % d, "DIM A$(%s)" % d, "DIM B(%s),A(2)" % d, "DIM A(2),B(%s)" % d], ["PRINT A(1);A(2)", "PRINT A(1,0)", "PRINT A$(2)", "PRINT B(0)", "PRINT B(0,0)"]]))
    return res


def c06_isolation(rng, n):
    """Filling one array completely leaves its neighbours alone."""
    res = []
    for _ in range(n):
        a, b = rng.choice([(3, 4), (1, 1), (2, 0), (0, 3), (4, 4), (5, 2)])
        p = ["10 DIM A(%d,%d),B(%d,%d),C$(%d),D(%d)" % (a, b, b, a, a, b), "20 FOR I=0 TO %d:FOR J=0 TO %d:A(I,J)=I*100+J:B(J,I)=-(I*100+J):NEXT:NEXT" % (a, b), "30 FOR I=0 TO %d:C$(I)=\"c\"+STR$(I):NEXT:FOR J=0 TO %d:D(J)=J/2:NEXT" % (a, b)]
        q = ["40 FOR I=0 TO %d:FOR J=0 TO %d:PRINT A(I,J);B(J,I);:NEXT:PRINT C$(I);:NEXT:PRINT" % (a, b), "50 FOR J=0 TO %d:PRINT D(J);:NEXT:PRINT" % b]
        mid = rng.choice(["35 DIM A(%d,%d)" % (b, a), "35 A(0,0)=99:C$(0)=C$(%d)" % a, "35 DIM C$(%d)" % (a + 1), "35 B(%d,%d)=1" % (b, a + 1), "35 A(%d,%d)=1" % (a + 1, b), "35 A(%d,%d)=1" % (a, b + 1), "35 D(%d)=1" % (b + 1), "35 E(3)=4:E$(3)=\"q\"", "35 CLEAR", "35 REM"])
        if rng.random() < .6:
            res += prog_file("isolation", p + [mid] + q, fuel=2500)
        else:
            res.append(session("isolation-typed", [[x] for x in p] + [["RUN"], [mid[3:]]] + [[x[3:]] for x in q], fuel=2500))
    return res


# ------------------------------------------------------------------ C07: functions
def c07_random(rng, n):
    res = []
    for _ in range(n):
        F = ["FNA", "FNB", "F", "G"]
        P = ["X", "Y", "A", "FNA", "Z9"]
        sf = rng.random() < .4
        prog = ["10 X=10:Y=20:A=30:S$=\"s\":D(2)=7"]
        ln = 20
        defined = []
        for _ in range(rng.randint(5, 12)):
            f, p = rng.choice(F), rng.choice(P)
            k = rng.random()
            if k < .3 or not defined:
                e = rng.choice(["%s+1", "%s*%s", "X+Y*%s", "A", "%s^2-1", "(%s>5)*10", "INT(%s/2)", "-%s", "D(%s)", "LEN(S$)+%s", "%s+X+A", "VAL(STR$(%s))", "NOT (%s>0)", "ABS(%s)+%s", "D(2)+%s", "NOSUCH(%s)"]).replace("%s", p)
                if sf and rng.random() < .5:
                    e = rng.choice(["STR$(%s)", "S$+STR$(%s)", "LEFT$(S$+\"abc\",%s)", "CHR$(64+%s)", "S$"]).replace("%s", p)
                    f += "$"
                if rng.random() < .06:
                    e += "+FNB(1)" if not f.endswith("$") else "+FNB$(1)"
                st = "DEF %s(%s)=%s" % (vary(rng, f), p, e)
                defined.append(f)
            else:
                g = rng.choice(defined) if rng.random() < .93 else rng.choice(["FNC", "FNA", "G"])
                arg = rng.choice(["1", "2", "X", "Y+1", "A/3", "-2", "0", "D(2)", "(X)", "3.5", "%s(1)" % rng.choice([d for d in defined if d[-1] != "$"] or ["1*"]).replace("1*(1)", "1") if rng.random() < .15 else "4"])
                if rng.random() < .03:
                    arg = rng.choice(["1,2", "1,2,3"])
                c = "%s(%s)" % (vary(rng, g), arg)
                if g.endswith("$"):
                    st = rng.choice(["PRINT %s;" % c, "S$=%s" % c, "IF %s=S$ THEN PRINT \"eq\";" % c, "PRINT LEN(%s);" % c, "PRINT %s+%s;" % (c, c)])
                else:
                    st = rng.choice(["PRINT %s;" % c, "PRINT %s+%s;" % (c, c), "X=%s" % c, "Y=X-%s" % c, "A=%s" % c, "IF %s>5 THEN PRINT \"gt\"; ELSE PRINT \"le\";" % c, "PRINT X;Y;A;", "FOR I=1 TO %s:NEXT" % ("2" if rng.random() < .5 else "(%s>3)+3" % c),
                                     "PRINT D((%s>3)+2);" % c, "PRINT STR$(%s);" % c, "PRINT TAB((%s>3)+9);\"t\";" % c, "ON (%s>3)+2 GOTO 7000,7000" % c if rng.random() < .1 else "PRINT 1-%s*2;" % c])
            if rng.random() < .05:
                st = "CLEAR"
            prog.append("%d %s" % (ln, st))
            ln += 10
        prog += ["7000 PRINT X;Y;A;FNA;Z9;S$"]
        if rng.random() < .6:
            res += prog_file("random", prog, fuel=900, trace=rng.random() < .3)
        else:
            sc = [[p] for p in prog] + [["RUN"], ["DEF FNA(X)=X+Y", "DEF %s(Q)=1000" % rng.choice(F), "X=1:Y=2", "CLEAR"], ["PRINT %s(5);X;Y" % rng.choice(F), "PRINT FNA(FNA(1))", "PRINT FNA(1,2)"], ["PRINT X;Y;A;Z9", "RUN"]]
            res.append(session("random-typed", sc, fuel=1500))
    return res


def c07_errors(rng, n):
    """A call that fails leaves nothing behind, however often."""
    bad = ["1/0+LOG(0)", "LOG(X)", "ASC(MID$(\"\",X,1))", "D(X)", "VAL(\"x\")", "NOT X", "G(X)", "H(X)", "LOG(-X)+1", "(1E300*1E300) AND X", "((((((((((((((((X+1)*2)+1)*2)+1)*2)+1)*2)+1)*2)+1)*2)+1)*2)", "D(X,1)", "LEN(CHR$(X))"]
    res = []
    for b in bad:
        for where in ("PRINT F(%s)", "A=F(%s)", "A=1+F(%s)", "PRINT 1;F(%s)", "FOR I=1 TO F(%s)", "D(F(%s))=1", "IF F(%s) THEN PRINT 1", "INPUT D(F(%s))", "READ D(F(%s))", "PRINT \"a\"+\"b\"+STR$(F(%s))"):
            v = rng.choice(["-5", "1.5", "99", "0", "300"])
            rep = rng.choice([1, 2, 9, 18])
            w = where % v
            sc = [["10 DEF G(Y)=Y+1:DEF F(X)=" + b], ["15 X=7:DATA 1,2,3"], ["20 " + w], ["30 PRINT X"], ["RUN"]]
            sc += [[w]] * rep
            sc += [["PRINT X;G(1)"], ["DEF F(X)=X*2:PRINT F(4)"], ["PRINT X", "RUN"]]
            res.append(session("errors", sc, fuel=900))
    return rng.sample(res, min(n, len(res)))


def c07_redefine(rng, n):
    """Which definition counts is decided by execution, not by place."""
    res = []
    for _ in range(n):
        prog = ["10 INPUT K", "20 IF K=1 THEN DEF F(X)=X+1 ELSE DEF F(X)=X+100", "30 IF K=2 THEN 60", "40 DEF G(X)=F:F=5", "50 DEF G(Y)=Y+X:X=3", "60 PRINT F(1);F;", "70 PRINT G(2);X;Y", "80 IF K=3 THEN DEF F(Y)=Y*X:X=9:PRINT F(2);X;Y",
                "90 L=L+1:IF L<2 THEN 30"]
        if rng.random() < .5:
            prog = rng.sample(prog[1:8], 7)
            prog = ["5 K=%d" % rng.randint(1, 3)] + ["%d %s" % (10 * (i + 1), p.split(" ", 1)[1].replace("30", "40").replace("60", "70")) for i, p in enumerate(prog)] + ["90 L=L+1:IF L<2 THEN 10"]
            res += prog_file("redefine", prog, fuel=600)
        else:
            res += prog_file("redefine", prog, script=[["1", "2", "3"]], fuel=600)
    sc = [["10 DEF F(X)=X+1"], ["20 DEF F(X)=X+2:END"], ["30 PRINT F(1)"], ["PRINT F(1)", "GOTO 30", "RUN"], ["PRINT F(1)"], ["DEF F(X)=X+3", "GOTO 10", "10 DEF F(Y)=Y", "CLEAR"], ["GOTO 30", "PRINT F(1)"], ["PRINT F(1)", "RUN"], ["PRINT F(1)"]]
    res.append(session("redefine-typed", sc))
    # a definition made at the prompt outlives the line it was on; shadowing of each name
    for p in ("X", "Y", "x", "F", "S"):
        res.append(session("shadow", [["%s=4:S$=\"q\"" % p], ["DEF F(%s)=%s*10" % (p, p)], ["PRINT F(2);%s" % p, "PRINT %s+F(%s)+%s" % (p, p, p), "%s=F(%s)" % (p, p)], ["PRINT %s;F(1)" % p, "PRINT F(%s,1)" % p, "CLEAR"], ["PRINT %s" % p, "PRINT F(1)"]]))
        res.append(session("shadow-undefined", [["DEF F(%s)=%s*10" % (p, p)], ["PRINT F(2)"], ["PRINT %s" % p], ["PRINT F(3);%s" % p]]))
    return res
# ------------------------------------------------------------------ C08: numeric expressions
BIN = ["^", "*", "/", "+", "-", "=", "<>", "<", ">", "<=", ">=", " AND ", " OR "]
UN = ["", "-", "NOT ", "--", "NOT NOT ", "-(", "NOT ("]


def immediates(fam, exprs, size=12, before=(), what="PRINT "):
    """Sessions that print the values of expressions at the prompt."""
    res = []
    for i in range(0, len(exprs), size):
        ls = [what + e for e in exprs[i:i + size]]
        res.append(session(fam, [[b] for b in before] + [[l] for l in ls if len(l) < 125], fuel=900))
    return res


def c08_pairs(rng, n):
    """Every pair and triple of operators, with and without signs, on values that tell groupings apart."""
    ex = []
    vals = [("2", "3", "4"), ("7", "2", "-1"), ("-1", "0", "5"), ("0.5", "4", "2"), ("6", "6", "1"), ("-1", "-1", "0"), ("3", "8", "2.5")]
    for a in BIN:
        for b in BIN:
            for v in rng.sample(vals, 3):
                ex.append("%s%s%s%s%s" % (v[0], a, v[1], b, v[2]))
            v = rng.choice(vals)
            ex.append("%s%s%s%s%s%s" % (rng.choice(UN[1:5]), v[0], a, v[1], b, v[2]))
            ex.append("%s%s%s%s%s%s" % (v[0], a, rng.choice(["-", "--"]) if a != "^" else "-", v[1], b, v[2]))
            ex.append("%s%s(%s%s%s)" % (v[0], a, v[1], b, v[2]))
    for _ in range(n):
        k = rng.randint(3, 6)
        e = ""
        for i in range(k):
            e += rng.choice(["", "", "", "", "-", "("]) + rng.choice(["1", "2", "3", "-1", "0", "4", "5", "A", "B", "2.5"])
            if e.count("(") > e.count(")") and rng.random() < .5:
                e += ")"
            e += rng.choice(BIN) if i < k - 1 else ""
        e += ")" * (e.count("(") - e.count(")"))
        ex.append(e)
    for a in BIN:
        ex.append("NOT 1%s2" % a)
        ex.append("-2%s2" % a)
        ex.append("NOT -1%sNOT 0" % a if a[0] == " " else "1%s(NOT 0)" % a)
        ex.append("\"a\"%s\"b\"" % a)
        ex.append("(\"a\"%s\"b\")+1" % a)
    rng.shuffle(ex)
    return immediates("pairs", ex, 14, ["A=3:B=-2"])


def c08_functions(rng, n):
    xs = ["0", "1", "-1", "2", "-2", "0.5", "-0.5", "1.5", "-1.5", "2.999999", "-2.000001", "100", "1E10", "-1E10", "1E300", "1E-300", "0.1", "3.7", "-3.2", "4", "9", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
          "1/0", "-1/0", "0/0", "123456.5", "1234567", "0.000012345", "99999.95", "999999.5", "-0"]
    ex = ["%s(%s)" % (f, x) for f in ("ABS", "INT", "SGN", "SQR", "LOG", "EXP", "SIN", "COS", "TAN", "ATN") for x in xs]
    ex += ["NOT " + ("(%s)" % x) for x in xs]
    ex += ["%s %s %s" % (x, o, y) for o in ("AND", "OR") for x in ("-1", "0", "5", "6", "12", "255", "-256", "0.5", "2147483647", "-2147483648", "2147483648", "1E10", "1/0") for y in ("-1", "0", "3", "10", "-7", "1.5", "2147483648", "-2147483648")]
    ex += ["%s/%s" % (x, y) for x in ("1", "0", "-1") for y in ("0", "3", "-0")]
    ex += ["(%s)^%s" % (x, y) for x in ("2", "-2", "0", "0.5", "-1", "10", "1.5") for y in ("0", "1", "2", "-1", "0.5", "3", "-3", "1000", "(1/3)")]
    ex += ["%s%s%s" % (x, o, y) for x in ("1", "2", "0.1+0.2", "-0", "1E300*1E10", "0/0") for o in ("=", "<>", "<", ">", "<=", ">=") for y in ("1", "0.3", "0", "1/0", "0/0")]
    ex += ["SQR(%s)" % v for v in ("-1", "-0.0001", "2", "16")] + ["LOG(%s)" % v for v in ("0", "-1", "1", "EXP(1)", "1E-10")]
    ex += ["%s" % x for x in xs] + ["100000", "999999", "1000000", "0.0001", "0.00001", "123456", "1234567", "-123456.7", "1E100", "1E-100", "33333333", "1/3", "2/3", "1E15+1"]
    rng.shuffle(ex)
    return immediates("functions", ex, 16)


def c08_deep(rng, n):
    """Expressions of every depth around the capacity of the evaluation stack."""
    res = []
    for k in range(13, 20):
        shapes = ["1+(" * (k - 1) + "1" + ")" * (k - 1), "-(" * 3 + "1+(" * (k - 1) + "2" + ")" * (k + 2), "1^" * (k - 1) + "2", "2*(1+" * (k // 2) + "1" + ")" * (k // 2), "A(" * k + "1" + ")" * k,
                  "+".join(["1"] * k * 2), "1=(" * (k - 1) + "1" + ")" * (k - 1), "1 AND (" * (k - 2) + "-1" + ")" * (k - 2), "ABS(1-" * (k - 1) + "1" + ")" * (k - 1), "(" * 25 + "1" + ")" * 25, "1+(" * (k - 2) + "F(2)" + ")" * (k - 2), "LEN(STR$(" * 5 + "1" + "))" * 5 + "+1" * k,
                  "1+(" * (k - 3) + "LEN(LEFT$(\"abc\",2))" + ")" * (k - 3), "1+(" * (k - 2) + "A(1,2)" + ")" * (k - 2)]
        for e in shapes:
            res.append(session("deep", [["10 DEF F(X)=X+(X+(X+1))"], ["RUN"], ["PRINT " + e, "B=" + e, "IF %s THEN PRINT \"t\"" % e] if len(e) < 100 else ["PRINT 0"], ["PRINT 1+(2+(3+4));B"], ["PRINT F(2)"]], fuel=900))
            res += prog_file("deep", ["5 DEF F(X)=X+(X+(X+1))", "10 PRINT \"a\";", "20 PRINT " + e, "30 PRINT \"b\""])
    return res


def c08_random(rng, n):
    ex = [num(rng, rng.randint(2, 4), rng.random() < .5) for _ in range(n)] + [cond(rng, 3) for _ in range(n // 2)]
    ex = [e for e in ex if len(e) < 115]
    res = immediates("random", ex, 8, ["A=3:B=-2:C=0.5:X=7:Y=100", "A$=\"ab\":B$=\"B\":S$=\"hello\""])
    for i in range(0, len(ex), 6):
        ls = ["10 A=3:B=-2:C=0.5:X=7:Y=100", "20 A$=\"ab\":B$=\"B\":S$=\"hello\""] + ["%d PRINT %s" % (30 + j, e) for j, e in enumerate(ex[i:i + 6])]
        res += prog_file("random-file", ls, fuel=900)
    return res


def c08_parens(rng, n):
    """An expression, the same with every operation in parentheses, and their difference."""
    prec = {"^": (6, "r"), "*": (4, "l"), "/": (4, "l"), "+": (3, "l"), "-": (3, "l"), " AND ": (1, "l"), " OR ": (0, "l")}
    for o in ("=", "<>", "<", ">", "<=", ">="):
        prec[o] = (2, "n")

    def tree(d):
        if d == 0 or rng.random() < .15:
            return rng.choice(["1", "2", "3", "4", "5", "A", "B"])
        if rng.random() < .12:
            return ("u-", tree(d - 1))
        return (rng.choice(["^", "*", "/", "+", "-", "+", "-", "*"]), tree(d - 1), tree(d - 1))

    def full(t):
        if isinstance(t, str):
            return t
        if t[0] == "u-":
            return "(-%s)" % full(t[1])
        return "(%s%s%s)" % (full(t[1]), t[0], full(t[2]))

    def least(t, p=0, right=False):
        if isinstance(t, str):
            return t
        if t[0] == "u-":
            s = "-" + least(t[1], 5)
            return "(%s)" % s if p > 5 or right else s
        q, a = prec[t[0]]
        s = least(t[1], q + (1 if a == "r" else 0), False) + t[0] + least(t[2], q + (0 if a == "r" else 1), True)
        return "(%s)" % s if p > q else s
    ex = []
    for _ in range(n):
        t = tree(3)
        ex += ["%s" % least(t), "%s" % full(t)]
    return immediates("parentheses", [e for e in ex if len(e) < 110], 12, ["A=1.5:B=-3"])


# ------------------------------------------------------------------ C09: strings
STRS = ["\"\"", "\"a\"", "\"ab\"", "\"abc\"", "\"hello\"", "A$", "B$", "CHR$(200)+\"x\"", "\"A\"", "\"aB\"", "CHR$(0)", "\" \"", "CHR$(127)", "CHR$(128)", "CHR$(255)", "CHR$(10)"]
COUNTS = ["0", "1", "2", "3", "4", "5", "6", "9", "255", "256", "65536", "4294967295", "-1", "0.5", "2.5", "1E10", "-0.5", "1/0", "2.0", "4294967296"]


def c09_cuts(rng, n):
    ex = []
    for s in STRS:
        for c in COUNTS:
            ex += ["LEFT$(%s,%s)" % (s, c), "RIGHT$(%s,%s)" % (s, c)]
            for c2 in ("0", "1", "2", "3", "9", "-1", "1.5", "4294967295"):
                ex.append("MID$(%s,%s,%s)" % (s, c, c2))
    ex = rng.sample(ex, min(n * 10, len(ex)))
    return immediates("cuts", ["\"[\";%s;\"]\"" % e for e in ex], 16, ["A$=\"wxyz\":B$=\"\""])


def c09_codes(rng, n):
    res = []
    for i in range(0, 256, 16):
        p = ["10 FOR I=%d TO %d" % (i, i + 15), "20 A$=CHR$(I):PRINT ASC(A$);LEN(A$);ASC(A$+\"z\");ASC(\"z\"+A$);A$=CHR$(I);A$<\"M\";A$>\"m\"", "30 NEXT"]
        res += prog_file("codes", p, fuel=1500)
    res += immediates("codes", ["\"[\";CHR$(%s);\"]\"" % c for c in ["-1", "256", "255", "0", "65", "65.5", "1E10", "1/0", "300", "-0.5", "13", "9", "34", "254.999", "4294967361"]] + ["ASC(\"\")", "ASC(B$)", "LEN(B$)", "ASC(\"ABC\")", "LEN(CHR$(0))", "ASC(CHR$(0)+\"b\")"], 10)
    return res


NUMTEXT = ["\"0\"", "\"1\"", "\" 1\"", "\"1 \"", "\"\t1\"", "\"-1\"", "\"+1\"", "\"- 1\"", "\"1.5\"", "\".5\"", "\"5.\"", "\".\"", "\"1e3\"", "\"1E-3\"", "\"1e\"", "\"1e+3\"", "\"abc\"", "\"\"", "\" \"", "\"1x\"", "\"1 2\"", "\"1,2\"", "\"--1\"", "\"0x10\"", "\"inf\"",
           "\"nan\"", "\"1e400\"", "\"123456789012345678901234567890\"", "\"-0\"", "\"+\"", "\"-\"", "\"1d2\"", "\"00012\"", "\"1e5x\"", "\"1\"+CHR$(10)", "CHR$(10)+\"1\"", "\"1\"+CHR$(13)", "\"-.5e1\"", "\"+.5\"", "\"1..2\"", "\"1.2.3\""]


def c09_numbers(rng, n):
    ex = ["VAL(%s)" % t for t in NUMTEXT]
    for _ in range(n):
        x = rng.choice(["%d" % rng.randint(-10 ** rng.randint(1, 12), 10 ** rng.randint(1, 12)), "%g" % rng.uniform(-100, 100), "%.9g" % (rng.uniform(0, 1) * 10.0 ** rng.randint(-12, 15)), "1/%d" % rng.randint(1, 99), "%d/7" % rng.randint(-999, 999)])
        x = x.replace("+", "")
        ex += ["STR$(%s);LEN(STR$(%s));VAL(STR$(%s));STR$(VAL(STR$(%s)))=STR$(%s)" % ((x,) * 5)]
    return immediates("numbers", ex, 14)


def c09_compare(rng, n):
    ws = ["\"\"", "\"a\"", "\"A\"", "\"ab\"", "\"aa\"", "\"b\"", "\"a \"", "\" a\"", "\"abc\"", "\"abd\"", "\"1\"", "\"10\"", "\"9\"", "CHR$(200)", "CHR$(127)", "CHR$(128)+\"a\"", "\"a\"+CHR$(255)", "\"~\"", "\"Z\"", "CHR$(1)", "CHR$(0)"]
    ex = []
    for a in ws:
        for b in ws:
            ex.append("%s=%s;%s<>%s;%s<%s;%s>%s;%s<=%s;%s>=%s" % ((a, b) * 6))
    ex = [e for e in ex if len(e) < 115]
    return immediates("compare", rng.sample(ex, min(n * 8, len(ex))), 16)


def c09_lengths(rng, n):
    """Concatenations around the greatest length, and their pieces."""
    res = []
    for a, b in [(127, 127), (127, 128), (128, 128), (200, 54), (200, 55), (200, 56), (255, 0), (255, 1), (0, 255), (254, 1), (254, 2), (250, 5), (250, 6), (100, 100), (1, 254), (1, 255)]:
        p = ["10 FOR I=1 TO %d:A$=A$+\"x\":NEXT" % a if a else "10 REM", "20 FOR I=1 TO %d:B$=B$+\"y\":NEXT" % b if b else "20 REM", "30 PRINT LEN(A$);LEN(B$)", "40 C$=\"kept\"", "50 C$=A$+B$", "60 PRINT LEN(C$);MID$(C$,%d,3);RIGHT$(C$,2);LEFT$(C$,2)" % max(1, a + b - 3), "70 D$=C$+\"\":PRINT LEN(D$);D$=C$", "80 D$=D$+\"z\":PRINT LEN(D$)"]
        res += prog_file("lengths", p, fuel=9000)
    return res


def c09_depth(rng, n):
    res = []
    for k in range(5, 12):
        nest = "\"a\"+(" * (k - 1) + "\"b\"" + ")" * (k - 1)
        flat = "+".join(["\"a\""] * k)
        left = "LEFT$(" * k + "\"abcdef\"" + ",5)" * k
        for e in (nest, flat, left, "\"x\"+LEFT$(\"y\"+(" * (k // 2) + "\"b\"" + "),2)" * (k // 2), "A$+(" * (k - 1) + "STR$(LEN(\"q\"+A$))" + ")" * (k - 1)):
            if len(e) < 110:
                res.append(session("depth", [["A$=\"s\""], ["PRINT " + e, "B$=" + e, "IF %s=\"\" THEN 10" % e], ["PRINT \"1\"+(\"2\"+(\"3\"+A$));B$"]]))
    return res


def c09_random(rng, n):
    res = immediates("random", [e for e in ("\"[\";%s;\"]\"" % string(rng, rng.randint(2, 4)) for _ in range(n)) if len(e) < 115], 8, ["A=3:B=-2:C=0.5:X=7:Y=100", "A$=\"ab\":B$=\"B\":S$=\"hello\""])
    for _ in range(n // 6):
        p = ["10 A$=\"alpha\":B$=\"Be\":S$=\"\""]
        for i in range(8):
            p.append("%d %s=%s" % (20 + 10 * i, rng.choice(SVARS), string(rng, 2)))
        p.append("200 PRINT \"[\";A$;\"][\";B$;\"][\";S$;\"]\"")
        res += prog_file("random-file", p, fuel=900)
    return res


# ------------------------------------------------------------------ C10: print positions
def print_list(rng, k=None):
    t = []
    for _ in range(k or rng.randint(0, 7)):
        r = rng.random()
        if r < .22:
            t.append(quoted("x" * rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 15, 16, 17, 23])))
        elif r < .30:
            t.append(quoted(rng.choice(["abc", "hello world", "1", "-"])))
        elif r < .48:
            t.append(rng.choice(["1", "-1", "0", "12", "1.5", "-0.25", "1E10", "123456", "1234567", "0.1", "A", "B", "1/3", "-1/3", "100000", "1E-5", "(1=1)"]))
        elif r < .62:
            t.append(";")
        elif r < .76:
            t.append(",")
        elif r < .86:
            t.append("TAB(%s)" % rng.choice(["0", "1", "2", "5", "7", "8", "9", "10", "16", "17", "20", "33", "80", "A"]))
        elif r < .94:
            t.append("SPC(%s)" % rng.choice(["0", "1", "2", "7", "8", "9", "B"]))
        elif r < .97:
            t.append(rng.choice(["CHR$(10)", "CHR$(9)", "CHR$(13)", "CHR$(8)", "\"a\"+CHR$(10)+\"bcd\"", "CHR$(10)+CHR$(10)", "\"abcdefgh\"+CHR$(10)", "CHR$(0)", "CHR$(200)", "CHR$(7)"]))
        else:
            t.append(rng.choice(["S$", "LEFT$(\"abcdef\",A)", "F(2)", "STR$(B)", "TAB(-1)", "SPC(-1)", "TAB(1.5)", "SPC(0.5)", "TAB(1E10)"]))
    out = ""
    for i, x in enumerate(t):   # neighbours without a separator are allowed, but numbers run together
        if out and out[-1] not in ";, " and x not in (";", ","):
            out += rng.choice([";", ";", ";", " "])
            if out[-1] == " " and x[0] in "-(":
                out = out[:-1] + ";"
        out += x
    return out


def c10_lists(rng, n):
    res = []
    for _ in range(n):
        p = ["10 A=4:B=3:S$=\"str\":DEF F(X)=X*X"]
        for i in range(rng.randint(2, 7)):
            st = "PRINT " + print_list(rng)
            if rng.random() < .2:
                st = rng.choice(["IF A=4 THEN %s ELSE PRINT \"no\"" % st, st + ":" + "PRINT " + print_list(rng, 3), "GOSUB 900:" + st, "INPUT Q:" + st, "INPUT \"prompt\";Q$:" + st, "LINE INPUT \"l\";Q$:" + st, "FOR I=1 TO 3:PRINT I,:NEXT:" + st, "CLS:" + st])
            p.append("%d %s" % (20 + 10 * i, st))
        p += ["890 END", "900 PRINT %s;:RETURN" % rng.choice(["\"sub\"", "1", "\"\""])]
        ins = lines(*[rng.choice(["1", "22", "", "x", "5,6"]) for _ in range(6)])
        if rng.random() < .6:
            res += prog_file("lists", p, script=ins, fuel=600, trace=rng.random() < .1)
        else:
            sc = [[x] for x in p if "INPUT" not in x and len(x) < 124] + [["RUN"], ["PRINT " + print_list(rng), "PRINT \"abc\";", "RUN"], ["PRINT " + print_list(rng), "PRINT ,\"x\"", "RUN"]]
            res.append(session("lists-typed", [s for s in sc if all(len(a) < 124 for a in s)], fuel=900))
    return res


def c10_columns(rng, n):
    """After any number of characters: a comma, TAB and SPC."""
    res = []
    for k in range(0, 26):
        w = quoted("x" * k)
        ls = ["PRINT %s,\"a\",\"b\"" % w, "PRINT %s;TAB(%d);\"t\"" % (w, max(1, k)), "PRINT %s;TAB(%d);\"t\"" % (w, k + 1), "PRINT %s;TAB(%d);\"t\"" % (w, k + 2), "PRINT %s;SPC(%d);\"s\",\"c\"" % (w, k % 9), "PRINT %s;1,2;-3,\"e\"" % w, "PRINT %s;TAB(1);\"q\",\"r\"" % w]
        p = ["%d %s" % (10 * (i + 1), l) for i, l in enumerate(ls)]
        res += prog_file("columns", p)
        res.append(session("columns-typed", [["PRINT %s;" % w], ["PRINT ,\"a\"", "PRINT TAB(%d);\"b\"" % (k + 1), "PRINT TAB(3);\"c\"", "INPUT A:PRINT ,\"d\""], ["5", "PRINT ,\"z\""]]))
    for k in (79, 80, 127, 128, 132, 240, 254, 255, 256, 257, 300, 511, 512, 1000):
        res += prog_file("columns", ["10 PRINT SPC(%d);\"a\",\"b\";TAB(%d);\"c\"" % (k, k + 20), "20 PRINT TAB(%d);\"d\",\"e\"" % k, "30 FOR I=1 TO %d:PRINT \"z\";:NEXT:PRINT ,\"f\"" % min(k, 130)], fuel=1500)
    return res


def c10_starts(rng, n):
    """The column after each kind of interruption of a line."""
    res = []
    last = ["PRINT \"abcde\";", "PRINT \"abc\";1/0;", "PRINT \"abc\";:STOP", "PRINT \"abc\";:END", "PRINT 1,", "PRINT \"abc\";LOG(0)", "INPUT A", "PRINT \"abcdefghijkl\";:INPUT A,B", "PRINT \"ab\";:INPUT \"p\";A$", "PRINT \"abc\":PRINT \"de\";", "CLS:PRINT \"q\";", "PRINT \"abc\";:CLS", "PRINT \"abc\";:LINE INPUT A$"]
    for l in last:
        for nx in ("PRINT ,\"x\"", "PRINT TAB(4);\"x\"", "RUN", "CONT", "GOTO 30", "INPUT Z:PRINT ,\"y\""):
            res.append(session("starts", [["10 PRINT \"zz\";"], ["20 " + l], ["30 PRINT ,\"next\""], ["40 PRINT \"tail\";"], ["RUN", l], [["1,2"], ["x", "3,4"]] if "INPUT" in l else [nx], [nx], ["PRINT ,\"end\""]], fuel=400))
    return res


# ------------------------------------------------------------------ C11: input
def c11_inputs(rng, n):
    res = []
    lists = ["A", "A$", "A,B", "A$,B$", "A,B$", "A$,B", "A,B,C$", "D(1)", "D(A)", "A,D(A)", "E$(A),D(2)", "A,A", "I,D(I),I,D(I)", "D(I,2),E$(1,I)", "D$(99),A", "A,D(99)", "A,D(-1),B", "A$,E$(2),F"]
    answers = ["1", "1,2", "1,2,3", "1,2,3,4", "", " ", "x", "1,x", "x,1", "1,", ",1", ",", ",,", "1,2,", "  1  ,  2  ", "1 2", "a b , c d", "\"q\",\"r\"", "1.5e2,-3", "1e,2", "abc,def,ghi,jkl", "5;6", "-", "+7", "\t8\t,\t9", "3,4,5,6,7", "2,yes,no", "1,2 x", "inf", "0x1F", ".", "1,2:PRINT 3", "1\r", "a\r"]
    for _ in range(n):
        it = rng.choice(lists)
        pr = rng.choice(["", "", "\"Name\";", "\"N\",", "\"N\"", "\"\";"])
        p = ["10 I=1:A=2:PRINT \"go\";", "20 INPUT %s%s" % (pr, it), "30 PRINT A;B;C;F;I;\"[\";A$;\"][\";B$;\"][\";C$;\"]\";D(1);D(2);E$(2);E$(3)", "40 INPUT Z$:PRINT \"Z=\";Z$"]
        if re.search(r"[DE]\$?\([^)]*,", it):
            p[2] = "30 PRINT A;I;D(1,2);D(3,2);E$(1,1);E$(1,2)"
        sc = [rng.sample(answers, 4), rng.sample(answers, 2), rng.sample(answers, 2), ["1,2,3,4", "a"]]
        if rng.random() < .7:
            res += prog_file("inputs", p, script=sc, fuel=300)
        else:
            res.append(session("inputs-typed", [[x] for x in p] + [["RUN", p[1][3:] + ":PRINT A;A$;B$"]] + sc[:3], fuel=300))
    return res


def c11_lines(rng, n):
    """LINE INPUT: the whole line, whatever it is; long lines; the end of input at every place."""
    res = []
    answers = ["", " ", "a,b,c", "  lead", "trail  ", "\"quoted, text\"", "1", "x:y'z", "\ttab\t", ",", "a\r", "x" * 100, "REM", "10 PRINT"]
    for a in answers:
        res += prog_file("line", ["10 LINE INPUT \"p\";A$", "20 PRINT \"[\";A$;\"]\";LEN(A$)", "30 LINE INPUT B$(2):INPUT C$,D", "40 PRINT \"[\";B$(2);\"][\";C$;\"]\";D"], script=[[a], [rng.choice(answers), a], ["q,1", "q", a], ["r,2"]], fuel=300)
    for k in (120, 125, 126, 127, 128, 129, 250, 253, 254, 255, 256, 380, 381, 400):
        t = "".join(rng.choice("abcdefgh ,") for _ in range(k - 1)) + "z"
        res += prog_file("long", ["10 LINE INPUT A$", "20 PRINT LEN(A$);A$", "30 LINE INPUT B$", "40 PRINT LEN(B$);B$", "50 INPUT C$,D$,E$:PRINT C$;\"|\";D$;\"|\";E$", "60 GOTO 10"], script=[[t], ["short", t], ["a,b,c", t], ["x"]], fuel=300)
        res += prog_file("long", ["10 INPUT A,B", "20 PRINT A;B", "30 GOTO 10"], script=[["1" * 5 + " " * (k - 8) + ",2"], ["3,4"]], fuel=200)
        res.append(session("long-typed", [["LINE INPUT A$:PRINT LEN(A$)"], [t], ["PRINT A$"], ["PRINT 5"]]))
    # the end of input at every place
    for it in ("A", "A$", "A,B", "D(1),A$", "A$,A"):
        for cut in ("", "1\0", "1,2\0", "x\0", "1,\0", "\0"):
            for loop in ("30 GOTO 20", "30 PRINT A;A$"):
                res += prog_file("eof", ["10 PRINT \"a\";", "20 INPUT %s" % it, loop], script=[[cut]] if cut else [], fuel=200)
            res.append(session("eof-typed", [["10 INPUT %s" % it], ["20 PRINT \"got\""], ["RUN", "INPUT %s:PRINT 1" % it]] + ([[cut]] if cut else []), fuel=200))
    res += prog_file("eof", ["10 LINE INPUT A$:PRINT A$:GOTO 10"], script=[["one"], ["two", "two\0"]], fuel=200)
    return res


def c11_again(rng, n):
    """Many wrong answers before a right one; items with their own expressions."""
    res = []
    for _ in range(n):
        it = rng.choice(["A,B", "A,B$", "A,D(A),B", "D(1),D(2),D(3)", "A$,A", "D(A+1),E$(F(A))", "X,Y"])
        k = rng.choice([1, 3, 8, 9, 17, 20])
        p = ["5 DEF F(Q)=Q+1", "10 A=1:X=9", "20 FOR I=1 TO 2:INPUT %s:NEXT" % it, "30 PRINT A;B;A$;B$;D(1);D(2);D(3);E$(2);X;Y;I"]
        bad = [rng.choice(["x", "1", "1,x", "", ",", "2", "1,2x", "3,y,4", "1;2"]) for _ in range(k)]
        good = ["1,2,3", "3,1,2"]
        if rng.random() < .6:
            res += prog_file("again", p, script=lines(*(bad + good + good)), fuel=900)
        else:
            res.append(session("again-typed", [[x] for x in p] + [["RUN"]] + lines(*(bad + good + good)) + [["PRINT A;B;D(1);D(2)"], ["RUN"]] + lines(*good), fuel=900))
    return res


# ------------------------------------------------------------------ C12: data
DITEMS = ["1", "2", "-3", "1.5", "+4", "1e2", "abc", "a b c", "\"quoted\"", "\"a, b\"", "\" sp \"", "\"\"", "  lead", "trail  ", "x1", "\"5\"", "12abc", "PRINT", "a:b", "it's", "REM", "1 2", "A$", "(x)", "-", "\"12 \""]


def data_list(rng, nums=False):
    n = rng.randint(1, 4)
    return rng.choice([",", ", ", " , "]).join(rng.choice(["7", "-8", "9.5", " 10", "11 ", "\"12\"", "1E1", "+3"]) if nums else rng.choice(DITEMS) for _ in range(n))


def c12_random(rng, n):
    res = []
    for _ in range(n):
        nums = rng.random() < .6
        m = rng.randint(4, 11)
        L = [10 * (i + 1) for i in range(m)]
        p = ["5 DIM D(40)"]
        for x in L:
            st = []
            for _ in range(rng.choice([1, 1, 2])):
                v = rng.choice(["A", "B", "D(1)", "D(K)"] if nums else ["A$", "B$", "A$", "E$(1)", "A"])
                st.append(rng.choice(["READ %s:PRINT \"[\";%s;\"]\";" % (v, v)] * 5 + ["READ %s,%s:PRINT %s;\"|\";%s" % (v, v.replace("A", "C"), v, v.replace("A", "C")), "DATA " + data_list(rng, nums), "DATA " + data_list(rng, nums), "RESTORE", "RESTORE %d" % rng.choice(L),
                                      "RESTORE %d" % rng.choice(L), "GOTO %d" % rng.choice(L), "IF K<4 THEN %d" % rng.choice(L), "IF K=2 THEN DATA 1,2", "RESTORE %d" % rng.choice([5, 999]) if rng.random() < .2 else "REM DATA 9", "GOSUB 900"]))
                if "DATA" in st[-1]:
                    break
            p.append("%d K=K+1:%s" % (x, ":".join(st)) if rng.random() < .7 else "%d %s" % (x, ":".join(st)))
        p += ["890 K=K+1:IF K<20 THEN %d" % L[0], "895 END", "900 READ %s:RETURN" % ("A" if nums else "A$"), "910 DATA %s" % data_list(rng, nums)]
        if rng.random() < .6:
            res += prog_file("random", p, fuel=500, trace=rng.random() < .2)
        else:
            sc = [[x] for x in p if len(x) < 124] + [["RUN"], ["READ A$:PRINT A$", "READ A:PRINT A:DATA 55,66", "RESTORE:READ A$:PRINT A$", "RESTORE %d" % rng.choice(L), "DATA 1", "GOTO %d" % rng.choice(L)], ["READ A$:PRINT A$", "RUN", "READ B$,C$:PRINT B$;C$:DATA im,med,iate"], ["READ A$:PRINT A$"]]
            res.append(session("random-typed", sc, fuel=900))
    return res


def c12_items(rng, n):
    """Every form of an item, read as text and as a number."""
    res = []
    for it in DITEMS + ["", " ", "\"a\"b", "\"unclosed", "a\"b", "a\"b,c\"d", ".5", "5.", "1e5", "1e", "1e+2", "0x1f", "- 5", "--5", "1,", ",1", ",,", "\"\",\"\"", "\t5\t", "5\t", "AB\t,CD \t", "a \t b \t", "\t \"q\"\t", "inf", "nan", "1d3", "999999999999", "\"1\" ", " \"1\"", "é"]:
        p = ["10 READ A$:PRINT \"[\";A$;\"]\";LEN(A$)", "20 READ B$:PRINT \"[\";B$;\"]\"", "30 RESTORE:READ A:PRINT A", "40 READ B$:PRINT B$", "50 DATA %s" % it, "60 DATA second"]
        res += prog_file("items", p)
        res += prog_file("items", p[2:5] + ["70 DATA 3:PRINT 7"])
        res.append(session("items-immediate", [["READ A$:PRINT \"[\";A$;\"]\":DATA %s" % it, "READ A:PRINT A:DATA %s" % it, "DATA %s" % it]]) if all(ord(c) < 127 for c in it) else session("items-immediate", [["PRINT 1"]]))
    return res


def immediate_reads(rng):
    """An immediate line that reads, with or without DATA of its own."""
    st = [rng.choice(["READ A:PRINT A;", "READ A:PRINT A;", "READ B,C:PRINT B;C;", "RESTORE", "RESTORE", "RESTORE 30", "RESTORE 60", "GOSUB 50", "PRINT \"-\";", "IF A>2 THEN RESTORE", "FOR I=1 TO 2:READ A:PRINT A;:NEXT", "READ A$:PRINT A$;"]) for _ in range(rng.randint(2, 6))]
    if rng.random() < .7:
        st.insert(rng.choice([len(st), len(st), 0]), "DATA %s" % ",".join(str(rng.randint(100, 140)) for _ in range(rng.randint(1, 4))))
        if st[0][:4] == "DATA" and rng.random() < .5:
            st.append("DATA 150,151")
    return ":".join(st)[:120]


def c12_immediate(rng, n):
    res = []
    for _ in range(n // 2):
        p = ["10 READ A:PRINT A;:STOP", "30 DATA 1,2,3", "35 RESTORE 30:STOP", "40 DATA 4:READ C:PRINT C", "45 END", "50 READ A:PRINT A;:RETURN", "60 DATA 5,6,7,8,9"]
        if rng.random() < .25:
            p = [x for x in p if "DATA" not in x]
        res.append(session("immediate-reads", [[x] for x in p] + [["RUN"] if rng.random() < .7 else ["PRINT"]] + [[immediate_reads(rng) if rng.random() < .7 else rng.choice(["CONT", "RUN", "READ A:PRINT A", "RESTORE", "LIST 30", "RESTORE 60:STOP:READ A:PRINT A", "READ A:STOP:READ A:PRINT A:DATA 5,6"])] for _ in range(rng.randint(3, 6))] + [[immediate_reads(rng), "CONT"]], fuel=500))
    acts = ["READ A:PRINT A", "READ A,B:PRINT A;B", "READ A:PRINT A:DATA 91,92", "DATA 91,92:READ A,B:PRINT A;B", "RESTORE", "RESTORE 30", "RESTORE 25", "RESTORE:READ A:PRINT A:DATA 93", "RUN", "CONT", "GOTO 20", "GOTO 10", "30 DATA 77", "30", "NEW", "CLEAR", "COMPILE", "READ A$:PRINT A$", "RENUM",
            "RESTORE 30:READ A:PRINT A:DATA 94", "READ A,B,C:PRINT A:DATA 95,96", "GOSUB 50:READ A:PRINT A:DATA 97,98", "GOSUB 50", "PRINT 1/0:READ A", "READ A,B:RESTORE:READ C:PRINT A;B;C:DATA 1,2,3", "RESTORE 40:READ A:RESTORE:READ B:PRINT A;B:DATA 71,72", "FOR I=1 TO 2:READ A:PRINT A:NEXT:DATA 81,82", "15 DATA 66"]
    for _ in range(n):
        p = ["10 READ A:PRINT A;", "20 READ B:PRINT B;:STOP", "30 DATA 1,2,3", "40 DATA 4:READ C:PRINT C", "45 END", "50 READ A:PRINT A;:RETURN", "60 DATA 5,6,7"]
        if rng.random() < .2:
            p = [x for x in p if "DATA" not in x]
        res.append(session("immediate", [[x] for x in p] + [["RUN"] if rng.random() < .6 else ["PRINT"]] + [[rng.choice(acts)] for _ in range(rng.randint(3, 7))] + [rng.sample(acts, 3)], fuel=500))
    return res


# ------------------------------------------------------------------ the checks
PROPS = {}


def prop(pid, *families, cls=Prop):
    PROPS[pid] = cls(pid, list(families))
    return PROPS[pid]


prop("C01", (c01_mutants, 1500), (c01_all_mutants, 20000), (c01_names, 700), (c01_positions, 1), (c01_lengths, 1))
prop("C02", (c02_ifs, 350), (c02_shapes, 150), (c02_jumps, 500), (c02_on, 1))
prop("C03", (c03_ranges, 500), (c03_scramble, 300), (c03_nest, 350), (c03_depth, 1))
prop("C04", (c04_scramble, 600), (c04_tree, 150), (c04_depth, 1))
prop("C05", (c05_names, 250), (c05_copies, 200), (c05_lifetimes, 300), (c05_clear, 60))
prop("C06", (c06_random, 250), (c06_bounds, 300), (c06_dims, 120), (c06_isolation, 80))
prop("C07", (c07_random, 400), (c07_errors, 90), (c07_redefine, 40))
prop("C08", (c08_pairs, 900), (c08_functions, 1), (c08_deep, 1), (c08_random, 700), (c08_parens, 300))
prop("C09", (c09_cuts, 160), (c09_codes, 1), (c09_numbers, 120), (c09_compare, 40), (c09_lengths, 1), (c09_depth, 1), (c09_random, 500))
prop("C10", (c10_lists, 500), (c10_columns, 1), (c10_starts, 1))
prop("C11", (c11_inputs, 120), (c11_lines, 1), (c11_again, 60))
prop("C12", (c12_random, 400), (c12_items, 1), (c12_immediate, 250))
prop("C13", (c13_edits, 350), (c13_orders, 24), (c13_numbers, 1), (c13_pages, 40), (c13_long, 1), (c13_graph, 1))
