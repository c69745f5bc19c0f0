"""Sessions for C27 (the clock) and C28 (lines for the operating system)."""
import os, time
import lb, gen, gen2
from gen import Prop, prop, standard
from lb import session

# ------------------------------------------------------------------ C27: the clock
ZONES = ["UTC0", "XYZ-5:30", "PST8", "<+14>-14", "NPT-5:45", "NST3:30", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3"]
DAYS = [0, 1, 58, 59, 11016, 18000, 19723, 20647, 20648, 24855, 24856, 30000, 47540]


def local(zone, epoch):
    """Seconds since local midnight."""
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = zone
        time.tzset()
        t = time.localtime(epoch)
        return t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def at(s, zone, epoch, tick=0):
    """The session takes place at this time."""
    s["zone"], s["epoch"] = zone, epoch
    s["clock"] = dict(on=True, at=local(zone, epoch), tick=tick)
    return s


def moment(rng, zone=None):
    z = zone or rng.choice(ZONES[:6] * 2 + ZONES)
    d = rng.choice(DAYS)
    t = rng.choice([0, 1, 59, 60, 61, 599, 600, 3599, 3600, 3661, 35999, 36000, 43199, 43200, 45296, 46800, 71999, 72000, 86399, rng.randrange(86400), rng.randrange(86400)])
    return z, d * 86400 + t + (86400 * 2 if d == 0 else 0)


def c27_times(rng, n):
    """Many times of the day, in every zone: the clock moves on in a loop."""
    res = []
    for z in ZONES[:6]:
        for tick in (1, 59, 60, 61, 433, 3600, 3661, 7919):
            p = ["10 FOR I=1 TO %d:PRINT TIME$;\" \";:X=SIN(I):NEXT:PRINT TIME$" % 60, "20 A$=TIME$:X=SIN(1):PRINT A$,TIME$,A$=TIME$"]
            for s in gen.prog_file("times", p, fuel=3000):
                res.append(at(s, *moment(rng, z), tick))
    for z in ZONES:
        for h in range(24):
            e = rng.choice(DAYS[2:]) * 86400 + h * 3600 + rng.randrange(3600)
            s = gen.prog_file("hours", ["10 PRINT TIME$"], fuel=50)[0]
            res.append(at(s, z, e))
    return res


TEXPR = ["TIME$", "TIME$", "time$", "Time$", "TIME$(0)", "TIME$(\"x\")", "TIME$(A$)", "TIME$(1+2)", "TIME$()"]


def c27_uses(rng, n):
    """The time in expressions and statements of every kind."""
    use = ["PRINT %s", "PRINT LEN(%s);ASC(%s)", "PRINT LEFT$(%s,2);RIGHT$(%s,2);MID$(%s,4,2)", "PRINT VAL(MID$(%s,4,2))+1", "A$=%s:PRINT A$", "A$=\"<\"+%s+\">\":PRINT A$;LEN(A$)", "IF %s=A$ THEN PRINT \"same\" ELSE PRINT \"other\"",
           "IF %s<\"12\" THEN PRINT \"am\" ELSE PRINT \"pm\"", "B$(2)=%s:PRINT B$(2);B$(1)", "PRINT FNH(VAL(LEFT$(%s,2)))", "PRINT TAB(5);%s,%s", "PRINT %s;%s;", "FOR I=1 TO 2:PRINT %s:X=SIN(I):NEXT", "PRINT %s:X=SIN(1)+SIN(2):PRINT %s", "PRINT SIN(0);%s;SIN(0);%s",
           "PRINT MID$(%s,VAL(\"1\"),SIN(0)+5)", "PRINT %s+1", "PRINT %s-2", "LET %s=\"x\"", "TIME=5:PRINT TIME", "T$=%s:TIME=LEN(T$):PRINT TIME;T$", "INPUT %s", "DIM TIME$(3)", "READ A$:PRINT A$;%s:DATA TIME$", "ON VAL(LEFT$(%s,1))+1 GOTO 90,90,90", "PRINT %s=%s", "GOSUB 80:PRINT %s", "PRINT STR$(VAL(RIGHT$(%s,2)))"]
    res = []
    for _ in range(n):
        st = []
        for _ in range(rng.randint(1, 6)):
            u = rng.choice(use)
            st.append(u.replace("%s", rng.choice(TEXPR)) if rng.random() < .3 else u.replace("%s", rng.choice(TEXPR[:4])))
        if rng.random() < .5:
            p = ["%d %s" % (10 + 2 * i, t) for i, t in enumerate(st)] + ["70 END", "80 X=SIN(X):RETURN", "90 PRINT \"on\"", "5 A$=TIME$:DEF FNH(X)=X+SIN(0)"]
            p.sort(key=lambda l: int(l.split()[0]))
            s = rng.choice([lambda: gen.prog_file("uses", p, fuel=400)[0], lambda: session("uses", [[l] for l in p] + [["RUN"], ["PRINT TIME$;A$"], ["X"], ["CONT"]], fuel=400)])()
        else:
            s = session("uses", [["A$=TIME$"], ["DEF FNH(X)=X+SIN(0)"]] + [[t] for t in st] + [["PRINT A$,TIME$"]], any=rng.random() < .2, fuel=400)
        res.append(at(s, *moment(rng), rng.choice([0, 1, 1, 7, 60, 3600, 40000])))
    return res


def c27_random(rng, n):
    """RANDOMIZE with no number changes nothing but the numbers."""
    ok = "X=RND:PRINT X>=0;X<1;RND=RND;"
    st = ["RANDOMIZE", "RANDOMIZE", "RANDOMIZE:" + ok, ok, "IF RND<2 THEN RANDOMIZE:PRINT 1 ELSE PRINT 2", "PRINT INT(RND)", "FOR I=1 TO 3:RANDOMIZE:PRINT INT(RND*1);:NEXT", "GOSUB 80", "RANDOMIZE 5:PRINT RND;RND", "RANDOMIZE:RANDOMIZE 42:PRINT RND", "RANDOMIZE 5:X=RND:RANDOMIZE:RANDOMIZE 5:PRINT RND=X",
          "PRINT A;A$;D(1);FNR(2)", "A=A+1:RANDOMIZE:PRINT A", "READ A:PRINT A:RANDOMIZE", "RANDOMIZE:READ A$:PRINT A$", "INPUT A:RANDOMIZE:PRINT A", "RANDOMIZE:PRINT D(LEN(A$))", "PRINT TIME$", "STOP:RANDOMIZE", "RANDOMIZE:STOP:PRINT \"go\"", "D(1)=FNR(1):RANDOMIZE:PRINT D(1)>=0", "RANDOMIZE -1", "RANDOMIZE A$", "RANDOMIZE \"x\"", "RANDOMIZE:CLEAR:PRINT RND<1", "DEF FNR(X)=X:RANDOMIZE:PRINT FNR(3)"]
    res = []
    for _ in range(n):
        pick = [rng.choice(st) for _ in range(rng.randint(2, 6))]
        setup = "A=1:A$=\"q\":DIM D(3):D(1)=4:DEF FNR(X)=X*2"
        k = rng.random()
        if k < .6:
            p = ["5 " + setup] + ["%d %s" % (10 + 2 * i, t) for i, t in enumerate(pick)] + ["70 DATA 4,5,6,7:END", "80 RANDOMIZE:PRINT \"sub\":RETURN"]
            if k < .3:
                s = session("randomize", argv=rng.choice([["-q"], ["-q", "-z"], ["--randomize", "-q"], ["-z"]]) + ["p.bas"], files={"p.bas": "\n".join(p) + "\n"}, script=[["3"], ["4"]], fuel=500)
            else:
                s = session("randomize", [[l] for l in p] + [["RUN"], ["7", "8"], ["CONT"], ["RANDOMIZE"], ["PRINT A;A$;D(1)"], ["CONT"]], argv=rng.choice([["-q"], ["-q", "-z"]]), fuel=500)
        else:
            s = session("randomize", [[setup]] + [[t] for t in pick if "GOSUB" not in t] + [["PRINT A;A$;D(1)"]], argv=rng.choice([["-q"], ["-q", "-z"]]), fuel=500)
        res.append(at(s, *moment(rng), rng.choice([0, 1])))
        s["group"], s["view"] = id(s), lambda p: (p["out"], p["err"])      # whichever numbers it chooses
    return res


def c27_steady(rng, n):
    """Without RANDOMIZE, or after RANDOMIZE with a number, the time does not matter."""
    res = []
    for _ in range(n):
        sd = rng.choice(["", "", "RANDOMIZE 5:", "RANDOMIZE 42:", "RANDOMIZE 12345:", "RANDOMIZE:RANDOMIZE 100:"])
        p = ["10 " + sd + "FOR I=1 TO %d:PRINT RND;:NEXT" % rng.randint(1, 9), "20 X=SIN(1):PRINT RND;INT(RND*65536)", "30 RANDOMIZE 255:PRINT RND"]
        s = rng.choice([lambda: gen.prog_file("steady", p, fuel=300)[0], lambda: session("steady", [[l] for l in p] + [["RUN"], ["PRINT RND"], ["RUN"]], fuel=300),
                        lambda: session("steady", argv=["-z", "-q", "p.bas"], files={"p.bas": "1 RANDOMIZE 255\n" + "\n".join(p) + "\n"}, fuel=300)])()
        res.append(at(s, *moment(rng), rng.choice([0, 1, 3600])))
    return res


class Clock(gen2.Random):
    count = 60
    note = "The time is that of a stand-in for the C library's clock (host/shim.c), which the specification reads as well. " + gen2.Random.note

    def jobs(self, check, rep):
        return [(rep["session"], rep["typed"], rep["marks"], rep, standard)]

    def raw(self, check):
        """The numbers after RANDOMIZE, or with --randomize, are others at another time."""
        rng, res = check.rng, []
        three = "PRINT RND;RND;RND"
        kinds = [(dict(argv=["-q", "p.bas"], files={"p.bas": "10 RANDOMIZE:%s\n" % three}), []),
                 (dict(argv=["-q", "p.bas"], files={"p.bas": "10 X=RND:IF X<2 THEN RANDOMIZE\n20 GOSUB 30:END\n30 %s:RETURN\n" % three}), []),
                 (dict(argv=["-q", "p.bas"], files={"p.bas": "10 RANDOMIZE 5:PRINT 1:RANDOMIZE\n20 %s\n" % three}), []),
                 (dict(argv=["-q", "-z", "p.bas"], files={"p.bas": "10 %s\n" % three}), []),
                 (dict(argv=["--randomize", "p.bas"], files={"p.bas": "10 %s\n" % three}), []),
                 (dict(argv=["-q", "p.bas", "-z"], files={"p.bas": "10 %s\n" % three}), []),
                 (dict(argv=["-q"]), ["RANDOMIZE\n", three + "\n"]), (dict(argv=["-q"]), ["RANDOMIZE 3:RANDOMIZE:%s\n" % three]),
                 (dict(argv=["-q"]), ["10 %s\n" % three, "RANDOMIZE\n", "RUN\n"]), (dict(argv=["-q", "-z"]), ["10 %s\n" % three, "RUN\n"])]

        def judge(check, rep, real, s, typed):
            if real["late"] or real["exit"] or real["err"]:
                return "RANDOMIZE does not work"
            seen = {}
            for d in (0, 1, 2, 59, 60, 3600, 3601, 7 * 3600):
                r = check.real.replay(dict(s, epoch=s["epoch"] + d), typed)
                if r["out"] in seen:       # perhaps the time is had in another way
                    t = dict(s, clock=dict(on=False, at=0, tick=0))
                    a = check.real.replay(t, typed)["out"]
                    for k in range(3):
                        time.sleep(1.1)
                        if check.real.replay(t, typed)["out"] != a:
                            return None
                    return "the numbers %d and %d seconds later are the same" % (seen[r["out"]], d)
                seen[r["out"]] = d
            return None

        for kw, typed in kinds:
            for day in rng.sample(DAYS[2:], 3 if check.tier == "quick" else 9):
                s = session("different", **kw)
                s["opts"] = []
                res.append((at(s, "UTC0", day * 86400 + rng.randrange(12 * 3600)), typed, judge))
        return res


prop("C27", (c27_times, 1), (c27_uses, 900), (c27_random, 900), (c27_steady, 300), cls=Clock)


# ------------------------------------------------------------------ C28: lines for the operating system
WORDS28 = ["a", "B", "10", "x.y", "PRINT", "RUN", "*", "0", "hello", "A=1", "+", "-", "REM", "NEW", "echo", "exit", ":"]
QUOTED = ["'a  b'", "\"c d\"", "'10 PRINT \"q\"'", "''", "' '", "\"'\"", "'*echo x'", "'a;b>c'", "'  NEW'", "\"10 GOTO 10\""]


def words28(rng):
    return rng.choice([" ", " ", "  "]).join(w for w in (rng.choice(WORDS28[:6] + WORDS28[7:] + QUOTED) for _ in range(rng.randint(0, 4))))


def command28(rng):
    k = rng.random()
    if k < .6:
        w = words28(rng)
        c = "echo" + (" " + w if w else "")
        if c.startswith("echo -"):
            c = "echo a" + c[4:]
    elif k < .7:
        c = rng.choice([":", ": a b", "true", "false", "nosuch", "nosuch a b"])
    elif k < .76:
        c = rng.choice(["exit", "exit 0", "exit 1", "exit 7"])
    elif k < .9:
        return "echo " + rng.choice(["'10 PRINT 1'", "'20 PRINT \"two\"'", "'5 A=A+1:PRINT A'", "30 END", "10 PRINT A,B", "'15 FOR I=1 TO 2:PRINT I:NEXT'", "rubbish"]) + rng.choice([" >p.bas", " >>p.bas", ">>p.bas"]).replace(">", " >", 1)
    else:
        return rng.choice([": >p.bas", "echo x >q", "echo y >>q", "true >r"])
    return c


def os_line(rng):
    c = rng.choice([";", "; ", " ;"]).join(command28(rng) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    return rng.choice(["", "", "", " ", "\t", "   "]) + "*" + rng.choice(["", "", "", " ", "  ", "\t"]) + c + rng.choice(["", "", "", " ", "  "])


def c28_lines(rng, n):
    """Single lines of every form, between commands that show what they have left alone."""
    res = []
    fixed = ["*", "* ", "*\t ", " *", "**", "*echo", "*echo ", "* echo", "*echo *", "*echo hi", "*  echo hi", "*ECHO hi", "*Echo", "*echo  a   b ", "*echo 'a   b'", "*exit", "*exit 3", "*exit;echo no", "*echo a;exit;echo b", "*nosuch", "*nosuch;echo a", "*:", "*echo " + "x" * 100, "*echo " + "y" * 120, "*echo " + "z" * 121, "*echo " + "w" * 200, "*echo >q", "*echo a>q", "*echo ab >q;echo c>>q", "*echo '10 PRINT 5' >p.bas", "*echo NEW", "*new", "*echo '*echo'", "*echo \"A\";echo 'B'", "*false", "*PRINT 1"]
    for l in fixed:
        res.append(session("forms", [["10 PRINT A;A$:STOP", "20 PRINT \"rest\";A"], ["A=5:A$=\"v\""], ["RUN"], [l], ["LIST"], ["PRINT A;A$"], [l], ["CONT"], ["LOAD \"p.bas\""], ["RUN"], [l]], fuel=300))
        res.append(session("forms", [[l], ["PRINT 1;"], [l], ["INPUT A$:PRINT A$"], [l], ["PRINT TAB(3);A$"], [l + "\0"]], fuel=300))
    for q in (True, False):
        res.append(session("forms", [["*echo a"], ["*echo b"]], quiet=q))
    res.append(session("forms", [["10 REM"] + ["%d REM" % k for k in range(11, 60)], ["LIST"], ["*echo paged"], ["*echo b"], ["*echo c"]], fuel=300))
    return res


def c28_mix(rng, n):
    other = ["10 PRINT \"ten\":A=A+1", "20 STOP", "30 PRINT A;A$:FNA=1", "30 PRINT A;A$", "40 FOR I=1 TO 3:PRINT I;:NEXT", "25 INPUT A$", "RUN", "RUN", "LIST", "CONT", "CONT", "PRINT A;A$", "A=A+2", "A$=A$+\"z\"", "DIM D(4)", "D(2)=A:PRINT D(2)", "DEF FNQ(X)=X+A", "PRINT FNQ(1)", "SAVE \"p.bas\"", "LOAD \"p.bas\"", "LOAD \"p.bas\"", "LOAD \"q\"", "SAVE \"q\"", "NEW", "20", "PRINT \"no newline\";", "GOSUB 50", "50 PRINT \"sub\"", "60 RETURN", "RENUM", "CLEAR", "FOR I=1 TO 2:PRINT I:STOP", "NEXT", "READ B:PRINT B", "70 DATA 1,2,3", "X"]
    res = []
    for _ in range(n):
        s = [[rng.choice(other)] if rng.random() < .55 else [os_line(rng)] for _ in range(rng.randint(5, 14))]
        res.append(session("sessions", s, fuel=600))
    return res


def c28_choices(rng, n):
    """Every sequence of these."""
    return [session("choices", [["10 PRINT \"a\";A:STOP", "20 PRINT \"b\""]] + [["RUN", "CONT", "*echo hi", "A=A+1", "*echo '20 PRINT 7' >p.bas", "LOAD \"p.bas\"", "SAVE \"p.bas\""]] * (4 if n == 1 else 5), fuel=200)]


prop("C28", (c28_lines, 1), (c28_mix, 2500), (c28_choices, 1))


# ------------------------------------------------------------------ what changes nothing leaves a stopped program as it is
STOPPED = ["10 DEF FNA(X)=X*A", "20 READ A,B$:DIM D(3):D(1)=4", "30 FOR I=1 TO 3:GOSUB 60:NEXT", "40 READ C:PRINT \"end\";A;B$;C;D(1);FNA(2)", "50 DATA 7,x,8,9:END", "60 PRINT \"sub\";I:STOP", "70 PRINT \"back\":RETURN"]
PROBES = [["CONT"], ["PRINT A;B$;I;D(1);FNA(3)"], ["READ Z:PRINT Z"], ["NEXT"], ["RETURN"], ["GOTO 40"], ["CONT", "CONT", "CONT", "PRINT A;D(1)"], ["GOSUB 60", "CONT"], ["LIST"], ["RUN"]]


def keeping(fam, acts, **kw):
    res = []
    for a in acts:
        for p in PROBES:
            res.append(session(fam, [[l] for l in STOPPED] + [["RUN"]] + [[x] for x in (a if isinstance(a, list) else [a])] + [[x] for x in p] + [["PRINT A;I"], ["CONT"]], fuel=600, **kw))
    return res


def c13_nothing(rng, n):
    acts = ["99", "15", "65535", "0", "0 PRINT", "00", "99999999999 PRINT", "4294967295", "4294967296 X", "LIST", "LIST 30", "LIST 20-40", "LIST -30", "LIST p", "LIST x", "LIST 5x", "LIST 40-20", "LISTP", "", "   ", "HELP", "COMPILE", "9" * 60, "PRINT \"" + "x" * 130, ["99"] * 3, "  99", "99 "[:2] + "\t"[:0], ":", "REM x", "10PRINT(" [:0] + "BYE x", "NEW x"]
    return keeping("nothing", acts)


def c14_nothing(rng, n):
    acts = ["LOAD \"nosuch\"", "LOAD \"bad\"", "LOAD \"order\"", "LOAD \"nul\"", "LOAD \".\"", "LOAD", "LOAD nosuch", "LOAD \"p.bas\" x", "LOAD \"p.bas", "SAVE", "SAVE \"q\"", "SAVE \"no/dir\"", "SAVE \"/dev/full\"", "SAVE \".\"", "SAVE q", ["SAVE \"q\"", "LOAD \"bad\""], ["LOAD \"bad\"", "LOAD \"nosuch\""], "LOAD \"\"", "SAVE \"\""]
    return keeping("nothing", acts, files={"p.bas": "10 PRINT 1\n", "bad": "10 PRINT 2\n\n20 PRINT\n", "order": "20 A\n10 B\n", "nul": "10 PRINT\0\n"})


def c15_nothing(rng, n):
    return keeping("nothing", ["RENUM x", "RENUM 10,20", "RENUM 65535", "RENUM 0", "RENUM 5,30,1", "RENUM 60000,1,5000", "RENUM 10,1,0", "RENUM 10 20", "RENUMBER )", "RENUM 99999999", "RENUM 20,60"])


gen.PROPS["C13"].families.append((c13_nothing, 1))
gen.PROPS["C14"].families.append((c14_nothing, 1))
gen.PROPS["C15"].families.append((c15_nothing, 1))


# ------------------------------------------------------------------ loops, calls and CLEAR together
def c03_cleared(rng, n):
    """CLEAR and assignments to the variable while a loop is going on."""
    res = []
    for a, b, st in ((1, 3, 1), (-3, -1, 1), (5, 1, -4), (5, 1, -1), (-5, 2, 3), (0, 4, 2), (2, 3, .5), (0, 0, 1), (-1, 0, .25)):
        for v in ("I", "I", "LOOP", "i"):
            loop = "FOR %s=%s TO %s%s" % (v, a, b, "" if st == 1 else " STEP %s" % st)
            nx = rng.choice(["NEXT", "NEXT " + v])
            acts = ["CLEAR", "CLEAR", nx, nx, "%s=%s+1" % (v, v), "PRINT %s;Q" % v, "Q=%s" % v, "READ Z:PRINT Z;", "FOR J=1 TO 1:NEXT", "FOR J=1 TO 2", "NEXT J"]
            for _ in range(n):
                w = [rng.choice(acts) for _ in range(rng.randint(1, 5))]
                res.append(session("cleared", [["9 DATA 1,2,3,4,5"], ["10 " + loop], ["20 PRINT %s;:STOP" % v], ["30 " + nx + ":PRINT \"end\";%s" % v], ["RUN"]] + [[x] for x in w] + [["CONT"], ["CONT"], [nx], ["PRINT %s" % v]], fuel=300))
                res.append(session("cleared", [[loop + ":PRINT %s;" % v]] + [[x] for x in w] + [[nx], ["PRINT %s" % v], [nx]], fuel=300))
            p = ["5 DATA 1,2,3,4,5,6,7,8", "10 Q=7:" + loop, "20 READ Z:PRINT %s;Q;Z:IF Z=%d THEN CLEAR" % (v, rng.randint(1, 3)), "30 " + rng.choice(["", "%s=%s:" % (v, v), "PRINT %s;:" % v]) + nx, "40 PRINT \"end\";%s;Q;Z" % v]
            res += gen.prog_file("cleared", p, fuel=400)
    return res


def c04_together(rng, n):
    """So many loops and so many calls going on at once, around what both stacks hold, in each order, with expressions of every depth on top."""
    res = []
    L = "ABCDEFGHIJ"
    for loops in range(0, 10):
        for calls in ((0, 1, 7, 8, 9) if loops < 7 else range(0, 10)):
            for order in (0, 1, 2):
                p = ["10 K=0:DEF FNX(X)=X+1"]
                fors = ["FOR %s=1 TO 1" % L[i] for i in range(loops)]
                e = rng.choice(["PRINT \"deep\"", "PRINT FNX(FNX(1))", "PRINT " + "(1+" * 6 + "1" + ")" * 6, "PRINT \"a\"+(\"b\"+(\"c\"+STR$(FNX(2))))"])
                if order == 0:       # loops outside
                    p += ["%d %s" % (20 + i, f) for i, f in enumerate(fors)] + ["40 IF %d>0 THEN GOSUB 100" % calls, "45 PRINT \"home\";K"] + ["%d NEXT" % (50 + i) for i in range(loops)] + ["70 PRINT \"done\":END"]
                    p += ["100 K=K+1:IF K<%d THEN GOSUB 100:RETURN" % calls, "110 %s:PRINT K:RETURN" % e]
                elif order == 1:     # calls outside
                    p += ["40 IF %d>0 THEN GOSUB 100:PRINT \"home\":END" % calls, "50 GOTO 110", "100 K=K+1:IF K<%d THEN GOSUB 100:PRINT \"r\";:RETURN" % calls]
                    p += ["%d %s" % (110 + i, f) for i, f in enumerate(fors)] + ["130 %s:PRINT K" % e] + ["%d NEXT %s" % (140 + i, L[loops - 1 - i]) for i in range(loops)] + ["160 PRINT \"in\";:IF %d>0 THEN RETURN" % calls]
                else:                # one loop in each call
                    d = max(loops, calls)
                    p += ["20 GOSUB 100", "30 PRINT \"home\";K:END"]
                    for i in range(d):
                        b = 100 + 20 * i
                        p += ["%d PRINT %d;" % (b, i)] + (["%d %s" % (b + 2, fors[i])] if i < loops else []) + (["%d GOSUB %d" % (b + 4, b + 20)] if i + 1 < calls else ["%d %s" % (b + 4, e)] + (["%d GOTO %d" % (b + 5, b + 20)] if i + 1 < d else []))
                        p += (["%d NEXT %s" % (b + 6, L[i])] if i < loops else []) + ["%d PRINT \"b\";:RETURN" % (b + 8)]
                res += gen.prog_file("together", p, fuel=500)
                if order == 0:
                    res.append(session("together", [[l] for l in p] + [["RUN"], ["NEXT"], ["RETURN"], ["GOSUB 110"], ["FOR Z=1 TO 2:GOSUB 110:NEXT"]], fuel=500))
    return res


gen.PROPS["C03"].families.append((c03_cleared, 4))
gen.PROPS["C05"].families.append((c03_cleared, 4))
gen.PROPS["C04"].families.append((c04_together, 1))
gen.PROPS["C22"].families.append((c04_together, 1))


def c07_inside(rng, n):
    """A function called in the middle of every kind of statement disturbs none of it."""
    defs = ["DEF F(X)=X", "DEF F(X)=G(X)+0", "DEF F(X)=VAL(STR$(X))", "DEF F(X)=VAL(S$(X))", "DEF F(X)=X+LEN(\"\")", "DEF F(X)=G(G(X))", "DEF F(X)=X+A(5)+Z", "DEF F(D)=D"]
    st = ["INPUT A(F(1)),A(F(2)),B$:PRINT A(1);A(2);B$", "INPUT \"p\";A(F(1)+F(1)),B$,C:PRINT A(2);B$;C", "INPUT C,A(F(C)),B$(F(1)):PRINT C;A(1);A(2);B$(1)", "INPUT B$(F(2)),B$(F(1)),B$(F(0)):PRINT B$(0);B$(1);B$(2)",
          "READ A(F(1)),A(F(2)),B$:PRINT A(1);A(2);B$", "READ C,B$(F(1)),A(F(3)):PRINT C;B$(1);A(3)", "RESTORE:READ A(F(F(1))),C:PRINT A(1);C", "PRINT 1;F(2),F(3);TAB(F(30));F(4);SPC(F(2));\"x\"", "PRINT \"a\"+S$(F(2))+\"b\";F(1)+F(2)*F(3)-(F(4)+(F(5)/F(2)))",
          "DIM D(F(2),F(3)):D(F(1),F(2))=F(5):PRINT D(1,2)", "FOR I=F(1) TO F(3) STEP F(1):PRINT F(I);:NEXT", "FOR I=F(3) TO F(1) STEP -F(1):PRINT A(F(I));:NEXT I", "ON F(2) GOTO 900,810,900", "ON F(1)+1 GOSUB 900,820:PRINT \"back\"", "IF F(1)=1 AND F(2)>F(1) THEN PRINT F(7) ELSE PRINT F(8)",
          "A(F(1))=A(F(2))+F(3):PRINT A(1)", "B$=LEFT$(\"abcdef\",F(3))+MID$(\"abcdef\",F(2),F(2))+RIGHT$(\"xyz\",F(1)):PRINT B$", "PRINT CHR$(F(65));ASC(S$(F(5)));VAL(S$(F(9)))", "RANDOMIZE F(5):PRINT RND;F(2)", "PRINT RND;F(1);RND", "GOSUB 820:PRINT F(1)", "PRINT X;F(9);X", "X=4:PRINT F(X+1);X", "PRINT F(1)=F(1);F(2)<>F(2);NOT F(0)",
          "PRINT A(F(1),F(2))", "READ A(F(9),1)", "INPUT A(F(11))", "PRINT B$(F(-1))", "PRINT F(F(F(F(F(F(F(1)))))))", "PRINT F(1)+(F(2)+(F(3)+(F(4)+(F(5)+F(6)))))"]
    res = []
    for _ in range(n):
        pick = [rng.choice(st) for _ in range(rng.randint(2, 5))]
        p = ["1 " + rng.choice(defs), "2 DEF G(X)=X:DEF S$(X)=STR$(X)", "3 DATA 1,2,three,4,5,6,7,8,9,10,11,12"]
        for i, t in enumerate(pick):
            p.append("%d %s" % (10 + 10 * i, t.replace("900", "%d" % (20 + 10 * i)).replace("810", "%d" % (20 + 10 * i)) if "GOTO" in t else t))
        p += ["%d END" % (10 + 10 * len(pick)), "820 PRINT \"sub\";F(6):RETURN", "900 PRINT \"nine\":RETURN"]
        answers = [rng.choice(["1,2,x", "1,2", "7", "x,y,z", "2,3,\"q,r\"", "1,,3", "5,6,7,8", "2,4,\"\""]) for _ in range(14)]
        if rng.random() < .6:
            res.append(session("inside", argv=["-q", "p.bas"], files={"p.bas": "\n".join(p) + "\n"}, script=[[a] for a in answers], fuel=600))
        else:
            res.append(session("inside", [[l] for l in p[:3]] + [["DIM Q(1)"], ["RUN"], ["1 " + rng.choice(defs)]] + [[l] for l in p[3:]] + [["RUN"]] + [[a] for a in answers], fuel=600))
    return res


gen.PROPS["C07"].families.append((c07_inside, 350))
