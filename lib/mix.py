"""Whole programs mixing every part of the language."""
import re
from common import *

NV = ["A", "B", "X", "K", "I", "J", "D(1)", "D(I)", "D(2+A)", "G(1,2)", "M1"]
SV = ["A$", "B$", "E$(1)", "E$(J)"]


def n_expr(rng, d=1):
    r = rng.random()
    if r < .3 or d < 0:
        return rng.choice(["1", "2", "3", "0", "5", "-1", "2.5", "10", "1E2"])
    if r < .6:
        return rng.choice(NV)
    if r < .8:
        return "%s%s%s" % (n_expr(rng, d - 1), rng.choice("+-*+-"), n_expr(rng, d - 1)) if rng.random() < .9 else "%s/%s" % (n_expr(rng, 0), rng.choice("248"))
    if r < .86:
        return "FNA(%s)" % n_expr(rng, d - 1)
    if r < .9:
        return "LEN(%s)" % s_expr(rng, d - 1)
    if r < .95:
        return "%s(%s)" % (rng.choice(["INT", "ABS", "SGN"]), n_expr(rng, d - 1))
    return "(%s)" % c_expr(rng, d - 1)


def s_expr(rng, d=1):
    r = rng.random()
    if r < .35 or d < 0:
        return '"%s"' % rng.choice(["a", "bc", "", "D E", "x", "1"])
    if r < .65:
        return rng.choice(SV)
    if r < .8:
        return "%s+%s" % (s_expr(rng, d - 1), s_expr(rng, d - 1))
    if r < .86:
        return "STR$(%s)" % rng.choice(["A", "K", "I", "3", "2.5", "D(1)"])
    if r < .92:
        return "LEFT$(%s,%s)" % (s_expr(rng, d - 1), rng.choice("012"))
    if r < .95:
        return "FNS$(%s)" % n_expr(rng, min(d, 1) - 1)
    return "CHR$(%s)" % rng.choice(["65", "97+I*0", "48"])


def c_expr(rng, d=1):
    r = rng.random()
    if r < .6:
        return "%s%s%s" % (n_expr(rng, 0), rng.choice(["=", "<>", "<", ">", "<=", ">="]), n_expr(rng, 0))
    if r < .8:
        return "%s%s%s" % (rng.choice(SV), rng.choice(["=", "<>", "<", ">"]), s_expr(rng, 0))
    if r < .9:
        return "NOT (%s)" % c_expr(rng, 0)
    return "%s %s %s" % (c_expr(rng, 0), rng.choice(["AND", "OR"]), c_expr(rng, 0))


def action(rng, L, S, d=1, loops=None):
    """A statement; L: lines to jump to, S: subroutines; loops: those begun and not ended."""
    loops = [] if loops is None else loops
    r = rng.random()
    if r < .16:
        return "%s=%s" % (rng.choice(NV), n_expr(rng))
    if r < .25:
        return "%s=%s" % (rng.choice(SV), s_expr(rng))
    if r < .45:
        it = []
        for _ in range(rng.randint(1, 3)):
            it.append(rng.choice([n_expr(rng), n_expr(rng, 0), s_expr(rng), s_expr(rng, 0), '"<%d>"' % rng.randint(1, 99), "TAB(%d)" % rng.randint(0, 30), "SPC(%d)" % rng.randint(0, 4)]))
        return "PRINT " + "".join(x + rng.choice([";", ";", ";", ","]) for x in it)[:None if rng.random() < .5 else -1]
    if r < .51:
        return "GOSUB %d" % rng.choice(S)
    if r < .56:
        return "IF K<%d THEN %d" % (rng.randint(3, 14), rng.choice(L))
    if r < .62:
        t = rng.choice(["%d" % rng.choice(L), "A=A+1", "PRINT \"t\";", "GOSUB %d" % rng.choice(S), "IF %s THEN X=1" % c_expr(rng, 0)])
        if t.isdigit():
            return "IF %s THEN %s%s" % (c_expr(rng), t, rng.choice(["", " ELSE %d" % rng.choice(L)]))
        e = rng.choice(["", "", " ELSE GOTO %d" % rng.choice(L), " ELSE PRINT \"e\";", " ELSE B=B-1", " ELSE GOSUB %d" % rng.choice(S)])
        return "IF %s THEN %s%s" % (c_expr(rng), t, e)
    if r < .67:
        v = rng.choice("IJ")
        loops.append(v)
        return "FOR %s=%s TO %s%s" % (v, rng.choice(["1", "2", "0", "A", "3"]), rng.choice(["2", "3", "1", "0", "B"]), rng.choice(["", "", " STEP -1", " STEP 2", " STEP 0.5"]))
    if r < .73:
        if loops and rng.random() < .9:
            v = loops.pop(rng.choice([-1, -1, -1, 0]))
            return rng.choice(["NEXT", "NEXT " + v])
        return rng.choice(["NEXT", "NEXT I", "NEXT J,I"]) if rng.random() < .3 else "PRINT I;J;"
    if r < .76:
        return "READ " + ",".join(rng.choice(["A$", "B$", "E$(2)", "B$"] + ["A"] * (rng.random() < .2)) for _ in range(rng.randint(1, 2)))
    if r < .78:
        return rng.choice(["RESTORE", "RESTORE %d" % rng.choice(L + [940])])
    if r < .80:
        return "ON %s %s %s" % (rng.choice(["A", "K-3", "2", "1", "0", "I"]), rng.choice(["GOTO", "GOSUB"]), "#")
    if r < .83:
        return rng.choice(["INPUT A", "INPUT \"q\";B$", "INPUT A,B$", "LINE INPUT A$", "INPUT D(2),I", "LINE INPUT \"l\";E$(1)"])
    if r < .86:
        return rng.choice(["DEF FNA(X)=X*2+A", "DEF FNB(I)=I+1", "DEF FNS$(A)=STR$(A)+\"!\"+B$", "DIM D(5)", "DIM E$(3)", "DIM G(2,2)", "DIM D(A+3),Q(4)"])
    if r < .88:
        return rng.choice(["STOP", "RETURN", "CLEAR", "RANDOMIZE 3", "REM r:PRINT 1", "CLS", "END", "D(3)=4"]) if rng.random() < .5 else "A$=A$+\"k\""
    if r < .90:
        return rng.choice(["D(11)=1", "A=LOG(0)", "PRINT CHR$(-1)", "NEXT Q", "GOTO 7", "A=1+(2+VAL(\"z\"))", "E$(0,0)=\"x\"", "PRINT \"x\";LOG(-1)", "DIM D(-1)", "PRINT FNB(LOG(0))"])
    return ":".join(action(rng, L, S, d - 1, loops) for _ in range(2)) if d > 0 else "K=K+1"


def program(rng, n=None, stop=0.0):
    """A program; what it needs as input is anything."""
    n = n or rng.randint(4, 14)
    L = [10 * (i + 1) for i in range(n)]
    S = [900, 910, 920]
    loops = []
    p = ["5 DIM D(9),E$(4):DEF FNA(X)=X+B:DEF FNS$(S)=A$+STR$(S)+\"'\""]
    for x in L:
        while True:
            a = action(rng, L, S, 1, loops)
            if "#" in a:
                t = ",".join(str(rng.choice(L if "GOTO" in a else S)) for _ in range(rng.randint(1, 3)))
                a = a.replace("#", t)
            if len(a) < 100:
                break
        g = "K=K+1:" if rng.random() < .5 else ""
        if "GOTO" in a or re.search(r"THEN \d|ELSE \d", a):
            g = "K=K+1:IF K>18 THEN GOTO 880 ELSE "
            if "ELSE" in a:
                g = "K=K+1:"
        if rng.random() < stop:
            a += ":STOP:" + action(rng, L, S, 0).replace("#", "20")
        if "ELSE " in g and "ELSE" in a:
            g = "K=K+1:"
        p.append("%d %s" % (x, (g + a)[:230]))
    if loops:
        p.append("%d %s" % (L[-1] + 3, ":".join("NEXT" for _ in loops)))
    p.append("%d %s" % (L[-1] + 5, rng.choice(["END", "GOTO 880", "PRINT \"end\";K", "IF K<9 THEN %d" % L[0]])))
    p += ["880 PRINT \"fin\":END", "900 A=A+1:PRINT \"s\";A;:RETURN", "910 " + action(rng, [920], [920], 0).replace("#", "920") , "915 RETURN", "920 B=B+1:IF B<4 THEN GOSUB 920:RETURN ELSE RETURN", "930 DATA d1,2,\"d 3\",4", "940 DATA 5,x"]
    return p


def answers(rng, k=5):
    return [rng.choice(["3", "x", "1,2", "2,b", "\"q,r\"", "", "4", "-1", "5,6"]) for _ in range(k)]


COMMANDS = ["CONT", "CONT", "RUN", "PRINT A;B;X;K;I;J", "PRINT A$;B$;E$(1);D(1);D(2)", "NEXT", "RETURN", "READ A$:PRINT A$", "GOTO 30", "GOSUB 900", "GOSUB 910:PRINT \"b\"", "LIST 10-20", "25 PRINT \"new\";", "20", "RENUM", "SAVE \"m\"", "LOAD \"m\"", "CLEAR", "K=0", "A=1", "FOR I=1 TO 2:PRINT FNA(I);:NEXT", "FOR J=1 TO 3", "NEXT J", "DEF FNA(Y)=Y*Y", "DIM D(3)", "D(3)=7",
            "RESTORE", "PRINT LOG(0)", "foo", "STOP", "END", "PRINT FNA(2);FNS$(4)", "INPUT A$", "READ B$:PRINT B$:DATA im1,im2", "COMPILE", "NEW", "PRINT A;", "PRINT TAB(9);\"z\"", "GOTO 7", "IF A THEN PRINT \"yes\" ELSE PRINT \"no\"", "ON 2 GOTO 10,40", "E$(2)=\"w\"+A$", "LIST"]


def family(rng, n):
    """Programs run as files."""
    import gen
    res = []
    for _ in range(n):
        res += gen.prog_file("whole", program(rng), script=[[x] for x in answers(rng)], fuel=600, trace=rng.random() < .2)
    return res


def sessions(rng, n, fam, stop=.2, trace=.2, more=(), fuel=700):
    """Programs typed in and run, with anything done afterwards."""
    import lb
    res = []
    for _ in range(n):
        p = program(rng, rng.randint(3, 8), stop=stop)
        p = [x for x in p if len(x) < 124]
        sc = [[x] for x in p] + [["RUN"]]
        acts = COMMANDS + list(more)
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            sc.append(["CONT" if r < .2 else rng.choice(answers(rng)) if r < .3 else rng.choice(acts)])
        sc += [rng.sample(acts, 2), ["PRINT A;B;X;K;I;J;A$;B$"]]
        res.append(lb.session(fam, sc, fuel=fuel, trace=rng.random() < trace))
    return res
