"""All short texts: every string over a small alphabet, many to a session."""
import itertools
import gen
from lb import session
from gen import PROPS, prog_file, lines


def strings(alphabet, upto, least=0):
    for k in range(least, upto + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield w


def texts(alphabet, upto, least=0):
    return ["".join(w) for w in strings(alphabet, upto, least)]


def some(rng, xs, n):
    xs = list(xs)
    return xs if n >= len(xs) else rng.sample(xs, n)


def packed(fam, ls, size=40, before=(), after=(), fuel=400, **kw):
    """Sessions of many typed lines each; an item may be a list of lines kept together."""
    res = []
    for i in range(0, len(ls), size):
        sc = []
        for l in ls[i:i + size]:
            sc += [[x] for x in ([l] if isinstance(l, str) else l) if len(x) < 125]
        res.append(session(fam, [[b] for b in before] + sc + [[a] for a in after], fuel=fuel, **kw))
    return res


# ------------------------------------------------------------------ C01, C02, C10: short token strings
WORDS = ["PRINT", "A", "A$", "1", "\"s\"", "+", "-", "(", ")", ",", ";", ":", "=", "<", "IF", "THEN", "ELSE", "GOTO", "FOR", "TO", "STEP", "NEXT", "LEN(", "NOT", "AND", "DIM", "DATA", "ON", "INPUT", "DEF", "READ", "LET", "LINE", "RESTORE", "MID$", "10", "REM", "?", "END"]


def s01_triples(rng, n):
    """Every statement of up to three tokens; longer ones drawn."""
    ls = [" ".join(w) for w in strings(WORDS, 2, 1)]
    ls += some(rng, [" ".join(w) for w in strings(WORDS, 3, 3)], n)
    ls += [" ".join(rng.choice(WORDS) for _ in range(k)) for k in (4, 5) for _ in range(n // 8)]
    res = []
    # compiled, not run: nothing else is disturbed
    half = [["20 " + l, "COMPILE"] for l in ls]
    res += packed("short-statements", half, 30, before=["10 PRINT 1"])
    return res


IFS = ["IF A THEN ", "IF NOT A THEN ", " ELSE ", "30", "40", "PRINT \"x\"", "PRINT \"y\"", ":", "GOTO 40", "REM "]


def s02_ifs(rng, n):
    """Every line of up to four parts made of IF, THEN, ELSE, line numbers and statements, with the condition true and false."""
    ls = some(rng, texts(IFS, 4, 2), n) + ["".join(rng.choice(IFS) for _ in range(k)) for k in (5, 6, 7, 8) for _ in range(n // 8)]
    good = ["IF A THEN " + l for l in ls]
    body = []
    for g in good:
        body.append(["A=0", g + ":PRINT \"e\"", "A=-1", g + ":PRINT \"e\""])
    return packed("short-ifs", body, 14, before=["30 PRINT \"30\"", "35 END", "40 PRINT \"40\""])


PARTS = ["1", "-2", "\"ab\"", ";", ",", "TAB(9)", "SPC(2)", "A$", "STR$(5)"]


def s10_prints(rng, n):
    """Every PRINT of up to five items and separators, and what follows it on the line."""
    ls = ["PRINT " + " ".join(w) for w in some(rng, strings(PARTS, 4), n)] + ["PRINT " + " ".join(rng.choice(PARTS) for _ in range(k)) for k in (5, 6, 7) for _ in range(n // 6)]
    return packed("short-prints", [l + ":PRINT \"|\"" for l in ls], 40, before=["A$=\"four\""])


# ------------------------------------------------------------------ numbers
def s20_numbers(rng, n):
    """Every text of up to five characters a number may be made of, as a program has it."""
    ls = some(rng, texts("1.E-+ 0", 4, 1), n) + some(rng, texts("1.E- ", 6, 5), n // 2)
    res = packed("short-numbers", ["PRINT " + l for l in ls if l.strip()], 40, before=["E=7:E1=8:E0=9"])
    for i in range(0, len(ls), 200):
        p = ["10 E=7:E1=8:E0=9"] + ["%d PRINT %s" % (20 + k, l) for k, l in enumerate(some(rng, [x for x in texts("1.Ee-", 3, 1) if x[0] in "1.-" and x.count(".") < 2 and not x.endswith("-")], 30))]
        res.append(session("short-numbers-any", [], what="run", file="p.bas", files={"p.bas": "\n".join(p) + "\n"}, any=bool(i // 200 % 2), fuel=300))
    return res


def s08_values(rng, n):
    """Every text of up to five characters, given to VAL."""
    ls = some(rng, texts("1.e-+ ", 4), n) + some(rng, texts("05.E-+x ", 5, 5), n // 2)
    return packed("short-val", ["PRINT VAL(\"%s\")" % l for l in ls], 40)


# ------------------------------------------------------------------ C11: input lines; C12: data
def s11_lines(rng, n):
    """Every answer of up to four characters, to several INPUT statements."""
    res = []
    for items, show in (("A", "A"), ("A$", "\"[\";A$;\"]\""), ("A,B$", "A;\"[\";B$;\"]\""), ("A$,B", "\"[\";A$;\"]\";B"), ("A,B", "A;B"), ("D(I),A$", "D(I);\"[\";A$;\"]\"")):
        ls = some(rng, texts("1, -a\".", 4), n)
        for i in range(0, len(ls), 40):
            p = ["10 I=I+1:INPUT %s:PRINT %s" % (items, show), "15 IF I=10 THEN I=0", "20 GOTO 10"]
            res += prog_file("short-answers", p, script=lines(*ls[i:i + 40]), fuel=900)
    ls = some(rng, texts("1,\t \"", 4), n // 2)
    for i in range(0, len(ls), 40):
        res += prog_file("short-lines", ["10 LINE INPUT \"p\";A$:PRINT LEN(A$);\"[\";A$;\"]\":GOTO 10"], script=lines(*ls[i:i + 40]), fuel=900)
    return res


def s12_items(rng, n):
    """Every text of up to five characters after DATA, in a program and in an immediate line."""
    ls = some(rng, texts("1 ,\"a:", 4), n) + some(rng, texts("1 ,\"\t-.", 5, 5), n // 2)
    res = packed("short-data", ["READ A$:PRINT \"[\";A$;\"]\";:READ B$:PRINT \"[\";B$;\"]\":DATA %s" % l for l in ls], 40, before=["10 DATA p1,p2"])
    for l in some(rng, ls, n // 8):
        if ":" not in l:
            res += prog_file("short-data-program", ["10 READ A$:PRINT \"[\";A$;\"]\";", "20 GOTO 10", "30 DATA %s" % l, "40 DATA z"], fuel=200)
            res += prog_file("short-data-program", ["10 READ A:PRINT A;", "20 GOTO 10", "30 DATA %s" % l], fuel=200)
    return res


# ------------------------------------------------------------------ C13, C15: command arguments
PROG13 = ["1 PRINT 1", "2 PRINT 2", "10 PRINT 10", "12 GOTO 2", "20 PRINT 20", "21 REM"]


def s13_lists(rng, n):
    """LIST with every argument of up to five characters."""
    ls = some(rng, texts("12 -p,0", 4), n) + some(rng, texts("12-0P ", 5, 5), n // 2)
    return packed("short-list", ["LIST " + l for l in ls] + ["LIST" + l for l in some(rng, ls, n // 4)], 40, before=PROG13)


def s13_lines(rng, n):
    """Every line of up to four characters beginning with a blank or a figure: an edit, or nothing."""
    ls = some(rng, [x for x in texts("12 :0a\t", 4, 1) if x.strip()[:1].isdigit() or x.strip() == ""], n)
    return packed("short-edits", ls, 30, before=PROG13, after=["LIST", "RUN"])


def s15_args(rng, n):
    """RENUM with every argument of up to five characters."""
    ls = [x for x in texts("1250,", 5) if " ," not in x]
    return packed("short-renum", [["RENUM " + l, "LIST"] for l in some(rng, ls, n)], 8, before=["10 PRINT \"a\":GOTO 20", "20 IF A THEN 10 ELSE 25", "25 ON A GOTO 10,20,50:RESTORE 20", "50 GOSUB 25"], fuel=100)


# ------------------------------------------------------------------ C14: files
def s14_files(rng, n):
    """Files of up to five characters, loaded, listed and saved."""
    res = []
    ls = some(rng, texts("12 \n\ra", 4), n) + some(rng, texts("1 \n:a2", 6, 5), n // 2)
    for i in range(0, len(ls), 16):
        fs = {"f%d" % k: t for k, t in enumerate(ls[i:i + 16])}
        sc = [["5 REM kept"]]
        for f in fs:
            sc += [["LOAD \"%s\"" % f], ["LIST"]] + ([["SAVE \"s%s\"" % f]] if rng.random() < .3 else [])
        res.append(session("short-files", sc, files=fs, fuel=300))
    for t in some(rng, ls, n // 8):
        res.append(session("short-file-run", [], what="run", file="p", files={"p": t}, fuel=200))
    return res


# ------------------------------------------------------------------ C06, C09: all small cases
def s09_cuts(rng, n):
    """LEFT$, RIGHT$ and MID$ of every string up to five characters with every argument about its length."""
    ex = []
    for s in ("", "a", "ab", "abc", "abcde"):
        for i in range(-1, len(s) + 3):
            ex += ["\"[\";LEFT$(\"%s\",%d);\"]\"" % (s, i), "\"[\";RIGHT$(\"%s\",%d);\"]\"" % (s, i)]
            for j in range(-1, len(s) + 3):
                ex.append("\"[\";MID$(\"%s\",%d,%d);\"]\"" % (s, i, j))
    for s in texts("ab ", 3):
        for t in texts("ab ", 2):
            ex.append("\"%s\"<\"%s\";\"%s\"=\"%s\";\"%s\">=\"%s\"" % (s, t, s, t, s, t))
    return packed("short-strings", ["PRINT " + e for e in ex], 40)


# ------------------------------------------------------------------ short programs
def sequences(rng, fam, stmts, upto, n, before, end="", size=20, fuel=300, run="RUN", longer=(5, 6)):
    """Every sequence of up to so many of the statements, in one line of a program, run."""
    ws = some(rng, strings(stmts, upto, 2), n) + [[rng.choice(stmts) for _ in range(k)] for k in longer for _ in range(n // 8)]
    return packed(fam, [["50 " + ":".join(w) + end, run] for w in ws], size, before=before, fuel=fuel)


def s03_sequences(rng, n):
    return sequences(rng, "short-loops", ["FOR I=1 TO 2", "FOR J=3 TO 1 STEP -2", "FOR I=5 TO 1", "NEXT", "NEXT I", "NEXT J", "NEXT J,I", "PRINT I;J;", "I=I+1", "T=T+1:IF T<5 THEN 40", "READ Z:CLEAR"], 4, n, ["30 DATA 1,2,3,4", "40 PRINT \"/\";", "60 PRINT \"e\";I;J"], end=":PRINT \".\";")


def s04_sequences(rng, n):
    return sequences(rng, "short-calls", ["GOSUB 100", "GOSUB 200", "RETURN", "PRINT T;", "T=T+1:IF T<4 THEN GOSUB 40", "ON T GOSUB 100,200", "FOR I=1 TO 2", "NEXT", "GOSUB 999", "T=1"], 4, n, ["40 PRINT \"/\";", "60 PRINT \"e\";T:END", "100 PRINT \"a\";:RETURN", "200 PRINT \"b\";:GOSUB 100:PRINT \"c\";:RETURN"], end=":PRINT \".\";")


def s05_sequences(rng, n):
    return sequences(rng, "short-names", ["A=1", "a$=\"s\"", "A$=A$+\"t\"", "AB=A+2", "PRINT A;AB;A$;A(1)", "A(1)=A+3", "CLEAR", "A=A(1)", "LET a=A+10", "A$(1)=A$", "PRINT A$(1)", "B=A:A=0"], 4, n, ["40 PRINT \"/\";"], end=":PRINT A;a$;AB;A(1);A$(1)")


def s06_sequences(rng, n):
    return sequences(rng, "short-arrays", ["DIM A(2)", "DIM A(1,1)", "A(1)=A(1)+1", "A(3)=7", "A(1,1)=5", "PRINT A(1);", "PRINT A(1,1);", "CLEAR", "DIM A(0)", "A(11)=2", "DIM B(1),A(3)", "DIM A(-1)"], 4, n, ["40 PRINT \"/\";"], end=":PRINT A(1)") + \
        sequences(rng, "short-arrays", ["DIM A$(2)", "A$(1)=A$(1)+\"q\"", "A$(3)=\"z\"", "PRINT A$(1);", "CLEAR", "A$(2)=A$(1)", "DIM A$(1,2)", "A$(1,2)=\"y\"", "PRINT A$(1,2);"], 4, n // 2, ["40 PRINT \"/\";"], end=":PRINT A$(1)")


def s07_sequences(rng, n):
    return sequences(rng, "short-functions", ["DEF F(X)=X*2", "DEF F(Y)=X+Y", "DEF G(X)=F(X)+1", "PRINT F(3);", "X=5", "PRINT X;Y;", "PRINT G(1);", "CLEAR", "Y=F(X)", "DEF H$(X)=A$+STR$(X)", "A$=H$(4)", "DEF F(X)=1/A", "DEF F(X)=LOG(X)", "PRINT F(-1);"], 4, n, ["40 PRINT \"/\";"], end=":PRINT F(2);X;Y;A$")


def s12_sequences(rng, n):
    return sequences(rng, "short-reads", ["READ A", "READ A$", "READ A,B", "RESTORE", "RESTORE 60", "RESTORE 45", "DATA 5,x", "PRINT A;B;A$;", "READ D(1)", "READ A$,B$", "DATA \"q\"", "RESTORE 70", "DIM D(2)"], 4, n, ["40 PRINT \"/\";", "45 DATA 1,2", "60 DATA t,3", "70 DATA 4"], end=":PRINT A;A$;B$;D(1)")


def s16_sequences(rng, n):
    """Every sequence of up to four commands around a STOP."""
    cs = ["RUN", "CONT", "X=X+10", "PRINT X", "GOTO 50", "60 PRINT \"new\"", "60", "STOP", "GOSUB 80", "PRINT 1/LOG(0)", "COMPILE", "LIST 50", "FOR I=1 TO 2:PRINT I;:NEXT", "CLEAR", "RETURN", "NEXT", "END", "RENUM 40"]
    ws = some(rng, strings(cs, 3, 1), n) + [[rng.choice(cs) for _ in range(k)] for k in (4, 5) for _ in range(n // 4)]
    p = ["10 FOR I=1 TO 2:GOSUB 80:NEXT", "50 X=X+1:PRINT \"p\";X;:STOP:PRINT \"q\";X;I", "60 PRINT \"r\"", "70 END", "80 PRINT \"s\";:STOP:PRINT \"t\";:RETURN"]
    return packed("short-stops", [["NEW"] + p + ["RUN"] + list(w) + ["CONT"] for w in ws], 6, fuel=300)


def s17_sequences(rng, n):
    cs = ["GOSUB 100", "RETURN", "NEXT", "FOR I=1 TO 2", "PRINT LOG(0)", "PRINT F(0)", "A$=MID$(\"a\",3,1)", "READ A", "X=A(99,99)", "DEF F(X)=LOG(X)", "GOTO 999", "PRINT 1+(2*ASC(CHR$(999)))", "NEXT I", "PRINT \"a\"+STR$(LOG(0))"]
    ws = some(rng, strings(cs, 3, 1), n) + [[rng.choice(cs) for _ in range(k)] for k in (4, 5, 6) for _ in range(n // 6)]
    return packed("short-failures", [list(w) + ["RUN", "PRINT 5;F(3);I"] for w in ws], 12, before=["10 FOR J=1 TO 2:GOSUB 100:PRINT J;:NEXT", "20 READ B:PRINT B", "30 END", "90 DATA 6", "100 PRINT \"g\";:RETURN"], fuel=300)


MORE = {
    "C01": [(s01_triples, 20000)],
    "C02": [(s02_ifs, 4000)],
    "C03": [(s03_sequences, 2500)],
    "C04": [(s04_sequences, 2500)],
    "C05": [(s05_sequences, 2500)],
    "C06": [(s06_sequences, 2500)],
    "C07": [(s07_sequences, 2500)],
    "C08": [(s08_values, 8000)],
    "C09": [(s09_cuts, 1)],
    "C10": [(s10_prints, 7000)],
    "C11": [(s11_lines, 1500)],
    "C12": [(s12_items, 4000), (s12_sequences, 2500)],
    "C13": [(s13_lists, 6000), (s13_lines, 4000)],
    "C14": [(s14_files, 4000)],
    "C15": [(s15_args, 3000)],
    "C16": [(s16_sequences, 900)],
    "C17": [(s17_sequences, 1500)],
    "C20": [(s20_numbers, 8000)],
}
for pid, fs in MORE.items():
    PROPS[pid].families += fs
