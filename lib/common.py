"""Pieces of Basic text made at random."""
import re

INTS = ["0", "1", "2", "3", "4", "5", "7", "8", "10", "12", "16", "100", "255", "256", "1000", "32767", "65536"]
FRACS = ["0.5", "1.5", ".25", "2.", "3.75", "0.1", "1E3", "1e-3", "12.5", "1E10", "123456789", "1E-7", "0.3"]
NVARS = ["A", "B", "C", "X", "Y"]
SVARS = ["A$", "B$", "S$"]
WORDS = ["", "a", "ab", "abc", "hello", "Hello", "x y", " ", "B", "Zz", "hello world", "12", "-3.5", "1e2", "~", "!", "A,B", "it's"]

# binary operators by level, loosest first
LEVELS = [["OR"], ["AND"], ["="], ["<"], ["+"]]


def num_leaf(rng, ints=False):
    k = rng.random()
    if k < 0.5:
        return rng.choice(INTS[:9] if ints or rng.random() < 0.7 else INTS)
    if k < 0.62 and not ints:
        return rng.choice(FRACS)
    return rng.choice(NVARS)


def paren(rng, t, p=0.25):
    return "(" + t + ")" if rng.random() < p else t


def num(rng, d=2, ints=False, strs=True):
    """A numeric expression; without `ints` its value may be anything."""
    if d <= 0:
        return num_leaf(rng, ints)
    k = rng.random()
    if k < 0.18:
        return num_leaf(rng, ints)
    if k < 0.62:
        op = rng.choice("+ - * + - * /".split() + ([] if ints else ["^"]))
        a, b = num(rng, d - 1, ints, strs), num(rng, d - 1, ints, strs)
        return paren(rng, a) + op + paren(rng, b)
    if k < 0.70:
        return "-" + paren(rng, num(rng, d - 1, ints, strs), 0.4)
    if k < 0.82:
        return "(" + cond(rng, d - 1, strs) + ")"
    f = rng.choice(["ABS", "INT", "SGN", "INT", "ABS", "LEN", "ASC", "VAL"] + ([] if ints else ["SQR"]))
    if f in ("LEN", "ASC"):
        return "%s(%s)" % (f, string(rng, d - 1)) if strs else "ABS(%s)" % num(rng, d - 1, ints, strs)
    if f == "VAL":
        return "VAL(STR$(%s))" % num(rng, d - 1, ints, strs) if strs else "INT(%s)" % num(rng, d - 1, ints, strs)
    if f == "SQR":
        return "SQR(ABS(%s))" % num(rng, d - 1, ints, strs)
    return "%s(%s)" % (f, num(rng, d - 1, ints, strs))


def cond(rng, d=1, strs=True):
    """A truth value."""
    k = rng.random()
    if k < 0.6 or d <= 0:
        op = rng.choice(["=", "<>", "<", ">", "<=", ">="])
        if strs and rng.random() < 0.25:
            return "%s%s%s" % (string(rng, d - 1), op, string(rng, d - 1))
        return "%s%s%s" % (num(rng, d - 1, True, strs), op, num(rng, d - 1, True, strs))
    if k < 0.72:
        return "NOT (%s)" % cond(rng, d - 1, strs)
    return "%s %s %s" % (paren(rng, cond(rng, d - 1, strs), .3), rng.choice(["AND", "OR"]), paren(rng, cond(rng, d - 1, strs), .3))


def quoted(w):
    return '"%s"' % w


def string(rng, d=1):
    k = rng.random()
    if d <= 0 or k < 0.35:
        return quoted(rng.choice(WORDS)) if rng.random() < 0.5 else rng.choice(SVARS)
    if k < 0.60:
        return "%s+%s" % (string(rng, d - 1), string(rng, d - 1))
    if k < 0.72:
        return "%s(%s,%s)" % (rng.choice(["LEFT$", "RIGHT$"]), string(rng, d - 1), rng.choice(["0", "1", "2", "3", "9"]))
    if k < 0.80:
        return "MID$(%s,1,%s)" % (string(rng, d - 1), rng.choice(["0", "1", "2", "9"])) if rng.random() < .3 else \
            "MID$(\"x\"+%s,%s,%s)" % (string(rng, d - 1), rng.choice(["1", "1", "2"]), rng.choice(["0", "1", "2", "9"]))
    if k < 0.90:
        return "STR$(%s)" % num(rng, d - 1)
    return "CHR$(%s)" % rng.choice(["65", "97", "48", "32+%s" % rng.randint(0, 90)])


TOKEN = re.compile(r'"[^"]*"?|[A-Za-z][A-Za-z0-9]*\$?|(?:\d+\.?\d*|\.\d+)(?:[eE]-?\d+)?|<>|<=|>=|\S')


def tokens(t):
    return TOKEN.findall(t)


# valid statements of every kind and form
STATEMENTS = [
    'PRINT', 'PRINT 1', 'PRINT A,B;C$', 'PRINT "a";TAB(5);"b";SPC(2);', '? A', 'PRINT A B', 'PRINT -A^2+B*(C-1)/4',
    'LET A=1', 'A=A+1', 'A$="x"+B$', 'LET A(1)=2', 'A(1,2)=A+B(3)', 'A$(2)=LEFT$(B$,2)', 'A=B=C', 'A=NOT B AND C OR D',
    'A=(B<C)+(D>=E)-(F<>G)', 'A=A$<B$', 'A=ABS(-1)+INT(2.5)', 'A=RND', 'A=RND(1)', 'A=RND()', 'A=RND("x")', 'A$=MID$(B$,1,2)+CHR$(65)+STR$(5)',
    'A=LEN(A$)+ASC("A")+VAL("1")', 'A$=RIGHT$(A$,1)', 'A=SQR(4)+SIN(0)+COS(0)+TAN(0)+ATN(0)+EXP(0)+LOG(1)+SGN(-2)',
    'IF A THEN 30', 'IF A=1 THEN PRINT "y"', 'IF A THEN 30 ELSE 40', 'IF A THEN PRINT 1 ELSE PRINT 2', 'IF A THEN PRINT 1:PRINT 2 ELSE B=1:C=2',
    'IF A THEN IF B THEN 30 ELSE 40 ELSE C=2', 'IF A THEN GOTO 30 ELSE GOSUB 40', 'IF A$="x" THEN END ELSE STOP',
    'GOTO 30', 'GOSUB 40', 'RETURN', 'END', 'STOP', 'CLEAR', 'CLS', 'REM anything "here" (', 'REM',
    'ON A GOTO 30', 'ON A+1 GOTO 30,40', 'ON A GOSUB 30,40,30', 'FOR I=1 TO 3', 'FOR I=A TO B STEP C', 'FOR I=3 TO 1 STEP -1:NEXT',
    'NEXT', 'NEXT I', 'NEXT I,J', 'DIM A(3)', 'DIM A(3),B$(2,3),C(N+1)', 'DEF FNA(X)=X+1', 'DEF FNA$(X)=STR$(X)', 'DEF F(X)=X*A(2)',
    'A=FNA(2)', 'PRINT FNA$(1)', 'DATA 1,2,3', 'DATA "a b", c d , 4', 'READ A', 'READ A,B$,C(1)', 'RESTORE', 'RESTORE 30',
    'INPUT A', 'INPUT "name";A$', 'INPUT "x",A,B$,C(2)', 'LINE INPUT A$', 'LINE INPUT "p";A$(1)', 'RANDOMIZE 5',
    'PRINT 1:PRINT 2', ':', 'PRINT 1:', ': :PRINT 1', 'A=1:IF A THEN 30', 'PRINT (1)', 'PRINT ((A))', 'PRINT "a"+"b"', 'PRINT 1=1',
    'A=--1', 'A=NOT NOT 1', 'A=2^3^2', 'A=-2^-2', 'PRINT A$;B$,', 'PRINT ,A', 'PRINT ;;', 'PRINT .5;1.;1E2;1E-2;0',
]
# what is put into them to break them
POOL = ['(', ')', ',', ';', ':', '=', '+', '-', '*', '/', '^', '<', '>', '<>', '<=', '>=', '1', '2.5', '0', '65536', '65535', '1E2', 'A', 'B$', 'A$', 'FNA',
        '"s"', 'LEN', 'CHR$', 'RND', 'TAB', 'SPC', 'AND', 'OR', 'NOT', 'THEN', 'ELSE', 'TO', 'STEP', 'GOTO', 'GOSUB', 'IF', 'FOR', 'NEXT', 'PRINT',
        'LET', 'DATA', 'REM', 'END', 'INPUT', 'LINE', 'ON', 'DIM', 'DEF', 'READ', 'RESTORE', '?', '!', '#', '%', '&', '@', '[', '$', '_', '\'', '.', '"open',
        'HEX$', 'INKEY$', 'FIX', 'STOP', 'RETURN', 'CLEAR', 'RANDOMIZE', '1.2.3', '1E', '1E-', 'A1', 'PRINTX', 'GOTOX', 'TO1']


def mutate(rng, stmt):
    ts = tokens(stmt)
    i = rng.randrange(len(ts)) if ts else 0
    k = rng.random()
    if not ts or k < 0.25:
        ts.insert(rng.randint(0, len(ts)), rng.choice(POOL))
    elif k < 0.45:
        del ts[i]
    elif k < 0.75:
        ts[i] = rng.choice(POOL)
    elif k < 0.83:
        ts.insert(i, ts[i])
    elif k < 0.91:
        ts = ts[:i]
    else:
        j = rng.randrange(len(ts))
        ts[i], ts[j] = ts[j], ts[i]
    return " ".join(ts)
