10 REM find and replace, palindromes, counting
20 S$="the cat sat on the mat":F$="the":R$="a"
30 P=1
40 IF P>LEN(S$)-LEN(F$)+1 THEN 80
50 IF MID$(S$,P,LEN(F$))<>F$ THEN P=P+1:GOTO 40
60 IF P=1 THEN S$=R$+RIGHT$(S$,LEN(S$)-LEN(F$)) ELSE S$=LEFT$(S$,P-1)+R$+RIGHT$(S$,LEN(S$)-P-LEN(F$)+1)
70 P=P+LEN(R$):GOTO 40
80 PRINT S$
90 FOR K=1 TO 3:READ W$
100 F=-1
110 FOR I=1 TO LEN(W$)/2
120 IF MID$(W$,I,1)<>MID$(W$,LEN(W$)-I+1,1) THEN F=0
130 NEXT I
140 IF F THEN PRINT W$;" is" ELSE PRINT W$;" is not"
150 NEXT K
160 DATA level,ab,"x"
170 A$="":FOR I=65 TO 90 STEP 5:A$=A$+CHR$(I)+STR$(I):NEXT:PRINT A$;LEN(A$);VAL("12.5")+1;ASC(A$)
