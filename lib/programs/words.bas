10 REM words, letters and vowels of a line; the line backwards
20 LINE INPUT "Text: ";L$
30 IF L$="" THEN PRINT "done":END
40 W=0:V=0:R$="":P$=" "
50 FOR I=1 TO LEN(L$)
60 C$=MID$(L$,I,1)
70 IF C$<>" " AND P$=" " THEN W=W+1
80 GOSUB 200
90 R$=C$+R$:P$=C$
100 NEXT
110 PRINT W;"words";V;"vowels"
120 PRINT ">";R$;"<"
130 GOTO 20
200 FOR K=1 TO 5
210 IF C$=MID$("aeiou",K,1) THEN V=V+1
220 NEXT K
230 RETURN
; the quick brown fox|a|
; one, two: "three"|  in  |
