10 DEF FNR(X)=X-26*INT(X/26)
20 INPUT "Key, word";K,W$
30 IF K=0 THEN 100
40 E$=""
50 FOR I=1 TO LEN(W$)
60 C=ASC(MID$(W$,I,1))
70 IF C<65 OR C>90 THEN E$=E$+CHR$(C) ELSE E$=E$+CHR$(65+FNR(C-65+K))
80 NEXT I
90 PRINT W$;" -> ";E$:GOTO 20
100 PRINT "end"
; 3,HELLO|-3,KHOOR|13,Ab CZ|0,x
; 1|2,YZ|29,A,B|"q",C|0,
