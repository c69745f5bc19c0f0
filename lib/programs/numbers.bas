10 DEF FNF(X)=X*X-2
20 DEF FND(X)=2*X
30 X=1
40 FOR I=1 TO 6:X=X-FNF(X)/FND(X):PRINT X:NEXT
50 PRINT "Fibonacci";
60 A=0:B=1
70 IF A>200 THEN PRINT:GOTO 100
80 PRINT A;:T=A+B:A=B:B=T
90 GOTO 70
100 A=1071:B=462
110 IF B<>0 THEN T=A-B*INT(A/B):A=B:B=T:GOTO 110
120 PRINT "gcd";A
130 N=27:S=0
140 IF N=1 OR S>=20 THEN PRINT "steps";S;N:GOTO 170
150 IF N/2=INT(N/2) THEN N=N/2 ELSE N=3*N+1
160 S=S+1:GOTO 140
170 FOR C=-10 TO 30 STEP 10:PRINT C;"C is";C*9/5+32;"F":NEXT C
180 FOR I=10 TO 0 STEP -2.5:PRINT I;ABS(I-5);SGN(I-5);:NEXT
190 PRINT:PRINT 2^10;-2^2;(1>2) OR NOT 0;7 AND 3;INT(-1.5)
