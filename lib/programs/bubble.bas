10 READ N:DIM A(N),N$(N)
20 FOR I=1 TO N:READ N$(I),A(I):NEXT I
30 GOSUB 200
40 FOR I=1 TO N-1
50 F=0
60 FOR J=1 TO N-I
70 IF A(J)>A(J+1) THEN T=A(J):A(J)=A(J+1):A(J+1)=T:T$=N$(J):N$(J)=N$(J+1):N$(J+1)=T$:F=1
80 NEXT J
90 IF F=0 THEN 110
100 NEXT I
110 GOSUB 200
120 RESTORE 310:READ A$,B:PRINT A$;B
130 END
200 FOR K=1 TO N
210 PRINT N$(K);TAB(10);A(K),A(K)*2
220 NEXT K
230 PRINT
240 RETURN
300 DATA 6
310 DATA pear,5,apple,3,"fig, dried",9
320 DATA plum,-1, kiwi ,3.5,lime,0
