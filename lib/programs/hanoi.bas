10 DIM A(20),B(20),C(20),N(20)
20 P=1:N(1)=3:A(1)=1:B(1)=2:C(1)=3
30 GOSUB 100
40 PRINT "moves";M
50 END
100 IF N(P)=0 THEN RETURN
110 P=P+1:N(P)=N(P-1)-1:A(P)=A(P-1):B(P)=C(P-1):C(P)=B(P-1):GOSUB 100:P=P-1
120 M=M+1:PRINT MID$("ABC",A(P),1);"->";MID$("ABC",C(P),1);" ";
130 P=P+1:N(P)=N(P-1)-1:A(P)=B(P-1):B(P)=A(P-1):C(P)=C(P-1):GOSUB 100:P=P-1
140 RETURN
