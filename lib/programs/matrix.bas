10 DIM A(2,2),B(2,2),C(2,2)
20 FOR I=0 TO 2:FOR J=0 TO 2:READ A(I,J):B(J,I)=A(I,J)+I-J:NEXT:NEXT
30 FOR I=0 TO 2:FOR J=0 TO 2
40 S=0
50 FOR K=0 TO 2:S=S+A(I,K)*B(K,J):NEXT K
60 C(I,J)=S
70 NEXT J,I
80 FOR I=0 TO 2:FOR J=0 TO 2:PRINT C(I,J),:NEXT J:PRINT:NEXT I
90 DIM C(1,1):PRINT C(1,1);C(0,0):PRINT C(2,2)
100 DATA 1,2,3,4,5,6,7,8,9
