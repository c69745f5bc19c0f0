10 FOR I=2 TO 40
20 FOR J=2 TO SQR(I)
30 IF I/J=INT(I/J) THEN 60
40 NEXT J
50 PRINT I;
60 NEXT I
70 PRINT
80 PRINT "last";I;J
