10 REM a chart
20 FOR X=0 TO 8
30 Y=INT(X*X/4)
40 PRINT X;TAB(8);"|";SPC(Y);"*"
50 NEXT X
60 FOR I=1 TO 12:PRINT "-";:NEXT I
70 PRINT:PRINT "a","bb","ccc"
80 PRINT TAB(5);"five";TAB(3);"three"
90 PRINT "no end";
100 PRINT ;
110 PRINT ", joined"
