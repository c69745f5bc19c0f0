10 REM an account
20 B=100
30 PRINT "1 pay in","2 draw out","3 balance","4 stop"
40 INPUT C
50 ON C GOSUB 100,200,300,400
60 IF C<1 OR C>4 THEN PRINT "no such choice"
70 GOTO 40
100 INPUT "How much";X:IF X<=0 THEN PRINT "No":RETURN
110 B=B+X
120 RETURN
200 INPUT "How much";X
210 IF X>B THEN PRINT "Not enough; you have";B:RETURN ELSE B=B-X
220 RETURN
300 PRINT "Balance:";B;TAB(20);"Interest:";INT(B*.05*100+.5)/100
310 RETURN
400 PRINT "Goodbye":STOP
; 3|1|50.25|3|2|1000|2|20.5|3|7|4
; 0|1|-5|1|x|3|2.5|3|-1|4
