10 REM guess the number
20 PRINT "I am thinking of a number from 1 to 100"
30 N=37:T=0
40 INPUT "Your guess";G
50 T=T+1
60 IF G<N THEN PRINT "Too low":GOTO 40
70 IF G>N THEN PRINT "Too high":GOTO 40
80 PRINT "Right, in";T;"tries"
90 INPUT "Again (Y/N)";A$
100 IF A$="Y" OR A$="y" THEN N=N*2-60:GOTO 30
110 IF LEFT$(A$,1)="N" THEN PRINT "Bye":END
120 PRINT "Yes or no?":GOTO 90
; 50|25|37|N
; 1|x|99|37|maybe|Y|14|37|N
; 37|No
