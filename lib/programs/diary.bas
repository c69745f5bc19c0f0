10 DATA 31,28,31,30,31,30,31,31,30,31,30,31
20 DATA Mon,Tue,Wed,Thu,Fri,Sat,Sun
30 INPUT "Day, month";D,M
40 IF M=0 THEN END
50 IF M<1 OR M>12 OR M<>INT(M) THEN PRINT "No such month":GOTO 30
60 RESTORE:T=0
70 IF M>1 THEN FOR I=1 TO M-1:READ L:T=T+L:NEXT
80 READ L
90 IF D<1 OR D>L THEN PRINT "That month has";L;"days":GOTO 30
100 T=T+D
110 RESTORE 20
120 W=T-7*INT(T/7):FOR I=0 TO W:READ D$:NEXT
130 PRINT "Day";T;"of the year, a ";D$
140 GOTO 30
; 1,1|28,2|29,2|31,12|5,13|0,0
; 15,6|15|6|15,6,7|x,1|,|1, 7|0,0
