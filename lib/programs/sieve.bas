10 REM SIEVE OF ERATOSTHENES
20 MAX = 60
30 DIM SIEVE(MAX)
40 N = 2
100 REM SIEVE MULTIPLES OF N
110 I = N + N
120 IF I > MAX THEN 200
130 SIEVE(I) = 1
140 I = I + N
150 GOTO 120
200 REM FIND NEXT UNSIEVED NUMBER (NEXT PRIME)
210 N = N + 1
220 IF N > MAX THEN 300
230 IF SIEVE(N) THEN 210
240 GOTO 100
300 REM PRINT PRIMES
310 FOR I = 2 TO MAX
320 IF SIEVE(I)=0 THEN PRINT I;
330 NEXT I
340 PRINT
400 END
