CONSTANTS NR = 5
 NC = 4
 DR = 3
 DC = 4
 Aggr = TRUE
SPECIFICATION Spec
INVARIANTS Structure ScoreBound ScoreExact RowsOK Classes Once TailOK
CHECK_DEADLOCK FALSE
