CONSTANTS NR = 3
 NC = 6
 DR = 6
 DC = 3
 Aggr = TRUE
SPECIFICATION Spec
INVARIANTS Structure ScoreBound ScoreExact RowsOK Classes Once TailOK
CHECK_DEADLOCK FALSE
