CONSTANTS NR = 4
 NC = 4
 DR = 4
 DC = 4
 Aggr = TRUE
SPECIFICATION Spec
INVARIANTS Structure ScoreBound ScoreExact RowsOK Classes Once TailOK
CHECK_DEADLOCK FALSE
