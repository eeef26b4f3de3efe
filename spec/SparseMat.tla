------------------------------ MODULE SparseMat ----------------------------
(***************************************************************************)
(* Sparse matrices by what they contain.  State: the matrix held (dense,   *)
(* rational), next to the sequence of stored entries <<row, col, value>>,  *)
(* zeros included; packing and unpacking must not change the matrix,       *)
(* however it is stored.  Nothing here depends on the unit the values are  *)
(* in: a suite states its unit 2^e, which is that of every value in it.    *)
(***************************************************************************)
EXTENDS LinAlg

\* a dense block at given rows and columns; repeated indices add up
Place(sub, rows, cols, n, m) ==
  Tab2(n, m, LAMBDA i, j :
    RSum(Tab(Len(rows), LAMBDA a :
      IF rows[a] # i THEN R0
      ELSE RSum(Tab(Len(cols), LAMBDA b : IF cols[b] = j THEN sub[a][b] ELSE R0)))))
\* the same from a list of stored entries
FromEntries(e, n, m) ==
  Tab2(n, m, LAMBDA i, j :
    RSum(Tab(Len(e), LAMBDA k : IF e[k][1] = i /\ e[k][2] = j THEN e[k][3] ELSE R0)))

SAfter(st, op) ==
  CASE op.op = "place" -> Place(op.sub, op.rows, op.cols, op.n, op.m)
    [] op.op = "entries" -> FromEntries(op.e, op.n, op.m)
    [] op.op = "add" -> MAdd(st, Place(op.sub, op.rows, op.cols, Len(st), Len(st[1])))
    [] op.op = "erase" -> [st EXCEPT ![op.i][op.j] = R0]
    [] OTHER -> st
\* what a call that only looks returns
SResult(st, op) ==
  CASE op.op = "times" -> IF op.left THEN MatMul(op.B, st) ELSE MatMul(st, op.B)
    [] OTHER -> <<>>
Total(A) == RSum(Tab(NRows(A), LAMBDA i : RSum(A[i])))
=============================================================================
