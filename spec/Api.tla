--------------------------------- MODULE Api ---------------------------------
(* The library's other entry points: value sameness, result-set union and     *)
(* products, and pattern expressions evaluated relative to a node.            *)
EXTENDS Match

\* product of a sequence of row sets: one row from each, later sets win on a shared name
RECURSIVE Product(_)
Product(sets) ==
  IF sets = <<>> THEN <<EmptyFn>>
  ELSE LET rest == Product(SubSeq(sets, 1, Len(sets) - 1))
           last == Last1(sets)
       IN Concat([i \in 1..Len(rest) |-> [j \in 1..Len(last) |-> Over(rest[i], last[j])]])

\* an empty set empties the product, unless all = TRUE, when it is left out
CartesianOf(sets, all) ==
  IF all THEN Product([i \in 1..Len(sets) |-> IF sets[i] = <<>> THEN <<EmptyFn>> ELSE sets[i]])
  ELSE Product(sets)

\* independent choice of each column's value over the rows
ColumnProduct(rows) ==
  IF rows = <<>> THEN <<>>
  ELSE LET cols == SetToSeq(DOMAIN rows[1])
       IN Product([c \in 1..Len(cols) |-> [j \in 1..Len(rows) |-> [x \in {cols[c]} |-> rows[j][cols[c]]]]])

Passes(row, flt) == IF flt = "" THEN TRUE ELSE flt \in DOMAIN row /\ ~IsNull(row[flt])

\* a row of b is added unless it is there already; the rows of a stay as they are
UnionOf(a, b, all) ==
  FoldLeft(LAMBDA acc, r : IF ~all /\ \E k \in 1..Len(acc) : SameRow(acc[k], r) THEN acc ELSE Append(acc, r), a, b)

\* A result set as it is built: its rows in order, and the nodes and edges it
\* has collected from them, from paths, and from result sets added to it.
RsEmpty == [rows |-> <<>>, nodes |-> {}, edges |-> {}]
NodesIn(row) == {row[x][2] : x \in {y \in DOMAIN row : row[y][1] = "node"}}
EdgesIn(row) == {row[x][2][1] : x \in {y \in DOMAIN row : row[y][1] = "rel"}}
RsAppend(rs, row) == [rows |-> Append(rs.rows, row), nodes |-> rs.nodes \cup NodesIn(row), edges |-> rs.edges \cup EdgesIn(row)]
RECURSIVE RsOf(_)
RsStep(rs, op) ==
  CASE op[1] = "append" -> RsAppend(rs, op[2])
    [] op[1] = "path" -> [rs EXCEPT !.nodes = @ \cup (IF op[2] < 0 THEN {} ELSE {op[2]}), !.edges = @ \cup Range1(op[3])]
    [] op[1] = "add" -> (LET src == RsOf(op[2])
                         IN [rows |-> rs.rows \o src.rows, nodes |-> rs.nodes \cup src.nodes, edges |-> rs.edges \cup src.edges])
    [] op[1] = "union" -> FoldLeft(LAMBDA acc, r : IF ~op[3] /\ \E k \in 1..Len(acc.rows) : SameRow(acc.rows[k], r) THEN acc ELSE RsAppend(acc, r),
                                   rs, RsOf(op[2]).rows)
RsOf(ops) == FoldLeft(RsStep, RsEmpty, ops)
RsColumn(rows, c) == LET has == SelectSeq(rows, LAMBDA r : c \in DOMAIN r) IN [k \in 1..Len(has) |-> has[k][c]]

\* nodes that 'target' can denote when 'this' is the given node, one per match
RelativeOf(part, node, gr) ==
  LET env == [row |-> EmptyFn, ctx |-> [x \in {"this"} |-> <<"node", node>>], par |-> EmptyFn,
              g |-> gr, filt |-> "none"]
      pm == PartsMatches(<<part>>, env)
  IN [k |-> pm.k,
      ids |-> Concat([i \in 1..Len(pm.rows) |->
                IF "target" \in DOMAIN pm.rows[i] /\ pm.rows[i]["target"][1] = "node"
                THEN <<pm.rows[i]["target"][2]>> ELSE <<>>])]

RECURSIVE Opaque(_)
Opaque(v) == v[1] = "fltx" \/ (IsList(v) /\ \E i \in 1..Len(v[2]) : Opaque(v[2][i]))

SameBag(s, t) == Len(s) = Len(t)
                 /\ \A k \in 1..Len(s) : Cardinality({j \in 1..Len(s) : SameRow(s[j], s[k])})
                                         = Cardinality({j \in 1..Len(t) : SameRow(t[j], s[k])})

ApiVerdict(e, gr) ==
  IF e.out.k = "panic" THEN "bad"
  ELSE CASE e.ev = "same" -> (IF Opaque(e.a) \/ Opaque(e.b) THEN "open"
                              ELSE IF e.out.k = "ok" /\ e.out.v = Same(e.a, e.b) THEN "ok" ELSE "bad")
         [] e.ev = "cart" -> (LET want == SelectSeq(CartesianOf(e.sets, e.all), LAMBDA r : Passes(r, e.flt))
                              IN IF e.out.k = "ok" /\ BagEq(e.out.rows, want) THEN "ok" ELSE "bad")
         [] e.ev = "colcart" -> (IF e.out.k = "ok" /\ BagEq(e.out.rows, ColumnProduct(e.rows)) THEN "ok" ELSE "bad")
         [] e.ev = "union" -> (IF e.out.k = "ok" /\ SameBag(e.out.rows, UnionOf(e.a, e.b, e.all)) THEN "ok" ELSE "bad")
         [] e.ev = "rset" -> (LET r == RsOf(e.ops)
                              IN IF /\ e.out.k = "ok"
                                    /\ Len(e.out.rows) = Len(r.rows) /\ \A k \in 1..Len(r.rows) : SameRow(e.out.rows[k], r.rows[k])
                                    /\ e.out.nodes = SetToSortSeq(r.nodes, <) /\ e.out.edges = SetToSortSeq(r.edges, <)
                                    /\ \A c \in DOMAIN e.out.columns :
                                         LET w == RsColumn(r.rows, c)
                                         IN Len(w) = Len(e.out.columns[c]) /\ \A k \in 1..Len(w) : Same(w[k], e.out.columns[c][k])
                                 THEN "ok" ELSE "bad")
         [] e.ev = "rel" -> (LET r == RelativeOf(e.part, e.node, gr)
                             IN IF r.k = "any" THEN "open"
                                ELSE IF r.k = "err" THEN (IF e.out.k = "err" THEN "ok" ELSE "bad")
                                ELSE IF e.out.k = "ok" /\ BagEq(e.out.ids, r.ids) THEN "ok" ELSE "bad")
=============================================================================
