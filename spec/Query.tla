-------------------------------- MODULE Query --------------------------------
(* The effect of one query:  (graph, context) -> (graph', rows, bindings').   *)
(* env as in Exprs plus filt, the property filter in force ("none", "log" or  *)
(* "shift").  Execution is a fold over a working state                        *)
(*   st = [k |-> "ok"|"err"|"any", g, rows, log, next, width]                  *)
(* where log lists the <<key, value>> pairs handed to the property filter and *)
(* next is the next id for created nodes and edges (negative, so that created *)
(* entities are never confused with existing ones).                           *)
EXTENDS Match

FiltV(env, v) == IF env.filt = "shift" /\ v[1] \in {"int", "big"} THEN IntAdd(v, <<"int", 1000>>) ELSE v

RECURSIVE Storable(_)
Storable(v) == CASE IsList(v) -> \A i \in 1..Len(v[2]) : Storable(v[2][i])
                 [] IsMap(v) -> FALSE
                 [] v[1] \in {"node", "rel"} -> FALSE
                 [] OTHER -> TRUE

Fail(st) == [st EXCEPT !.k = "err"]
Unknown(st) == [st EXCEPT !.k = "any"]
Ok(st) == st.k = "ok"

\* keys with non-null values, filtered, plus the log entries
NonNull(m) == {k \in DOMAIN m : ~IsNull(m[k])}
Stored(m, env) == [k \in NonNull(m) |-> FiltV(env, m[k])]
LogOf(m) == LET ks == SetToSeq(NonNull(m)) IN [i \in 1..Len(ks) |-> <<ks[i], m[ks[i]]>>]

AddNode(st, labels, m, env) ==
  [st EXCEPT !.g.nodes = Over(@, [n \in {st.next} |-> [labels |-> Range1(labels), props |-> Stored(m, env)]]),
             !.log = @ \o LogOf(m), !.next = @ - 1]
AddEdge(st, from, to, label, m, env) ==
  [st EXCEPT !.g.edges = Over(@, [e \in {st.next} |-> [from |-> from, to |-> to, label |-> label,
                                                       props |-> Stored(m, env)]]),
             !.log = @ \o LogOf(m), !.next = @ - 1]

-----------------------------------------------------------------------------
(* CREATE.  acc = [st, b (the row so far), last (node id)]                    *)
WithEnv(env, st, b) == [env EXCEPT !.g = st.g, !.row = b]

CreateNodeP(acc, np, env) ==
  LET e == WithEnv(env, acc.st, acc.b)
      want == WantOf(np.props, e)
  IN IF ~Ok(acc.st) THEN acc
     ELSE IF IsBound(np.var, EmptyFn, e)
     THEN LET v == LookupVar(np.var, e)
          IN IF np.labels # <<>> \/ np.props[1] # "none" THEN [acc EXCEPT !.st = Fail(@)]
             ELSE IF v[1] # "node" THEN [acc EXCEPT !.st = Fail(@)]
             ELSE IF v[2] \notin DOMAIN acc.st.g.nodes THEN [acc EXCEPT !.st = Unknown(@)]
             ELSE [acc EXCEPT !.last = v[2]]
     ELSE IF IsErr(want) THEN [acc EXCEPT !.st = Fail(@)]
     ELSE IF IsOpen(want) THEN [acc EXCEPT !.st = Unknown(@)]
     ELSE IF \E k \in DOMAIN want[2] : ~Storable(want[2][k]) THEN [acc EXCEPT !.st = Unknown(@)]
     ELSE [st |-> AddNode(acc.st, np.labels, want[2], env),
           b |-> Bind(acc.b, np.var, <<"node", acc.st.next>>),
           last |-> acc.st.next, edges |-> acc.edges]

\* without an arrowhead, or with both, the relationship goes to the right; without a
\* type its type is the empty string
CreateRelP(acc, rp, from, to, env) ==
  LET e == WithEnv(env, acc.st, acc.b)
      want == WantOf(rp.props, e)
  IN IF ~Ok(acc.st) THEN acc
     ELSE IF ~SingleRel(rp) \/ Len(rp.types) > 1 THEN [acc EXCEPT !.st = Fail(@)]
     ELSE IF IsBound(rp.var, EmptyFn, e) THEN [acc EXCEPT !.st = Fail(@)]
     ELSE IF IsErr(want) THEN [acc EXCEPT !.st = Fail(@)]
     ELSE IF IsOpen(want) THEN [acc EXCEPT !.st = Unknown(@)]
     ELSE IF \E k \in DOMAIN want[2] : ~Storable(want[2][k]) THEN [acc EXCEPT !.st = Unknown(@)]
     ELSE [acc EXCEPT !.st = AddEdge(@, IF rp.dir = "in" THEN to ELSE from,
                                     IF rp.dir = "in" THEN from ELSE to, IF rp.types = <<>> THEN "" ELSE rp.types[1], want[2], env),
                      !.b = Bind(@, rp.var, <<"rel", <<acc.st.next>>>>),
                      !.edges = Append(@, acc.st.next)]

CreatePart(acc0, part, env) ==
  LET a1 == CreateNodeP([acc0 EXCEPT !.edges = <<>>], part.start, env)
      a2 == FoldLeft(LAMBDA a, i :
                       LET from == a.last
                           n == CreateNodeP(a, part.chain[i].node, env)
                           r == CreateRelP(n, part.chain[i].rel, from, n.last, env)
                       IN r, a1, [i \in 1..Len(part.chain) |-> i])
  IN IF ~Ok(a2.st) THEN a2
     ELSE [a2 EXCEPT !.b = Bind(@, part.var, IF a2.edges = <<>> THEN <<"node", a2.last>> ELSE RelV(a2.edges))]

CreateRow(st, row, parts, env) ==
  LET r == FoldLeft(LAMBDA a, i : IF Ok(a.st) THEN CreatePart(a, parts[i], env) ELSE a,
                    [st |-> st, b |-> row, last |-> 0, edges |-> <<>>], [i \in 1..Len(parts) |-> i])
  IN [st |-> r.st, rows |-> <<r.b>>]

-----------------------------------------------------------------------------
(* SET and REMOVE                                                            *)
SetNodeProp(st, n, k, v, env) ==
  IF IsNull(v) THEN [st EXCEPT !.g.nodes[n].props = Drop(@, {k})]
  ELSE [st EXCEPT !.g.nodes[n].props = Over(@, [x \in {k} |-> FiltV(env, v)]), !.log = Append(@, <<k, v>>)]
SetEdgeProp(st, r, k, v, env) ==
  IF IsNull(v) THEN [st EXCEPT !.g.edges[r].props = Drop(@, {k})]
  ELSE [st EXCEPT !.g.edges[r].props = Over(@, [x \in {k} |-> FiltV(env, v)]), !.log = Append(@, <<k, v>>)]

\* set (v) or remove (v = Null) property k of the value t
SetPropOf(st, t, k, v, env) ==
  IF ~Storable(v) THEN Unknown(st)
  ELSE CASE IsNull(t) -> st
         [] t[1] = "node" -> (IF t[2] \in DOMAIN st.g.nodes THEN SetNodeProp(st, t[2], k, v, env) ELSE Unknown(st))
         [] t[1] = "rel" -> (IF Len(t[2]) # 1 THEN Fail(st)
                             ELSE IF t[2][1] \in DOMAIN st.g.edges THEN SetEdgeProp(st, t[2][1], k, v, env)
                             ELSE Unknown(st))
         [] t[1] = "map" -> Unknown(st)
         [] OTHER -> Fail(st)

SetFrom(st, n, op, m, env) ==
  IF \E k \in DOMAIN m : ~Storable(m[k]) THEN Unknown(st)
  ELSE LET keep == IF op = "=" THEN EmptyFn ELSE Drop(st.g.nodes[n].props, DOMAIN m)
       IN [st EXCEPT !.g.nodes[n].props = Over(keep, Stored(m, env)), !.log = @ \o LogOf(m)]

SetItem(st, it, row, env) ==
  LET e == WithEnv(env, st, row)
      val == Ev(it[Len(it)], e)
      t == IF it[1] = "prop" THEN Ev(it[2], e) ELSE LookupVar(it[2], e)
  IN IF ~Ok(st) THEN st
     ELSE IF it[1] = "labels"
     THEN CASE IsErr(t) -> Fail(st)
            [] IsNull(t) -> st
            [] t[1] = "node" -> (IF t[2] \in DOMAIN st.g.nodes
                                 THEN [st EXCEPT !.g.nodes[t[2]].labels = @ \cup Range1(it[3])] ELSE Unknown(st))
            [] OTHER -> Fail(st)
     ELSE IF IsErr(t) \/ IsErr(val) THEN Fail(st)
     ELSE IF IsOpen(t) \/ IsOpen(val) THEN Unknown(st)
     ELSE IF it[1] = "prop" THEN SetPropOf(st, t, it[3], val, env)
     ELSE CASE IsNull(t) -> (IF IsMap(val) \/ val[1] = "node" THEN st ELSE Unknown(st))
            [] t[1] = "node" ->
                 (IF t[2] \notin DOMAIN st.g.nodes THEN Unknown(st)
                  ELSE IF IsMap(val) THEN SetFrom(st, t[2], it[1], val[2], env)
                  ELSE IF val[1] = "node" THEN (IF val[2] \in DOMAIN st.g.nodes
                       THEN SetFrom(st, t[2], it[1], st.g.nodes[val[2]].props, env) ELSE Unknown(st))
                  ELSE IF IsNull(val) \/ val[1] = "rel" THEN Unknown(st) ELSE Fail(st))
            [] t[1] = "rel" -> Unknown(st)
            [] OTHER -> Fail(st)

SetRow(st, row, items, env) ==
  FoldLeft(LAMBDA s, it : SetItem(s, it, row, env), st, items)

RemoveItem(st, it, row, env) ==
  LET e == WithEnv(env, st, row)
      t == IF it[1] = "prop" THEN Ev(it[2], e) ELSE LookupVar(it[2], e)
  IN IF ~Ok(st) THEN st
     ELSE IF IsErr(t) THEN Fail(st)
     ELSE IF IsOpen(t) THEN Unknown(st)
     ELSE IF it[1] = "prop" THEN SetPropOf(st, t, it[3], Null, env)
     ELSE CASE IsNull(t) -> st
            [] t[1] = "node" -> (IF t[2] \in DOMAIN st.g.nodes
                                 THEN [st EXCEPT !.g.nodes[t[2]].labels = @ \ Range1(it[3])] ELSE Unknown(st))
            [] OTHER -> Fail(st)
RemoveRow(st, row, items, env) ==
  FoldLeft(LAMBDA s, it : RemoveItem(s, it, row, env), st, items)

-----------------------------------------------------------------------------
(* DELETE: everything named by any row goes at once                           *)
DeleteAll(st, u, env) ==
  LET vals == TLCEval(Concat([i \in 1..Len(st.rows) |->
                [j \in 1..Len(u.exprs) |-> Ev(u.exprs[j], WithEnv(env, st, st.rows[i]))]]))
      nodes == {vals[i][2] : i \in {j \in 1..Len(vals) : vals[j][1] = "node"}}
      rels == UNION {Range1(vals[i][2]) : i \in {j \in 1..Len(vals) : vals[j][1] = "rel"}}
      attached == {e \in DOMAIN st.g.edges : st.g.edges[e].from \in nodes \/ st.g.edges[e].to \in nodes}
      gone == IF u.detach THEN rels \cup attached ELSE rels
  IN IF AnyErr(vals) THEN Fail(st)
     ELSE IF AnyOpen(vals) \/ \E i \in 1..Len(vals) : vals[i][1] \notin {"null", "node", "rel"} THEN Unknown(st)
     ELSE IF ~u.detach /\ ~(attached \subseteq rels) THEN Fail(st)
     ELSE [st EXCEPT !.g = [nodes |-> Drop(@.nodes, nodes), edges |-> Drop(@.edges, gone)]]

-----------------------------------------------------------------------------
(* The order of matched rows is not determined.  perm: the order in which they *)
(* are handed to the updating clauses (<<>> = as enumerated); where the length *)
(* does not fit, perm only tells whether the order is reversed.                *)
Permute(rows, perm) == IF perm = <<>> THEN rows
                       ELSE IF Len(perm) = Len(rows) THEN [i \in 1..Len(rows) |-> rows[perm[i]]]
                       ELSE IF perm[1] # 1 THEN [i \in 1..Len(rows) |-> rows[Len(rows) + 1 - i]]
                       ELSE rows

(* MERGE: row by row, match the pattern or create it as a whole               *)
MergeRow(st, row, u, env) ==
  LET e == WithEnv(env, st, row)
      pm == TLCEval(PartsMatches(<<u.part>>, e))
      wv == WantVals(PartWants(u.part, e))
      nullWant == pm.k = "ok" /\ \E i \in 1..Len(wv) : \E k \in DOMAIN wv[i][2] : IsNull(wv[i][2][k])
      found == Permute([i \in 1..Len(pm.rows) |-> Over(row, pm.rows[i])], env.perm)
      rels == PartRels(u.part)
      nodes == PartNodes(u.part)
      badCreate == \/ \E i \in 1..Len(nodes) : IsBound(nodes[i].var, EmptyFn, e)
                        /\ (nodes[i].labels # <<>> \/ nodes[i].props[1] # "none")
                   \/ \E i, j \in 1..Len(nodes) : i < j /\ nodes[i].var = nodes[j].var /\ nodes[i].var # ""
                   \/ \E i \in 1..Len(rels) : IsBound(rels[i].var, EmptyFn, e)
      created == TLCEval(CreateRow(st, row, <<u.part>>, env))
      acts(on) == Concat([i \in 1..Len(u.actions) |-> IF u.actions[i].on = on THEN u.actions[i].items ELSE <<>>])
      onMatch == SelectSeq(u.actions, LAMBDA a : a.on = "match")
      \* several ON MATCH SET over several rows: row by row or action by action
      byRow == TLCEval(FoldLeft(LAMBDA s, r : SetRow(s, r, acts("match"), env), st, found))
      byAction == IF Len(found) < 2 \/ Len(onMatch) < 2 THEN byRow
                  ELSE FoldLeft(LAMBDA s, a : FoldLeft(LAMBDA s2, r : SetRow(s2, r, a.items, env), s, found), st, onMatch)
  IN IF pm.k = "err" THEN [st |-> Fail(st), rows |-> <<>>]
     ELSE IF pm.k = "any" \/ nullWant THEN [st |-> Unknown(st), rows |-> <<>>]
     ELSE IF found # <<>>
     THEN [st |-> IF byRow.k = byAction.k /\ byRow.g = byAction.g THEN byRow ELSE Unknown(st), rows |-> found]
     ELSE IF badCreate THEN [st |-> Unknown(st), rows |-> <<>>]
     ELSE IF ~Ok(created.st) THEN created
     ELSE [st |-> SetRow(created.st, created.rows[1], acts("create"), env), rows |-> created.rows]

-----------------------------------------------------------------------------
\* run F(st, row) -> [st, rows] over all rows in order
PerRow(st, F(_, _)) ==
  LET r == FoldLeft(LAMBDA a, row : IF ~Ok(a.st) THEN a
                                    ELSE LET x == TLCEval(F(a.st, row)) IN [st |-> x.st, rows |-> a.rows \o x.rows],
                    [st |-> st, rows |-> <<>>], st.rows)
  IN [r.st EXCEPT !.rows = r.rows, !.width = Max2(@, Len(r.rows))]

Update(st, u, env) ==
  IF ~Ok(st) THEN st
  ELSE CASE u.k = "create" -> PerRow(st, LAMBDA s, row : CreateRow(s, row, u.parts, env))
         [] u.k = "merge" -> PerRow(st, LAMBDA s, row : MergeRow(s, row, u, env))
         [] u.k = "set" -> PerRow(st, LAMBDA s, row : [st |-> SetRow(s, row, u.items, env), rows |-> <<row>>])
         [] u.k = "remove" -> PerRow(st, LAMBDA s, row : [st |-> RemoveRow(s, row, u.items, env), rows |-> <<row>>])
         [] u.k = "delete" -> DeleteAll(st, u, env)

\* Variables that stay behind in the evaluation context: those of one row, all
\* of them (req) after a RETURN that projects something, else those bound by
\* CREATE and by a leading MERGE, and possibly the other ones of that row (opt).
NoLeak == [src |-> <<>>, req |-> {}, opt |-> {}]
BoundBy(u) == IF u.k = "create" THEN PatVars(u.parts) \cup ({u.parts[j].var : j \in 1..Len(u.parts)} \ {""})
              ELSE IF u.k = "merge" THEN PatVars(<<u.part>>) \cup ({u.part.var} \ {""}) ELSE {}
LeakOf(sq, rows, n) ==
  LET dom == UNION {DOMAIN rows[i] : i \in 1..Len(rows)}
      req == UNION {BoundBy(sq.upd[i]) : i \in {j \in 1..Len(sq.upd) :
                       sq.upd[j].k = "create" \/ (j = 1 /\ sq.read = <<>>)}}
      upd == \E i \in 1..Len(sq.upd) : sq.upd[i].k \in {"create", "merge"}
  IN IF sq.hasret /\ sq.ret.items # <<>> /\ n > 0 THEN [src |-> rows, req |-> dom, opt |-> {}]
     ELSE IF (upd \/ (sq.hasret /\ sq.ret.items # <<>>)) /\ rows # <<>> THEN [src |-> rows, req |-> req \cap dom, opt |-> dom \ req]
     ELSE NoLeak

-----------------------------------------------------------------------------
(* RETURN                                                                     *)
ColName(items, i) == IF items[i][2] = "" THEN ToString(i) ELSE items[i][2]
ProjRow(ret, row, env) ==
  LET vals == TLCEval([i \in 1..Len(ret.items) |-> Ev(ret.items[i][1], [env EXCEPT !.row = row])])
      cols == {ColName(ret.items, i) : i \in 1..Len(ret.items)}
      at(c) == vals[Max({i \in 1..Len(ret.items) : ColName(ret.items, i) = c})]
      items == [c \in cols |-> at(c)]
  IN [k |-> IF AnyErr(vals) THEN "err" ELSE IF AnyOpen(vals) THEN "any" ELSE "ok",
      row |-> IF ret.all THEN Over(row, items) ELSE items]

\* SKIP and LIMIT see the context only: "none", a count, "err" or "any"
CountOf(e, env) ==
  IF e[1] = "none" THEN -1
  ELSE LET v == Ev(e, [env EXCEPT !.row = EmptyFn])
       IN IF IsOpen(v) THEN -3 ELSE IF v[1] = "int" THEN (IF v[2] < 0 THEN -2 ELSE v[2])
          ELSE IF v[1] = "big" THEN -3 ELSE -2

\* walks of several edges: whether two of them are the same is left open
HasWalk(row) == \E k \in DOMAIN row : row[k][1] = "rel" /\ Len(row[k][2]) > 1
DedupOpen(rows) == \E i, j \in 1..Len(rows) : i < j /\ HasWalk(rows[i]) /\ SameRow(rows[i], rows[j])

\* result rows before SKIP/LIMIT, plus how many of them are to be returned
Project(st, ret, env) ==
  LET e == [env EXCEPT !.g = st.g]
      p == TLCEval([i \in 1..Len(st.rows) |-> ProjRow(ret, st.rows[i], e)])
      rows == TLCEval([i \in 1..Len(p) |-> p[i].row])
      rws == IF ret.distinct THEN DedupBy(SameRow, rows) ELSE rows
      skip == CountOf(ret.skip, e)
      limit == CountOf(ret.limit, e)
      rest == Max2(0, Len(rws) - Max2(0, skip))
      n == IF limit = -1 THEN rest ELSE Min2(rest, limit)
      limited == skip # -1 \/ limit # -1
  IN IF skip = -2 \/ limit = -2 THEN [k |-> "err"]
     ELSE IF skip = -3 \/ limit = -3 THEN [k |-> "any"]
     ELSE IF \E i \in 1..Len(p) : p[i].k = "err" THEN [k |-> IF limited THEN "any" ELSE "err"]
     ELSE IF \E i \in 1..Len(p) : p[i].k = "any" THEN [k |-> "any"]
     ELSE IF ret.distinct /\ DedupOpen(rows) THEN [k |-> "any"]
     ELSE [k |-> "ok", rows |-> rws, n |-> n]

-----------------------------------------------------------------------------
(* One single query.                                                          *)
RunReads(sq, env) ==
  FoldLeft(LAMBDA acc, m : IF acc.k # "ok" THEN acc ELSE ReadClause(m, acc.rows, env),
           [k |-> "ok", rows |-> <<EmptyFn>>], sq.read)

\* a query that starts with SET, DELETE or REMOVE has nothing to act on
BadTop(sq) == sq.read = <<>> /\ sq.upd # <<>> /\ sq.upd[1].k \in {"set", "delete", "remove"}

RunSingle(sq, g, next, env0, perm) ==
  LET env == [env0 EXCEPT !.g = g, !.row = EmptyFn, !.perm = perm]
      skip == IF sq.hasret THEN CountOf(sq.ret.skip, env) ELSE -1
      limit == IF sq.hasret THEN CountOf(sq.ret.limit, env) ELSE -1
      rd == TLCEval(RunReads(sq, env))
      st0 == [k |-> rd.k, g |-> g, rows |-> Permute(rd.rows, perm), log |-> <<>>, next |-> next,
              width |-> Len(rd.rows)]
      st == TLCEval(FoldLeft(LAMBDA s, u : Update(s, u, env), st0, sq.upd))
      pr == TLCEval(IF sq.hasret THEN Project(st, sq.ret, env) ELSE [k |-> "ok", rows |-> <<>>, n |-> 0])
      base == [g |-> st.g, log |-> st.log, next |-> st.next, rows |-> <<>>, n |-> 0,
               leak |-> NoLeak, nread |-> st.width, wide |-> st.width > Len(rd.rows)]
      res(k) == [k |-> k] @@ base
  IN IF skip = -2 \/ limit = -2 THEN [k |-> "err"] @@ [base EXCEPT !.g = g, !.log = <<>>]
     ELSE IF BadTop(sq) THEN [k |-> "err"] @@ [base EXCEPT !.g = g, !.log = <<>>]
     ELSE IF st.k # "ok" THEN res(st.k)
     ELSE IF pr.k # "ok" THEN res(pr.k)
     ELSE [k |-> "ok", g |-> st.g, log |-> st.log, next |-> st.next, rows |-> pr.rows, n |-> pr.n,
           leak |-> LeakOf(sq, st.rows, pr.n),
           nread |-> st.width, wide |-> st.width > Len(rd.rows)]

-----------------------------------------------------------------------------
(* A whole query: UNION of single queries, evaluated left to right, each in   *)
(* the original context but on the graph left by the previous one.            *)
FullRows(r) == r.n = Len(r.rows) \/ \A i \in 1..Len(r.rows) : SameRow(r.rows[i], r.rows[1])
TakeRows(r) == SubSeq(r.rows, 1, r.n)

RunQuery(q, env, next, perm) ==
  LET step(acc, i) ==
        IF acc.k # "ok" THEN acc
        ELSE LET r == RunSingle(q.singles[i], acc.g, acc.next, env, perm)
             IN IF r.k # "ok" THEN [acc EXCEPT !.k = r.k, !.g = r.g]
                ELSE LET both == acc.rows \o (IF Len(q.singles) = 1 THEN r.rows ELSE TakeRows(r))
                         merged == IF i = 1 \/ q.alls[i - 1] THEN both ELSE DedupBy(SameRow, both)
                     IN [k |-> IF Len(q.singles) > 1 /\ (~FullRows(r) \/ (FALSE \in Range1(q.alls) /\ DedupOpen(both))) THEN "any" ELSE "ok",
                         g |-> r.g, log |-> acc.log \o r.log, next |-> r.next,
                         rows |-> merged, n |-> IF Len(q.singles) = 1 THEN r.n ELSE Len(merged),
                         leaks |-> Append(acc.leaks, r.leak),
                         nread |-> Max2(acc.nread, r.nread), wide |-> acc.wide \/ r.wide]
  IN FoldLeft(step, [k |-> "ok", g |-> env.g, log |-> <<>>, next |-> next, rows |-> <<>>, n |-> 0,
                     leaks |-> <<>>, nread |-> 0, wide |-> FALSE], [i \in 1..Len(q.singles) |-> i])

IsUpdating(q) == \E i \in 1..Len(q.singles) : q.singles[i].upd # <<>>
=============================================================================
