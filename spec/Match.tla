-------------------------------- MODULE Match --------------------------------
(* Pattern matching.  A match clause turns every incoming row into one row    *)
(* per way of mapping the pattern onto the graph:                            *)
(*  - a node pattern maps to a node that has all the labels and properties,   *)
(*  - a relationship pattern maps to one edge of an allowed type, with all    *)
(*    the properties, in the stated direction,                               *)
(*  - a variable-length relationship maps to a walk of min..max edges without *)
(*    repeating an edge,                                                     *)
(*  - a variable that is already bound (earlier pattern, earlier clause, or   *)
(*    context) keeps its value.                                              *)
(* Deviation kept from the implementation: two different relationship         *)
(* patterns may map to the same edge (homomorphism).                          *)
EXTENDS Exprs

PropsHave(props, want) ==
  \A k \in DOMAIN want : /\ k \in DOMAIN props
                         /\ ~IsNull(want[k])
                         /\ Same(want[k], props[k])

LabelsHave(n, labels) == \A i \in 1..Len(labels) : labels[i] \in n.labels
NodeOk(n, np, want) == LabelsHave(n, np.labels) /\ PropsHave(n.props, want)
TypeOk(e, rp) == rp.types = <<>> \/ \E i \in 1..Len(rp.types) : rp.types[i] = e.label
EdgeOk(e, rp, want) == TypeOk(e, rp) /\ PropsHave(e.props, want)

\* the property map of a pattern element: a function, <<"err">> or <<"any">>
WantOf(p, env) ==
  LET v == CASE p[1] = "none" -> MapV(EmptyFn)
             [] p[1] = "param" -> Ev(p, env)
             [] OTHER -> Ev(p, env)
  IN IF IsErr(v) \/ IsOpen(v) THEN v ELSE IF IsMap(v) THEN v ELSE Err

IsBound(x, b, env) == x # "" /\ (x \in DOMAIN b \/ x \in DOMAIN env.row \/ x \in DOMAIN env.ctx)
BoundTo(x, b, env) == IF x \in DOMAIN b THEN b[x] ELSE LookupVar(x, env)

NodeCands(np, want, b, env) ==
  IF IsBound(np.var, b, env)
  THEN LET v == BoundTo(np.var, b, env)
       IN IF v[1] = "node" /\ v[2] \in DOMAIN env.g.nodes
             /\ NodeOk(env.g.nodes[v[2]], np, want) THEN {v[2]} ELSE {}
  ELSE {n \in DOMAIN env.g.nodes : NodeOk(env.g.nodes[n], np, want)}

\* <<edge, other end>> pairs leaving node n along the pattern
Steps(n, rp, want, env) ==
  LET E == {e \in DOMAIN env.g.edges : EdgeOk(env.g.edges[e], rp, want)}
      fwd == {<<e, env.g.edges[e].to>> : e \in {x \in E : env.g.edges[x].from = n}}
      bwd == {<<e, env.g.edges[e].from>> : e \in {x \in E : env.g.edges[x].to = n}}
  IN CASE rp.dir = "out" -> fwd
       [] rp.dir = "in" -> bwd
       [] OTHER -> fwd \cup bwd

RECURSIVE Walks(_, _, _, _, _, _)
\* all <<edge sequence, end>> of length lo..hi (hi = -1: unbounded) extending path
Walks(n, path, rp, want, hi, env) ==
  LET here == IF Len(path) >= Max2(1, rp.rng[1]) THEN {<<path, n>>} ELSE {}
      next == IF hi # -1 /\ Len(path) >= hi THEN {}
              ELSE {s \in Steps(n, rp, want, env) : \A i \in 1..Len(path) : path[i] # s[1]}
  IN here \cup UNION {Walks(s[2], Append(path, s[1]), rp, want, hi, env) : s \in next}

SingleRel(rp) == Len(rp.rng) = 1
\* <<edges, end>> reachable from n over one relationship pattern
Hops(n, rp, want, env) ==
  IF SingleRel(rp) THEN {<<<<s[1]>>, s[2]>> : s \in Steps(n, rp, want, env)}
  ELSE Walks(n, <<>>, [rp EXCEPT !.rng = <<rp.rng[1], rp.rng[2]>>], want, rp.rng[2], env)

RelV(edges) == <<"rel", SortInts(edges)>>
RelFits(rp, edges, b, env) == IsBound(rp.var, b, env) => BoundTo(rp.var, b, env) = RelV(edges)

Bind(b, x, v) == IF x = "" THEN b ELSE Over(b, [y \in {x} |-> v])

RECURSIVE ChainMatches(_, _, _, _, _, _)
\* from node n: set of <<binding, trace>>
ChainMatches(n, chain, wants, b, trace, env) ==
  IF chain = <<>> THEN {<<b, trace>>}
  ELSE LET rp == chain[1].rel
           np == chain[1].node
           hops == {h \in Hops(n, rp, wants[1][1], env) : RelFits(rp, h[1], b, env)}
       IN UNION {LET b1 == Bind(b, rp.var, RelV(h[1]))
                 IN IF h[2] \in NodeCands(np, wants[1][2], b1, env)
                    THEN ChainMatches(h[2], Tail(chain), Tail(wants), Bind(b1, np.var, <<"node", h[2]>>),
                                      Append(trace, h), env)
                    ELSE {}
                 : h \in hops}

PartMatches(part, want, b, env) ==
  UNION {ChainMatches(n, part.chain, want.chain, Bind(b, part.start.var, <<"node", n>>), <<<<<<>>, n>>>>, env)
         : n \in NodeCands(part.start, want.start, b, env)}

-----------------------------------------------------------------------------
PartWants(part, env) ==
  [start |-> WantOf(part.start.props, env),
   chain |-> [i \in 1..Len(part.chain) |-> <<WantOf(part.chain[i].rel.props, env),
                                             WantOf(part.chain[i].node.props, env)>>]]
WantVals(w) == <<w.start>> \o Concat(w.chain)
Unwrap(w) == [start |-> w.start[2],
              chain |-> [i \in 1..Len(w.chain) |-> <<w.chain[i][1][2], w.chain[i][2][2]>>]]

PartNodes(part) == <<part.start>> \o [i \in 1..Len(part.chain) |-> part.chain[i].node]
PartRels(part) == [i \in 1..Len(part.chain) |-> part.chain[i].rel]
AllNodes(parts) == Concat([i \in 1..Len(parts) |-> PartNodes(parts[i])])
AllRels(parts) == Concat([i \in 1..Len(parts) |-> PartRels(parts[i])])
VarsOf(seq) == {seq[i].var : i \in 1..Len(seq)} \ {""}
PatVars(parts) == VarsOf(AllNodes(parts)) \cup VarsOf(AllRels(parts))

\* "ok", "err" or "any": can this pattern be matched under env?
PatternStatus(parts, env) ==
  LET nodes == AllNodes(parts)
      rels == AllRels(parts)
      nv == VarsOf(nodes)
      rv == VarsOf(rels)
      relCount(x) == Cardinality({i \in 1..Len(rels) : rels[i].var = x})
      kind(x) == LookupVar(x, env)[1]
      bound(x) == IsBound(x, EmptyFn, env)
  IN IF \E x \in nv \cup rv : bound(x) /\ kind(x) \notin {"node", "rel", "null"} THEN "err"
     ELSE IF nv \cap rv # {} THEN "any"
     ELSE IF \E x \in rv : relCount(x) > 1 THEN "any"
     ELSE IF \E x \in nv : bound(x) /\ kind(x) = "rel" THEN "any"
     ELSE IF \E x \in rv : bound(x) /\ kind(x) = "node" THEN "any"
     ELSE IF \E i \in 1..Len(rels) : bound(rels[i].var) /\ ~SingleRel(rels[i]) THEN "any"
     ELSE IF \E i \in 1..Len(rels) : ~SingleRel(rels[i]) /\ rels[i].rng[1] = 0 THEN "any"
     ELSE "ok"

AllProps(gr) == {gr.nodes[n].props : n \in DOMAIN gr.nodes} \cup {gr.edges[e].props : e \in DOMAIN gr.edges}
\* all extensions of the row by the pattern: [k |-> "ok"|"err"|"any", rows |-> seq of bindings]
PartsMatches(parts, env) ==
  LET st == PatternStatus(parts, env)
      wants == TLCEval([i \in 1..Len(parts) |-> PartWants(parts[i], env)])
      wv == Concat([i \in 1..Len(parts) |-> WantVals(wants[i])])
      all == FoldLeft(LAMBDA acc, i :
                        UNION {{<<m[1], Append(bt[2], m[2])>> :
                                m \in PartMatches(parts[i], Unwrap(wants[i]), bt[1], env)} : bt \in acc},
                      {<<EmptyFn, <<>>>>}, [i \in 1..Len(parts) |-> i])
      \* an integer in a pattern and an equal float in the graph: left open
      unsure == \E i \in 1..Len(wv) : \E k \in DOMAIN wv[i][2] :
                  IsInt(wv[i][2][k]) /\ \E x \in AllProps(env.g) : k \in DOMAIN x /\ IsFltAny(x[k])
  IN IF st = "err" \/ AnyErr(wv) THEN [k |-> "err", rows |-> <<>>]
     ELSE IF st = "any" \/ AnyOpen(wv) \/ unsure THEN [k |-> "any", rows |-> <<>>]
     ELSE [k |-> "ok", rows |-> LET s == SetToSeq(all) IN [i \in 1..Len(s) |-> s[i][1]]]

\* one match clause applied to one row
MatchRow(m, env) ==
  LET pm == TLCEval(PartsMatches(m.parts, env))
      ext == TLCEval([i \in 1..Len(pm.rows) |-> Over(env.row, pm.rows[i])])
      w == TLCEval([i \in 1..Len(ext) |-> IF m.where[1] = "none" THEN True
                                  ELSE Ev(m.where, [env EXCEPT !.row = ext[i]])])
      keep == FoldLeft(LAMBDA acc, i : IF w[i] = True THEN Append(acc, ext[i]) ELSE acc,
                       <<>>, [i \in 1..Len(ext) |-> i])
  IN IF pm.k # "ok" THEN pm
     ELSE IF AnyErr(w) THEN [k |-> "err", rows |-> <<>>]
     ELSE IF \E i \in 1..Len(w) : ~Tri(w[i]) THEN [k |-> "any", rows |-> <<>>]
     ELSE IF m.opt /\ keep = <<>>
          THEN [k |-> "ok", rows |-> <<Over([x \in PatVars(m.parts) \ (DOMAIN env.row \cup DOMAIN env.ctx) |-> Null],
                                            env.row)>>]
     ELSE [k |-> "ok", rows |-> keep]

ReadClause(m, rows, env) ==
  LET rs == TLCEval([i \in 1..Len(rows) |-> MatchRow(m, [env EXCEPT !.row = rows[i]])])
  IN IF \E i \in 1..Len(rs) : rs[i].k = "err" THEN [k |-> "err", rows |-> <<>>]
     ELSE IF \E i \in 1..Len(rs) : rs[i].k = "any" THEN [k |-> "any", rows |-> <<>>]
     ELSE [k |-> "ok", rows |-> Concat([i \in 1..Len(rs) |-> rs[i].rows])]
=============================================================================
