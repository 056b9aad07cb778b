-------------------------------- MODULE Cypher -------------------------------
(* The system as a state machine: a property graph and an evaluation context, *)
(* changed by executing one query at a time.                                  *)
EXTENDS Query

VARIABLES graph,  \* the graph
          cvars   \* variables of the evaluation context: name -> value

EnvOf(gr, vs, par, filt) == [row |-> EmptyFn, ctx |-> vs, par |-> par, g |-> gr, filt |-> filt, perm |-> <<>>]

\* every edge joins two nodes of the graph
WellFormed(gr) == \A e \in DOMAIN gr.edges : gr.edges[e].from \in DOMAIN gr.nodes
                                             /\ gr.edges[e].to \in DOMAIN gr.nodes

\* the bindings a finished query may leave behind: those of one of its rows
Leaves(leak, pre) ==
  IF leak.src = <<>> THEN {pre}
  ELSE {Over(pre, [x \in (leak.req \cup t) \cap DOMAIN leak.src[i] |-> leak.src[i][x]]) :
          i \in 1..Len(leak.src), t \in SUBSET leak.opt}
=============================================================================
