------------------------------- MODULE Scopes --------------------------------
(* Evaluation contexts: a tree of scopes.  A variable or parameter is that of *)
(* the nearest scope that has it; what is set stays in its own scope; the     *)
(* property filter is inherited when a sub context is made.                   *)
(* A scope is [parent, vars, pars, filt]; the root has parent 0.  An operation*)
(* is a tuple <<name, scope, ...>>; each has one outcome:                     *)
(*   <<"ok", value>>, <<"err">> or <<"map", vars>>                            *)
EXTENDS Values

NewScope(parent, filt) == [parent |-> parent, vars |-> EmptyFn, pars |-> EmptyFn, filt |-> filt]

RECURSIVE LookV(_, _, _)
LookV(ss, i, x) == IF i = 0 THEN <<"err">>
                   ELSE IF x \in DOMAIN ss[i].vars THEN <<"ok", ss[i].vars[x]>> ELSE LookV(ss, ss[i].parent, x)
RECURSIVE LookP(_, _, _)
LookP(ss, i, x) == IF i = 0 THEN <<"err">>
                   ELSE IF x \in DOMAIN ss[i].pars THEN <<"ok", ss[i].pars[x]>> ELSE LookP(ss, ss[i].parent, x)

Put1(f, x, v) == Over(f, [y \in {x} |-> v])
Shifted(filt, v) == IF filt = "shift" /\ v[1] = "int" THEN <<"int", v[2] + 1>> ELSE v

\* <<scopes afterwards, outcome>>
ScopeStep(ss, op) ==
  LET i == op[2]
      done == <<"ok", Null>>
  IN CASE op[1] = "sub" -> <<Append(ss, NewScope(i, ss[i].filt)), done>>
       [] op[1] = "filter" -> <<[ss EXCEPT ![i].filt = op[3]], done>>
       [] op[1] = "setvar" -> <<[ss EXCEPT ![i].vars = Put1(@, op[3], op[4])], done>>
       [] op[1] = "setvars" -> <<[ss EXCEPT ![i].vars = Over(@, op[3])], done>>
       [] op[1] = "rmvar" -> <<[ss EXCEPT ![i].vars = Drop(@, {op[3]})], done>>
       [] op[1] = "setpar" -> <<[ss EXCEPT ![i].pars = Put1(@, op[3], op[4])], done>>
       [] op[1] \in {"getvar", "retvar"} -> <<ss, LookV(ss, i, op[3])>>
       [] op[1] \in {"getpar", "retpar"} -> <<ss, LookP(ss, i, op[3])>>
       [] op[1] = "nearest" -> <<ss, <<"map", ss[i].vars>> >>
       \* a node is created with the given property, and that property is read back
       [] op[1] = "put" -> <<ss, <<"ok", Shifted(ss[i].filt, op[3])>> >>
       \* CREATE of a name that nothing in scope has binds it, here only
       [] op[1] = "create" ->
            (IF LookV(ss, i, op[3]) # <<"err">> THEN <<ss, <<"any">> >>
             ELSE <<[ss EXCEPT ![i].vars = Put1(@, op[3], <<"node", op[4]>>)], done>>)

RECURSIVE ScopeRun(_, _)
ScopeRun(ss, ops) == IF ops = <<>> THEN <<>>
                     ELSE LET r == TLCEval(ScopeStep(ss, ops[1])) IN <<r[2]>> \o ScopeRun(r[1], Tail(ops))

\* the specification's outcomes, against those observed
ScopeVerdict(e) ==
  LET want == TLCEval(ScopeRun(<<NewScope(0, "none")>>, e.ops))
  IN IF Len(e.outs) = Len(want)
        /\ \A k \in 1..Len(want) : want[k] = <<"any">> \/ want[k] = e.outs[k] THEN "ok" ELSE "bad"
=============================================================================
