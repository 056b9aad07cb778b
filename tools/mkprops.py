#!/usr/bin/env python3
"""Writes properties.jsonl (kept in one place so that statements and anchors stay together)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": dict({"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
                              **({"state": state} if state else {}))})

EX = "The tests evaluate a handful of fixed expressions; this is a statement about every operand type combination, nesting and value (limits of int, nulls, mixed types)."
p("C01", "Arithmetic yields the mathematically defined value, null or an error",
  "For every expression built from +, -, *, /, %, ^ and unary signs over numbers, durations, dates, strings, lists and nulls, evaluation gives the value defined by left-to-right evaluation with the usual precedence: int64 arithmetic for integers (integer division and remainder truncate toward zero), IEEE-754 double arithmetic when a float takes part, concatenation for strings and lists. A null operand gives null, and division or remainder by integer zero, or operands of types an operator does not accept, give an error and never a value.",
  ["inputs"], "all expressions over +, -, *, /, %, ^ and signs with operands of every value type, incl. extreme integers",
  EX, ["arithmeticeval.go", "ast.go", "duration.go", "value.go"],
  [("addOrSubtract/multiplyDivideModulo/powerOf/unary evaluation", "arithmeticeval.go"), ("operator order and signs from the parse tree", "ast.go")])
p("C02", "AND, OR, XOR, NOT follow three-valued logic",
  "For every nesting of AND, OR, XOR and NOT over true, false and null operands the result is the one of three-valued (Kleene) logic: in particular false AND null is false, true OR null is true, and XOR or NOT of null is null. An operand that is neither boolean nor null gives an error unless an earlier operand already decides the result.",
  ["inputs"], "all formulas over AND/OR/XOR/NOT with operands that are boolean or null expressions or ill-typed",
  EX, ["relationaleval.go", "arithmeticeval.go", "eval.go", "ast.go"], [("and/or/xor/not evaluation", "relationaleval.go"), ("operand order from the parse tree", "ast.go")])
p("C03", "Comparison operators agree with one order and equality on values",
  "=, <>, <, <=, > and >= give the answer of the mathematical order on numbers (ints and floats mixed), of the code point order on strings, of calendar and time order on temporal values, and false before true on booleans; the six operators are always mutually consistent. A null operand gives null, operands of types that cannot be compared give an error, and a chain a < b < c means a < b AND b < c.",
  ["inputs"], "all operand pairs and chains of every value type",
  EX, ["relationaleval.go", "ast.go", "duration.go"], [("comparePropertyValues and comparison chain", "relationaleval.go")])
p("C04", "Lists, IN, indexing, slices, ranges and maps behave as sequences and maps",
  "List literals, +, IN, [i], [a..b], size, range and map literals/lookup behave as finite sequences and maps: negative indexes count from the end, bounds outside the list are clipped in slices and give null in indexing, and a key that is absent gives null. range includes both ends and a zero step is an error. IN is true if an equal element is present (values of different types are not equal), null if it is not but the list has a null, or is not empty and the searched value is null, and false otherwise.",
  ["inputs"], "all lists and maps (nested, with nulls, of mixed types), indexes, bounds and steps",
  EX, ["eval.go", "scalarfuncs.go", "functions.go"], [("IN, index and slice evaluation", "eval.go"), ("range and size", "scalarfuncs.go, functions.go"), ("map lookup", "eval.go")])
p("C05", "String functions and predicates work on characters and propagate null",
  "STARTS WITH, ENDS WITH and CONTAINS decide prefix, suffix and substring; left, right, substring, size, split, trim, ltrim and rtrim give the character-wise result for every string, whatever characters it holds. A null string gives null, and a negative length or start, or an argument of another type, gives an error.",
  ["inputs"], "all strings (empty, multi-byte, with separators repeated), positions and lengths",
  EX, ["stringfuncs.go", "functions.go", "eval.go"], [("string functions", "stringfuncs.go"), ("string predicates", "eval.go")])
p("C06", "Conversion and scalar functions give the defined value, null or an error",
  "toInteger (of integers, floats, booleans and decimal text, towards zero, within 64 bits) and toFloat (of integers, floats and decimal text, the nearest float) give the number the argument denotes and an error for anything else; toIntegerOrNull and toFloatOrNull give the same values, and null where the plain function gives an error; null arguments give null. type gives the type of a relationship and labels the list of the labels of a node; an unknown function or a wrong number of arguments gives an error.",
  ["inputs"], "all arguments of every value type to the conversion and scalar functions",
  EX, ["scalarfuncs.go", "functions.go"], [("conversion functions", "scalarfuncs.go"), ("function table and argument counts", "functions.go")])
p("C07", "CASE selects the first matching alternative only",
  "A CASE expression gives the value of the first WHEN alternative that matches: in the simple form the first whose value equals the tested value (null and values of other types do not), in the searched form the first whose condition is true (false and null conditions do not match). If none matches it gives the ELSE value, or null without ELSE; alternatives that are not selected have no effect on the result.",
  ["inputs"], "all simple and searched CASE expressions, nested, with null and ill-typed alternatives",
  EX, ["eval.go", "ast.go"], [("caseClause.Evaluate", "eval.go")])
p("C08", "Dates, times and durations: construction, arithmetic and comparison are exact",
  "date() of text or of year, month and day components denotes exactly that calendar day, and invalid text gives an error. Dates, local times, local date-times and durations held in parameters or properties add, subtract, scale and compare exactly, to the nanosecond and including leap years and overflowing months, and are never altered by being stored and read back.",
  ["inputs"], "all dates, times and durations in the supported ranges and their sums, differences, multiples and comparisons",
  EX, ["datefuncs.go", "datetime.go", "duration.go", "arithmeticeval.go", "relationaleval.go"],
  [("date and time functions", "datefuncs.go, datetime.go"), ("duration arithmetic", "duration.go, arithmeticeval.go")])
p("C11", "MATCH of a pattern returns exactly the ways it occurs in the graph",
  "For a path pattern with node labels, relationship types, directions and property values, MATCH with WHERE returns one row for every assignment of nodes and relationships of the graph to the pattern elements that satisfies labels, types (any of the alternatives), direction (both for an undirected pattern), properties, repeated variables and the condition, and no other row. A condition that is false or null removes the row, and the result does not depend on whether a property is indexed.",
  ["inputs", "configurations"], "all graphs (loops, parallel edges, unlabeled nodes), path patterns and conditions; with and without a property index",
  "The tests run a few patterns on a few graphs and mostly look at the number of rows; exactness quantifies over all graphs and patterns.",
  ["patterneval.go", "eval.go", "ast.go"], [("pattern compilation and match accumulation", "patterneval.go"), ("match/where evaluation", "patterneval.go, eval.go")])
p("C12", "Patterns, MATCH clauses, OPTIONAL MATCH and bound variables compose as joins",
  "A MATCH with several patterns and a sequence of MATCH clauses return the join of the individual matches: every clause extends each row produced so far by all of its matches that agree with the variables already bound (by earlier patterns, earlier clauses or the evaluation context). OPTIONAL MATCH keeps a row that has no match, with its new variables null.",
  ["inputs"], "all sequences of MATCH / OPTIONAL MATCH clauses over all graphs with shared and context-bound variables",
  "The tests hardly combine clauses; the join has to be right for all combinations of shared variables and row counts.",
  ["eval.go", "patterneval.go", "resultset.go"], [("reading clause pipeline", "eval.go"), ("bound variables in patterns", "patterneval.go"), ("cartesian product of result sets", "resultset.go")])
p("C13", "A variable-length relationship matches exactly the trails within its bounds",
  "A relationship pattern with *, *n, *n.., *..m or *n..m matches exactly the walks along relationships of allowed type, direction and properties whose number of relationships is within the bounds (at least 1) and that do not use a relationship twice; each such walk gives one row, and matching terminates on every graph.",
  ["inputs"], "all graphs with cycles, loops and parallel edges; all bounds and directions",
  "The tests use two acyclic examples; bounds, cycles and directions multiply.",
  ["patterneval.go", "ast.go"], [("variable-length pattern elements", "patterneval.go"), ("range literal", "ast.go")])
p("C14", "Reading and failing queries leave the graph and the variables as they were",
  "A query without updating clauses never changes the graph, whatever it returns and whether or not it fails. A query that fails leaves the variables of the evaluation context as they were, and one that fails while evaluating its reading clauses, or an operand of its first update, leaves the graph as it was as well.",
  ["inputs", "histories"], "all reading queries and failing queries on all graphs, in sequences",
  "The tests check results only and never compare the graph before and after.",
  ["eval.go", "ctx.go", "update.go"], [("query evaluation in a sub-context", "eval.go, ctx.go"), ("updates", "update.go")])
p("C15", "CREATE adds exactly the described nodes and relationships, once per row",
  "CREATE adds, for every row it is applied to, exactly one node or relationship for every pattern element that is not a bound variable, with the given labels, type, direction (to the right unless it points only to the left) and properties (null properties are not stored), connected as in the pattern; nothing else in the graph changes. Elements created in a row are bound to their variables in that row.",
  ["inputs", "histories"], "all CREATE patterns after any reading clauses, on all graphs, in sequences",
  "The tests create one pattern on an empty graph; per-row creation with bound variables needs all row counts.",
  ["update.go", "eval.go"], [("create, node and relationship creation", "update.go")])
p("C16", "MERGE matches the whole pattern or creates all of it",
  "For every row, MERGE binds all matches of its pattern if there are any and creates nothing, and otherwise creates the whole pattern (all elements that are not bound) exactly once. ON MATCH items are applied to every match, ON CREATE items only to what was created; elements created for one row are seen by the following rows.",
  ["inputs", "histories"], "all MERGE patterns and actions after any reading clauses, on all graphs, also repeated",
  "The tests run single MERGE queries; idempotence and per-row effects need histories.",
  ["update.go", "patterneval.go"], [("merge match-or-create", "update.go"), ("merge actions", "update.go")])
p("C17", "SET and REMOVE change exactly the named properties and labels",
  "SET and REMOVE, applied to every row in turn, change exactly the named properties and labels of the entities in that row: SET x.p = v stores v (null removes p), SET x = map replaces all properties, SET x += map adds or overwrites, SET/REMOVE x:L adds or removes the label. On a null entity they do nothing, and no other entity, property or label changes.",
  ["inputs", "histories"], "all SET and REMOVE items over all rows, graphs and value types, with and without a property index",
  "The tests set one property on one node; rows, entity kinds and item combinations multiply.",
  ["update.go"], [("set items", "update.go"), ("remove items", "update.go")])
p("C18", "DELETE removes exactly the named entities and leaves no dangling relationship",
  "DELETE removes exactly the nodes and relationships named in its rows, each once even if named several times; null is ignored. A node that still has other relationships makes plain DELETE fail, with nothing removed, while DETACH DELETE removes these relationships too.",
  ["inputs", "histories"], "all DELETE queries (nodes, relationships, paths, repeated) on all graphs, in sequences",
  "The tests delete one node; repeated entities and partly connected nodes need all graphs.",
  ["update.go"], [("deleteClause.Update", "update.go")])
p("C19", "UNION and the result-set operations are exact set and bag operations",
  "UNION ALL returns all rows of its queries; UNION returns each distinct row once, where rows are the same if all of their values are (null the same as null; list and map contents compared; values of different types never the same, except numbers of equal value). The result-set functions for union, products and value sameness obey the same laws for all inputs, including empty ones, and terminate.",
  ["inputs"], "all result sets (empty, with duplicates, mixed types, nulls) and UNION queries of two or three parts",
  "The tests have one product example and no UNION; sameness must hold over all value pairs.",
  ["resultset.go", "value.go", "eval.go"], [("Union, CartesianProduct, find", "resultset.go"), ("IsValueSame", "value.go"), ("regularQuery.Evaluate", "eval.go")])
p("C20", "RETURN projects every row; DISTINCT, SKIP and LIMIT keep the right rows",
  "RETURN gives one result row per matched row (exactly one if there is no reading clause), with one column per item holding the value of its expression for that row, named by its alias or else by its position, and all variables for *. DISTINCT removes repeated rows and nothing else, and SKIP s LIMIT l leave exactly min(l, max(0, n - s)) of the n rows; a count that is no non-negative integer is an error.",
  ["inputs"], "all RETURN clauses over all row tables",
  "The tests use RETURN with one or two rows only.",
  ["eval.go", "resultset.go", "ast.go"], [("singlePartQuery.Evaluate and projection", "eval.go"), ("row counts", "eval.go")])
p("C21", "The context carries variables and parameters between queries predictably",
  "A query sees the variables and parameters of its evaluation context: a pattern variable already bound there only matches its value, an unknown variable or parameter is an error. After a query that succeeds, the context holds the variables created by CREATE or a leading MERGE, and after RETURN those of one of the returned rows, in addition to its earlier variables; parameters are never changed.",
  ["inputs", "histories"], "all sequences of queries in one context",
  "The tests use a new context per query, nearly always.",
  ["ctx.go", "eval.go", "update.go"], [("EvalContext variables and scopes", "ctx.go"), ("bindings left by queries", "eval.go, update.go")])
p("C22", "A parsed query can be evaluated any number of times",
  "Evaluating a query that was parsed once gives, every time, what parsing and evaluating its text afresh would give in the same graph and context: no evaluation leaves anything behind in the parsed query, whatever parameters, variables or graph it was evaluated with before.",
  ["inputs", "histories"], "all queries evaluated repeatedly with other parameters, contexts and graph states",
  "The tests parse and evaluate each query once.",
  ["lang.go", "eval.go", "patterneval.go", "ast.go"], [("state kept in AST nodes (constants, function and pattern caches)", "eval.go, patterneval.go")])
p("C23", "The graph stays well formed and all its views agree after any history of queries",
  "After any sequence of updating queries every relationship joins two nodes of the graph, the node and edge counts, per-node incoming and outgoing lists, and the lookups by label and by type all describe the same graph, and that graph is the one the sequence of queries defines.",
  ["histories"], "all histories of CREATE, MERGE, SET, REMOVE, DELETE mixed with reads",
  "The tests run at most two updates on one graph.",
  ["update.go", "eval.go", "patterneval.go"], [("updating clauses", "update.go")])
p("C24", "Every stored property value passes through the property filter exactly once",
  "When the evaluation context has a property value filter, every non-null property value written by CREATE, MERGE or SET is handed to it exactly once per write, with its key, and what the filter returns is what is stored; values read or matched are not filtered.",
  ["inputs", "histories", "configurations"], "all updating queries with a logging or value-changing filter",
  "The tests do not use the filter.",
  ["ctx.go", "update.go", "value.go"], [("PropertyValueFromNative filter", "ctx.go"), ("property writes", "update.go")])
p("C25", "Relative pattern expressions find exactly the target nodes",
  "Finding a pattern relative to a node returns, for every match of the pattern in which the variable this is that node, the node bound to target, and nothing else; it does not change the graph.",
  ["inputs"], "all patterns naming this and target, all graphs and nodes",
  "The tests try a few patterns on one graph.",
  ["patterneval.go", "ast.go", "lang.go"], [("PatternPart.FindRelative, ParsePatternExpr", "patterneval.go, lang.go")])
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    import mkprops_more
    mkprops_more.add(p)
except ImportError:
    pass
P.sort(key=lambda x: x["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
