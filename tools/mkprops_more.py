def add(p):
    p("C09", "Literals and names mean exactly what their text says; escaping round-trips",
      "Every string literal (either quote, all backslash and \\u/\\U escapes, any characters), integer literal (decimal, 0x, octal), float literal and back-quoted name denotes exactly the value or name its text spells, whatever whitespace, comments or keyword case surround it; a literal that does not fit or has an invalid escape is an error. The escape functions give text that, put back into a query, denotes the original string or name.",
      ["inputs"], "all strings and numbers as literals, all names, all layouts of a query",
      "The tests parse a handful of plain literals.",
      ["ast.go", "lang.go", "literal.go", "parser/Cypher.g4"], [("literal decoding", "ast.go"), ("Escape functions", "literal.go"), ("Parse", "lang.go")])
    p("C10", "Any text or ill-typed query gives a result or an error, never a crash",
      "For every query text and every context, parsing and evaluation end with a result or an error and never panic or loop; a text that is not a query of the grammar is rejected by the parser. Operators, functions and clauses applied to operands of a type they do not accept report an error, and after any failure the context's variables are unchanged and the graph is still well formed.",
      ["inputs", "histories"], "all texts (derived from the grammar, mutated, random), all ill-typed expressions and clauses, on all graphs",
      "The tests use well-formed queries with operands of the right type.",
      ["lang.go", "ast.go", "eval.go", "update.go", "value.go"], [("Parse and error listeners", "lang.go"), ("type checks in Evaluate", "eval.go, arithmeticeval.go, logicaleval.go"), ("update clauses", "update.go")])
    p("C26", "Independent evaluations do not affect each other, even of a shared parsed query",
      "Queries parsed and evaluated in different goroutines, each with its own context and graph, give exactly the results they give alone and have no data race, also when the goroutines evaluate the same parsed query.",
      ["inputs", "schedules"], "all sets of histories run at the same time over separate graphs, with parsed queries in common",
      "The tests are sequential.",
      ["lang.go", "ctx.go", "eval.go", "functions.go"], [("state of parsed queries", "ast.go, eval.go"), ("function registry", "functions.go, ctx.go")])
