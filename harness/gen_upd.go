package main

// generators of updating queries

func (g *gen) createProps() N {
	switch g.Intn(10) {
	case 0, 1, 2:
		return none
	case 3:
		return g.param(g.val("map"))
	}
	kv := N{}
	seen := map[string]bool{}
	for n := 1 + g.Intn(3); n > 0; n-- {
		k := g.pick("p", "q", "b", "f", "l", "d", "id")
		if seen[k] {
			continue
		}
		seen[k] = true
		switch k {
		case "id":
			kv = append(kv, N{k, litInt(g.Intn(9))})
		case "p":
			kv = append(kv, N{k, g.ex("sint", 2)})
		case "q":
			kv = append(kv, N{k, g.ex("str", 1)})
		case "b":
			kv = append(kv, N{k, g.ex("bool", 1)})
		case "f":
			kv = append(kv, N{k, g.ex("flt", 1)})
		case "l":
			kv = append(kv, N{k, g.ex("list", 1)})
		default:
			kv = append(kv, N{k, g.ex(g.pick("date", "dur"), 1)})
		}
	}
	return N{"map", kv}
}

// createNode: a reference to a bound node or a new node
func (g *gen) createNode(vars *[]sv) M {
	var cands []string
	for _, s := range append(append([]sv{}, g.scope...), *vars...) {
		if s.kind == "node" {
			cands = append(cands, s.name)
		}
	}
	n := M{"var": "", "labels": N{}, "props": none}
	if len(cands) > 0 && g.chance(0.45) {
		n["var"] = cands[g.Intn(len(cands))]
		if g.chance(0.03) {
			n["labels"] = N{"A"}
		}
		return n
	}
	if g.chance(0.6) {
		v := g.freshVar("n")
		n["var"] = v
		*vars = append(*vars, sv{v, "node"})
	}
	n["labels"] = g.labels(2)
	n["props"] = g.createProps()
	return n
}

func (g *gen) createPart(vars *[]sv, maxLen int) M {
	p := M{"var": "", "start": g.createNode(vars)}
	chain := N{}
	for n := g.Intn(maxLen + 1); n > 0; n-- {
		r := M{"var": "", "types": N{g.pick(typePool...)}, "dir": g.pick("out", "in", "out", "in", "out", "in", "none", "both"), "rng": none, "props": none}
		if g.chance(0.12) {
			r["types"] = N{}
		}
		if g.chance(0.4) {
			v := g.freshVar("r")
			r["var"] = v
			*vars = append(*vars, sv{v, "rel"})
		} else if x := g.entVar("rel", "path"); x != "" && g.chance(0.25) {
			r["var"] = x // taken already
		}
		if g.chance(0.4) {
			r["props"] = g.createProps()
		}
		// the relationship's variable is bound after both of its nodes
		keep := len(*vars)
		node := g.createNode(vars)
		_ = keep
		chain = append(chain, M{"rel": r, "node": node})
	}
	p["chain"] = chain
	if g.chance(0.08) {
		v := g.freshVar("w")
		p["var"] = v
	}
	return p
}

func (g *gen) createClause(parts int) M {
	vars := []sv{}
	ps := N{}
	for n := 1 + g.Intn(parts); n > 0; n-- {
		ps = append(ps, g.createPart(&vars, 2))
	}
	g.scope = append(g.scope, vars...)
	return M{"k": "create", "parts": ps}
}

func (g *gen) entVar(kinds ...string) string {
	var cands []string
	for _, s := range g.scope {
		for _, k := range kinds {
			if s.kind == k {
				cands = append(cands, s.name)
			}
		}
	}
	if len(cands) == 0 {
		return ""
	}
	return cands[g.Intn(len(cands))]
}

func (g *gen) setItems(max int) N {
	its := N{}
	for n := 1 + g.Intn(max); n > 0; n-- {
		v := g.entVar("node", "node", "rel")
		if v == "" {
			break
		}
		isNode := g.kindOf(v) == "node"
		switch c := g.Intn(10); {
		case c < 6 || !isNode:
			k := g.pick("p", "q", "p", "id", "b")
			e := g.ex(g.pick("sint", "str", "bool", "flt", "list"), 2)
			if g.chance(0.15) {
				e = lit(N{"null"})
			}
			if k == "id" { // may be indexed: integers only
				e = litInt(g.Intn(9))
			}
			its = append(its, N{"prop", vr(v), k, e})
		case c < 8:
			its = append(its, N{"labels", v, N{g.pick("A", "B", "D")}})
		default:
			var e N
			switch g.Intn(3) {
			case 0:
				if u := g.entVar("node"); u != "" {
					e = vr(u)
					break
				}
				fallthrough
			case 1:
				e = g.param(N{"map", M{"p": encInt(g.Intn(5)), "n": N{"null"}}})
			default:
				p := g.createProps()
				for str(p[0]) != "map" {
					p = g.createProps()
				}
				kv := p[1].(N)
				if g.chance(0.3) {
					kv = append(kv, N{"q", lit(N{"null"})})
				}
				e = N{"map", kv}
			}
			its = append(its, N{g.pick("=", "+="), v, e})
		}
	}
	return its
}

func (g *gen) kindOf(v string) string {
	for _, s := range g.scope {
		if s.name == v {
			return s.kind
		}
	}
	return ""
}

func (g *gen) setClause() M {
	its := g.setItems(3)
	if len(its) == 0 {
		return nil
	}
	return M{"k": "set", "items": its}
}

func (g *gen) removeClause() M {
	its := N{}
	for n := 1 + g.Intn(2); n > 0; n-- {
		v := g.entVar("node", "node", "rel")
		if v == "" {
			return nil
		}
		if g.kindOf(v) == "rel" || g.chance(0.6) {
			its = append(its, N{"prop", vr(v), g.pick("p", "q", "id", "zz")})
		} else {
			l := N{g.pick("A", "B")}
			if g.chance(0.2) {
				l = append(l, "C")
			}
			its = append(its, N{"labels", v, l})
		}
	}
	return M{"k": "remove", "items": its}
}

func (g *gen) deleteClause() M {
	es := N{}
	for n := 1 + g.Intn(2); n > 0; n-- {
		v := g.entVar("node", "rel", "path")
		if v == "" {
			return nil
		}
		es = append(es, vr(v))
	}
	return M{"k": "delete", "detach": g.chance(0.6), "exprs": es}
}

// mergePart: a pattern of at most one or two relationships
func (g *gen) mergePart() M {
	vars := []sv{}
	node := func() M {
		n := M{"var": "", "labels": N{}, "props": none}
		if v := g.entVar("node"); v != "" && g.chance(0.5) {
			n["var"] = v
			return n
		}
		if g.chance(0.8) {
			v := g.freshVar("n")
			n["var"] = v
			vars = append(vars, sv{v, "node"})
		}
		n["labels"] = g.labels(2)
		if g.chance(0.5) {
			kv := N{}
			if g.chance(0.8) {
				e := litInt(g.Intn(3))
				if v := g.entVar("node"); v != "" && g.chance(0.25) {
					e = prop(vr(v), "p")
				}
				kv = append(kv, N{"p", e})
			}
			if g.chance(0.4) {
				kv = append(kv, N{"q", litStr(g.pick("x", "y"))})
			}
			n["props"] = N{"map", kv}
		}
		return n
	}
	p := M{"var": "", "start": node()}
	chain := N{}
	n := g.Intn(3)
	if n == 2 && g.chance(0.5) {
		n = 1
	}
	for ; n > 0; n-- {
		r := M{"var": "", "types": N{g.pick(typePool...)}, "dir": g.pick("out", "in", "out", "in", "out", "in", "none", "both"), "rng": none, "props": none}
		if g.chance(0.5) {
			v := g.freshVar("r")
			r["var"] = v
			vars = append(vars, sv{v, "rel"})
		}
		if g.chance(0.25) {
			r["props"] = N{"map", N{N{"p", litInt(g.Intn(3))}}}
		}
		chain = append(chain, M{"rel": r, "node": node()})
	}
	p["chain"] = chain
	g.scope = append(g.scope, vars...)
	return p
}

func (g *gen) mergeClause() M {
	m := M{"k": "merge", "part": g.mergePart()}
	acts := N{}
	for n := g.Intn(3); n > 0; n-- {
		if its := g.setItems(2); len(its) > 0 {
			acts = append(acts, M{"on": g.pick("match", "create"), "items": its})
		}
	}
	m["actions"] = acts
	return m
}
