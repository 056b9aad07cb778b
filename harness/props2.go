package main

import "fmt"

// histories of queries on a graph

// session is a history whose events are drawn one at a time, knowing the
// state of the library after the previous one.
type session struct {
	g      *gen
	g0, v0 M
	index  []string
	n, i   int
	mk     func(g *gen, r *runner, i int) []M
	queue  []M
	tidy   bool // start a new context when a variable names a removed entity
	cap    int  // the history ends when the graph has grown beyond this many entities
	fixed  []sv // variables of the context that queries refer to
}

func (s *session) start() (M, M, []string) {
	if s.v0 == nil {
		s.v0 = M{}
	}
	return s.g0, s.v0, s.index
}

func (s *session) next(r *runner, last M) M {
	if last != nil && (str(last["ev"]) == "exec" && deletes(objOf(last["q"])) || str(last["ev"]) == "any" && mentionsDelete(fromCodes(last["text"]))) {
		if r.holdsEntities() {
			return nil
		}
		return M{"ev": "reload"}
	}
	if s.tidy && last != nil && str(last["ev"]) == "exec" {
		if stale(r, objOf(last["vars"])) {
			s.queue = nil
			return M{"ev": "newctx", "vars": liveVars(r, objOf(last["vars"]))}
		}
	}
	for len(s.queue) == 0 {
		if s.i >= s.n || (s.cap > 0 && len(r.w.nodes)+len(r.w.edges) > s.cap) {
			return nil
		}
		s.g.scope = append([]sv{}, s.fixed...)
		if len(s.fixed) == 0 {
			s.g.scope = ctxScope(r, 4)
		}
		s.g.dense = len(r.w.edges) > 8
		s.queue = s.mk(s.g, r, s.i)
		s.i++
	}
	ev := s.queue[0]
	s.queue = s.queue[1:]
	return ev
}

// holdsEntities: a property names an entity, so that the graph cannot be copied
func (r *runner) holdsEntities() bool {
	for _, n := range r.w.nodes {
		for _, v := range encProps(n.ForEachProperty) {
			if hasEntity(v.(N)) {
				return true
			}
		}
	}
	for _, e := range r.w.edges {
		for _, v := range encProps(e.ForEachProperty) {
			if hasEntity(v.(N)) {
				return true
			}
		}
	}
	return false
}

func hasEntity(v N) bool {
	switch str(v[0]) {
	case "node", "rel", "go":
		return true
	case "list":
		for _, e := range list(v[1]) {
			if hasEntity(e.(N)) {
				return true
			}
		}
	case "map":
		for _, e := range objOf(v[1]) {
			if hasEntity(e.(N)) {
				return true
			}
		}
	}
	return false
}

// deletes tells whether the query removes something.  The graph library loses
// track of its last node when that is removed (findings/), so that such a
// graph is copied before it is used again.
func deletes(q M) bool {
	for _, s := range list(q["singles"]) {
		for _, u := range list(s.(M)["upd"]) {
			if str(u.(M)["k"]) == "delete" {
				return true
			}
		}
	}
	return false
}

// live tells whether every entity in the value is still in the graph
func live(r *runner, v N) bool {
	switch str(v[0]) {
	case "node":
		_, ok := r.w.nodes[num(v[1])]
		return ok
	case "rel":
		for _, e := range list(v[1]) {
			if _, ok := r.w.edges[num(e)]; !ok {
				return false
			}
		}
	case "list":
		for _, e := range list(v[1]) {
			if !live(r, e.(N)) {
				return false
			}
		}
	case "map":
		for _, e := range objOf(v[1]) {
			if !live(r, e.(N)) {
				return false
			}
		}
	case "go":
		return false
	}
	return true
}

func stale(r *runner, vars M) bool {
	for _, v := range vars {
		if !live(r, v.(N)) {
			return true
		}
	}
	return false
}

func liveVars(r *runner, vars M) M {
	m := M{}
	for _, k := range sortedKeys(vars) {
		v := vars[k].(N)
		if len(m) < 3 && live(r, v) && (str(v[0]) == "node" || (str(v[0]) == "rel" && len(list(v[1])) == 1)) {
			m[k] = v
		}
	}
	return m
}

// ctxScope lists some variables of the context as usable in the next query
func ctxScope(r *runner, max int) []sv {
	out := []sv{}
	vars := r.vars()
	ks := sortedKeys(vars)
	for i := len(ks) - 1; i >= 0 && len(out) < max; i-- {
		v := vars[ks[i]].(N)
		switch str(v[0]) {
		case "node":
			out = append(out, sv{ks[i], "node"})
		case "rel":
			if len(list(v[1])) == 1 {
				out = append(out, sv{ks[i], "rel"})
			} else {
				out = append(out, sv{ks[i], "path"})
			}
		}
	}
	return out
}

// withRet adds a RETURN to a single query
func withRet(s M, r M) M { s["hasret"], s["ret"] = true, r; return s }

func reads(ms ...M) M {
	s := single()
	l := N{}
	for _, m := range ms {
		l = append(l, m)
	}
	s["read"] = l
	return s
}

func updates(s M, us ...M) M {
	l := list(s["upd"])
	for _, u := range us {
		if u != nil {
			l = append(l, u)
		}
	}
	s["upd"] = l
	return s
}

func (g *gen) indexes() []string {
	if g.chance(0.4) {
		return []string{g.pick("p", "q", "id")}
	}
	return nil
}

// seeded context: some variables naming entities of the graph
func (g *gen) ctxVars(g0 M, n int) (M, []sv) {
	v, s := M{}, []sv{}
	nodes, edges := list(g0["nodes"]), list(g0["edges"])
	for i := 0; i < n; i++ {
		if len(edges) > 0 && g.chance(0.3) {
			k := g.freshVar("e")
			v[k] = N{"rel", N{edges[g.Intn(len(edges))].(N)[0]}}
			s = append(s, sv{k, "rel"})
		} else if len(nodes) > 0 {
			k := g.freshVar("m")
			v[k] = N{"node", nodes[g.Intn(len(nodes))].(N)[0]}
			s = append(s, sv{k, "node"})
		}
	}
	return v, s
}

func (g *gen) readSession(nn, ne, n int, mk func(g *gen, r *runner, i int) []M) *session {
	g0 := g.graph(nn, ne)
	return &session{g: g, g0: g0, index: g.indexes(), n: n, mk: mk}
}

// updSession: only the property that never changes type is indexed
func (g *gen) updSession(nn, ne, n int, mk func(g *gen, r *runner, i int) []M) *session {
	s := g.readSession(nn, ne, n, mk)
	s.index = nil
	s.cap = 12
	if g.chance(0.4) {
		s.index = []string{"id"}
	}
	return s
}

func (g *gen) exec(q M) M {
	e := exec(q, g.takeParams())
	return e
}

// matchAll binds some nodes and relationships by a simple pattern
func (g *gen) matchAll() M {
	o := patOpt{maxLen: 1, reuse: 0}
	switch g.Intn(4) {
	case 0:
		o.maxLen = 0
	case 1:
		o.noProps = true
	}
	m := g.match(1, o, 0.3)
	if g.chance(0.15) {
		m["opt"] = true
	}
	return m
}

func (g *gen) updClause() M {
	for {
		var u M
		switch g.Intn(9) {
		case 0, 1, 2:
			u = g.createClause(2)
		case 3, 4:
			u = g.setClause()
		case 5:
			u = g.removeClause()
		case 6:
			u = g.deleteClause()
		default:
			u = g.mergeClause()
		}
		if u != nil {
			return u
		}
	}
}

// maybeRet: RETURN of the variables in scope, sometimes
func (g *gen) maybeRet(s M, p float64) M {
	if g.chance(p) {
		withRet(s, g.retVars(0))
	}
	return s
}

func (g *gen) retOpts(r M) M {
	if g.chance(0.3) {
		r["distinct"] = true
	}
	if g.chance(0.3) {
		r["skip"] = g.count()
	}
	if g.chance(0.4) {
		r["limit"] = g.count()
	}
	return r
}

func (g *gen) count() N {
	switch g.Intn(12) {
	case 0:
		return bin("+", litInt(g.Intn(2)), litInt(g.Intn(2)))
	case 1:
		return g.param(encInt(g.Intn(4)))
	case 2:
		return g.pickN(litInt(-1), litStr("x"), lit(N{"null"}), lit(N{"flt", 3, 1}), litInt(100))
	}
	return litInt(g.Intn(5))
}

// literal pattern elements for hand-shaped cases
func nodeP(v string, labels N, props N) M { return M{"var": v, "labels": labels, "props": props} }
func relP(v, typ, dir string) M {
	t := N{}
	if typ != "" {
		t = N{typ}
	}
	return M{"var": v, "types": t, "dir": dir, "rng": none, "props": none}
}
func partP(start M, rest ...M) M {
	c := N{}
	for i := 0; i+1 < len(rest); i += 2 {
		c = append(c, M{"rel": rest[i], "node": rest[i+1]})
	}
	return M{"var": "", "start": start, "chain": c}
}
func matchP(parts ...M) M {
	l := N{}
	for _, p := range parts {
		l = append(l, p)
	}
	return M{"opt": false, "parts": l, "where": none}
}

func init() {
	// MATCH, one pattern
	props["C11"] = func(g *gen) script {
		return g.readSession(4, 5, 7, func(g *gen, r *runner, i int) []M {
			g.scope, g.params = nil, M{}
			m := g.match(1, patOpt{maxLen: 2, reuse: 0.15}, 0.25)
			return []M{g.exec(query(withRet(reads(m), g.retVars(g.Intn(2)))))}
		})
	}
	// MATCH, several patterns, clauses, OPTIONAL, bound variables
	props["C12"] = func(g *gen) script {
		s := g.readSession(4, 4, 6, nil)
		s.v0, s.fixed = g.ctxVars(s.g0, g.Intn(3))
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			ms := []M{}
			n := 1 + g.Intn(3)
			for k := 0; k < n; k++ {
				m := g.match(2, patOpt{maxLen: 1 + g.Intn(2), reuse: 0.35}, 0.4)
				if g.chance(0.35) {
					m["opt"] = true
				}
				ms = append(ms, m)
			}
			return []M{g.exec(query(withRet(reads(ms...), g.retVars(g.Intn(2))))),
				{"ev": "newctx", "vars": s.v0}}
		}
		return s
	}
	// variable length
	props["C13"] = func(g *gen) script {
		return g.readSession(4, 4, 6, func(g *gen, r *runner, i int) []M {
			g.scope, g.params = nil, M{}
			m := g.match(1, patOpt{maxLen: 2, varLen: 0.6, reuse: 0.2, maxRange: 3}, 0.2)
			rt := g.retVars(0)
			for _, x := range g.scope {
				// what can be asked of a walk
				if x.kind == "path" && g.chance(0.2) {
					rt["items"] = append(list(rt["items"]), N{g.pickN(prop(vr(x.name), "p"), prop(vr(x.name), "q"), call("type", vr(x.name)), cmp("=", vr(x.name), vr(x.name)),
						N{"in", vr(x.name), N{"list", N{vr(x.name)}}}, N{"isnull", vr(x.name)}), ""})
				}
			}
			return []M{g.exec(query(withRet(reads(m), rt)))}
		})
	}
	// queries that only read, and queries that fail
	props["C14"] = func(g *gen) script {
		s := g.readSession(4, 4, 7, nil)
		if s.index != nil {
			s.index = []string{"id"} // only this property never changes type
		}
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			g.ill = 0.12
			m := g.match(2, patOpt{maxLen: 2, varLen: 0.1, reuse: 0.2}, 0.4)
			if g.chance(0.2) {
				m["opt"] = true
			}
			sq := withRet(reads(m), g.retOpts(g.retVars(g.Intn(3))))
			q := query(sq)
			if g.chance(0.3) {
				q = query(sq, withRet(single(), ret(g.retLike(sq)...)))
				q["alls"] = N{g.chance(0.5)}
			}
			if g.chance(0.25) {
				// an update that fails before it touches anything
				u := single()
				if g.chance(0.5) {
					u = reads(m)
				}
				bad := g.pickN(N{"prop", vr(g.entOr("m")), "p", vr("nosuch")}, N{"prop", vr("nosuch"), "p", litInt(1)},
					N{"prop", vr(g.entOr("m")), "p", N{"param", "$nosuch"}}, N{"prop", vr(g.entOr("m")), "p", bin("/", litInt(1), litInt(0))})
				if g.chance(0.5) {
					q = g.failsLate(u, bad)
				} else {
					q = query(updates(u, M{"k": "set", "items": N{bad}}))
				}
			}
			return []M{g.exec(q)}
		}
		return s
	}
	// CREATE
	props["C15"] = func(g *gen) script {
		s := g.updSession(3, 2, 6, nil)
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			sq := single()
			if g.chance(0.45) {
				m := g.matchAll()
				if g.chance(0.2) {
					m["opt"] = true
				}
				sq = reads(m)
			}
			if len(list(sq["read"])) > 0 {
				updates(sq, g.createClause(1))
			} else {
				for n := 1 + g.Intn(2); n > 0; n-- {
					updates(sq, g.createClause(2))
				}
			}
			if g.chance(0.15) {
				updates(sq, g.setClause())
			}
			return []M{g.exec(query(g.maybeRet(sq, 0.6)))}
		}
		return s
	}
	// MERGE
	props["C16"] = func(g *gen) script {
		s := g.updSession(3, 2, 6, nil)
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			sq := single()
			if g.chance(0.5) {
				sq = reads(g.matchAll())
			}
			updates(sq, g.mergeClause())
			if g.chance(0.2) {
				updates(sq, g.mergeClause())
			}
			e := g.exec(query(g.maybeRet(sq, 0.5)))
			if g.chance(0.3) {
				// again: it now matches
				f := M{}
				for k, v := range e {
					f[k] = v
				}
				return []M{e, {"ev": "newctx", "vars": M{}}, f}
			}
			return []M{e}
		}
		return s
	}
	// SET and REMOVE
	props["C17"] = func(g *gen) script {
		s := g.updSession(4, 4, 6, nil)
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			m := g.match(2, patOpt{maxLen: 1, reuse: 0.1}, 0.3)
			if g.chance(0.2) {
				m["opt"] = true
			}
			sq := reads(m)
			for n := 1 + g.Intn(2); n > 0; n-- {
				if g.chance(0.65) {
					updates(sq, g.setClause())
				} else {
					updates(sq, g.removeClause())
				}
			}
			if len(list(sq["upd"])) == 0 {
				withRet(sq, g.retVars(0))
			}
			return []M{g.exec(query(g.maybeRet(sq, 0.4)))}
		}
		return s
	}
	// DELETE
	props["C18"] = func(g *gen) script {
		s := g.updSession(5, 6, 5, nil)
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			sq := single()
			if len(r.w.nodes) < 2 {
				updates(sq, g.createClause(2))
				return []M{g.exec(query(sq))}
			}
			o, parts := patOpt{maxLen: 1 + g.Intn(2), reuse: 0.1, noProps: g.chance(0.6)}, 2
			if g.chance(0.35) {
				o.varLen, o.maxRange, o.maxLen, parts = 0.8, 3, 1, 1
			}
			m := g.match(parts, o, 0.3)
			if g.chance(0.2) {
				m["opt"] = true
			}
			sq = reads(m)
			if g.chance(0.2) {
				// the walks from one node, or between two
				g.scope = []sv{}
				id := func() N { return N{"map", N{N{"id", litInt(g.Intn(5))}}} }
				from, to := nodeP(g.freshVar("n"), N{}, id()), nodeP("", N{}, none)
				if g.chance(0.5) {
					to["props"] = id()
				}
				rel := relP(g.freshVar("r"), "", g.pick("out", "out", "in", "none"))
				rel["types"] = N{}
				if g.chance(0.3) {
					rel["types"] = N{"R"}
				}
				lo := 1 + g.Intn(3)
				rel["rng"] = N{lo, lo + g.Intn(2)}
				g.scope = []sv{{str(rel["var"]), "path"}}
				if g.chance(0.3) {
					g.scope = append(g.scope, sv{str(from["var"]), "node"})
				}
				sq = reads(matchP(partP(from, rel, to)))
			}
			if d := g.deleteClause(); d != nil {
				updates(sq, d)
			} else {
				withRet(sq, g.retVars(0))
			}
			return []M{g.exec(query(sq))}
		}
		return s
	}
	// UNION and the result-set interface
	props["C19"] = func(g *gen) script {
		s := g.updSession(3, 3, 8, nil)
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			if g.chance(0.45) {
				if g.chance(0.25) {
					return []M{g.rsetEvent(r)}
				}
				return []M{g.apiEvent()}
			}
			q := M{"singles": N{}, "alls": N{}}
			n := 2 + g.Intn(2)
			cols := 1 + g.Intn(2)
			for k := 0; k < n; k++ {
				g.scope = nil
				sq := single()
				if g.chance(0.6) {
					sq = reads(g.match(1, patOpt{maxLen: 1, noProps: true}, 0.2))
				}
				items := N{}
				for c := 0; c < cols; c++ {
					var e N
					switch x := g.entVar("node", "rel"); {
					case x != "" && g.chance(0.3):
						e = vr(x)
					case x != "" && g.chance(0.7):
						e = prop(vr(x), g.pick("p", "q"))
					default:
						e = g.pickN(litInt(g.Intn(2)), lit(N{"flt", 1, 0}), litStr("x"), lit(N{"null"}), N{"list", N{litInt(1)}}, lit(N{"bool", true}), N{"list", N{}})
					}
					items = append(items, N{e, []string{"a", "b"}[c]})
				}
				withRet(sq, ret(items...))
				if g.chance(0.2) {
					sq["ret"].(M)["distinct"] = true
				}
				q["singles"] = append(q["singles"].(N), sq)
				if k > 0 {
					q["alls"] = append(q["alls"].(N), g.chance(0.5))
				}
			}
			return []M{g.exec(q)}
		}
		return s
	}
	// RETURN
	props["C20"] = func(g *gen) script {
		s := g.readSession(4, 4, 7, nil)
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params, g.scope = M{}, nil
			sq := single()
			if g.chance(0.9) {
				m := g.match(1+g.Intn(2), patOpt{maxLen: 1, noProps: g.chance(0.6)}, 0.2)
				if g.chance(0.2) {
					m["opt"] = true
				}
				sq = reads(m)
			}
			rt := g.retVars(g.Intn(3))
			switch g.Intn(6) {
			case 0:
				rt = ret()
				rt["all"] = true
			case 1:
				its := N{}
				for n := 1 + g.Intn(2); n > 0; n-- {
					if x := g.entVar("node"); x != "" && g.chance(0.6) {
						its = append(its, N{g.pickN(prop(vr(x), "p"), call("labels", vr(x)), prop(vr(x), "q")), g.alias("")})
					} else if x := g.entVar("rel"); x != "" {
						its = append(its, N{g.pickN(call("type", vr(x)), prop(vr(x), "p")), g.alias("")})
					} else {
						its = append(its, N{g.ex("any", 2), g.alias("")})
					}
				}
				rt = ret(its...)
				rt["all"] = g.chance(0.2) && len(list(sq["read"])) > 0
			case 2:
				// few distinct values
				if x := g.entVar("node"); x != "" {
					rt = ret(N{prop(vr(x), g.pick("p", "q")), ""})
				}
			}
			g.retOpts(rt)
			if g.chance(0.15) {
				// values that are alike, one or another for each row
				v := g.freshVar("n")
				parts := []M{partP(nodeP(v, N{}, none))}
				if g.chance(0.3) {
					parts = append(parts, partP(nodeP("", N{}, none)))
				}
				sq = reads(matchP(parts...))
				alts := N{}
				vs := g.related(2+g.Intn(3), "deep", "deep", "map", "map", "list", "any", "int", "flt", "dur")
				for k, x := range vs[1:] {
					alts = append(alts, N{litInt(k), g.valExpr(x)})
				}
				its := N{N{N{"case", prop(vr(v), g.pick("p", "id")), alts, g.valExpr(vs[0])}, ""}}
				if g.chance(0.2) {
					its = append(its, N{prop(vr(v), "q"), ""})
				}
				rt = ret(its...)
				rt["distinct"] = g.chance(0.8)
				if g.chance(0.2) {
					rt["limit"] = g.count()
				}
			}
			return []M{g.exec(query(withRet(sq, rt))), {"ev": "newctx", "vars": M{}}}
		}
		return s
	}
	// the evaluation context
	props["C21"] = func(g *gen) script {
		s := g.updSession(3, 3, 8, nil)
		s.v0, _ = g.ctxVars(s.g0, 1+g.Intn(2))
		s.v0["c0"] = g.val(g.pick("sint", "str", "list", "null"))
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			if g.chance(0.3) {
				g.params = M{}
			}
			if _, ok := r.vars()["c0"]; ok {
				g.scope = append(g.scope, sv{"c0", "sint"})
			}
			if g.chance(0.25) {
				return []M{g.scopeOps()}
			}
			sq := single()
			switch g.Intn(8) {
			case 0:
				updates(sq, g.createClause(1))
			case 1:
				updates(sq, g.mergeClause())
			case 2, 3:
				sq = reads(g.match(1, patOpt{maxLen: 1, reuse: 0.4}, 0.3))
				withRet(sq, g.retOpts(g.retVars(g.Intn(2))))
			case 4:
				withRet(sq, g.retVars(1+g.Intn(2)))
			case 5:
				sq = reads(g.match(1, patOpt{maxLen: 1, reuse: 0.4}, 0.3))
				updates(sq, g.createClause(1))
				g.maybeRet(sq, 0.3)
			case 6:
				// shadowing: a matched variable with the name of one in the context that is no entity
				withRet(sq, ret(N{g.pickN(vr("c0"), vr("nosuch"), N{"param", "$nosuch"}, g.param(g.val("str"))), g.alias("")}))
			default:
				sq = reads(g.match(1, patOpt{maxLen: 1, reuse: 0.2}, 0.3))
				updates(sq, g.setClause(), g.removeClause())
				if len(list(sq["upd"])) == 0 {
					withRet(sq, g.retVars(0))
				}
			}
			return []M{g.exec(query(sq))}
		}
		return s
	}
	// a parsed query evaluated again and again
	props["C22"] = func(g *gen) script {
		s := g.updSession(3, 3, 3, nil)
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			q := g.anyQuery()
			text := renderer{r: g.Rand}.query(q)
			key := g.freshVar("key")
			e := M{"ev": "exec", "q": q, "par": g.takeParams(), "filt": "none", "text": text, "cache": key}
			evs := []M{}
			for n := 2 + g.Intn(3); n > 0; n-- {
				f := M{}
				for k, v := range e {
					f[k] = v
				}
				// other values for the parameters
				if par := g.takeParams(); len(par) > 0 && g.chance(0.6) {
					for _, k := range sortedKeys(par) {
						v := par[k]
						switch str(v.(N)[0]) {
						case "map":
							par[k] = N{"map", M{"p": encInt(g.Intn(3))}}
						default:
							par[k] = g.val(str(v.(N)[0]))
						}
					}
					f["par"] = par
				}
				evs = append(evs, f)
				if g.chance(0.5) {
					evs = append(evs, M{"ev": "newctx", "vars": g.sameKinds(r, q)})
				}
			}
			return evs
		}
		return s
	}
	// long random histories of updates
	props["C23"] = func(g *gen) script {
		s := g.updSession(3, 3, 12, nil)
		s.tidy, s.cap = true, 24
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			sq := single()
			if g.chance(0.6) {
				ms := []M{}
				for n := 1 + g.Intn(2); n > 0; n-- {
					m := g.match(1, patOpt{maxLen: 1, varLen: 0.08, reuse: 0.3}, 0.3)
					if len(ms) > 0 && g.chance(0.4) {
						m["opt"] = true
					}
					ms = append(ms, m)
				}
				sq = reads(ms...)
			}
			if len(r.w.nodes) > 7 {
				g.scope = nil
				sq = reads(g.match(1, patOpt{maxLen: 1, noProps: true}, 0.5))
				d := g.deleteClause()
				if d != nil {
					d["detach"] = true
					return []M{g.exec(query(updates(sq, d)))}
				}
			}
			for n := 1 + g.Intn(2); n > 0; n-- {
				u := g.updClause()
				if len(list(sq["read"])) == 0 && len(list(sq["upd"])) == 0 && str(u["k"]) != "create" && str(u["k"]) != "merge" && g.chance(0.9) {
					u = g.createClause(2)
				}
				updates(sq, u)
				if str(u["k"]) == "delete" {
					// nothing may follow that refers to what is gone
					return []M{g.exec(query(sq))}
				}
			}
			q := query(g.maybeRet(sq, 0.5))
			if g.chance(0.08) {
				g.scope = nil
				q = query(sq, updates(single(), g.createClause(1)))
			}
			return []M{g.exec(q)}
		}
		return s
	}
	// the property filter
	props["C24"] = func(g *gen) script {
		s := g.updSession(3, 2, 7, nil)
		s.tidy = true
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params = M{}
			if g.chance(0.1) {
				return []M{g.scopeOps()}
			}
			sq := single()
			if g.chance(0.5) {
				sq = reads(g.matchAll())
				updates(sq, g.updClause())
			} else if g.chance(0.5) {
				updates(sq, g.createClause(2))
			} else {
				updates(sq, g.mergeClause())
			}
			if g.chance(0.3) && str(list(sq["upd"])[0].(M)["k"]) != "delete" {
				updates(sq, g.setClause())
			}
			e := g.exec(query(sq))
			e["filt"] = g.pick("log", "shift", "shift", "none")
			return []M{e}
		}
		return s
	}
	// pattern expressions relative to a node
	props["C25"] = func(g *gen) script {
		s := g.readSession(4, 5, 7, nil)
		s.mk = func(g *gen, r *runner, i int) []M {
			ids := list(s.g0["nodes"])
			if len(ids) == 0 {
				return []M{exec(retQuery(litInt(1)), M{})}
			}
			g.scope, g.params = nil, M{}
			vars := []sv{}
			p := g.partPat(patOpt{maxLen: 3, varLen: 0.15, reuse: 0.1, anonRel: g.chance(0.8)}, &vars)
			for walkBound(p, s.g0) > 1500 {
				vars = vars[:0]
				p = g.partPat(patOpt{maxLen: 2, varLen: 0.1, reuse: 0.1, anonRel: g.chance(0.8)}, &vars)
			}
			// name one node "this" and another "target"
			nodes := []M{p["start"].(M)}
			for _, c := range list(p["chain"]) {
				nodes = append(nodes, c.(M)["node"].(M))
			}
			a := g.Intn(len(nodes))
			b := g.Intn(len(nodes))
			names := map[string]bool{}
			for k, n := range nodes {
				if k != a && k != b {
					continue
				}
				names[str(n["var"])] = true
			}
			for k, n := range nodes {
				if names[str(n["var"])] {
					n["var"] = ""
				}
				if k == a {
					n["var"] = "this"
				} else if k == b {
					n["var"] = "target"
				}
				if n["props"] != nil && str(n["props"].(N)[0]) == "param" {
					n["props"] = none
				}
			}
			for _, c := range list(p["chain"]) {
				rp := c.(M)["rel"].(M)
				if str(rp["props"].(N)[0]) == "param" {
					rp["props"] = none
				}
			}
			g.params = M{}
			return []M{{"ev": "rel", "part": p, "node": ids[g.Intn(len(ids))].(N)[0]}}
		}
		return s
	}
}

// failsLate is a query that fails when it has updated something already
func (g *gen) failsLate(sq M, badSet N) M {
	badEx := g.pickN(vr("nosuch"), bin("/", litInt(1), litInt(0)), N{"param", "$nosuch"})
	vars := []sv{}
	parts := N{g.createPart(&vars, 1)}
	if start := parts[0].(M)["start"].(M); str(start["var"]) == "" {
		start["var"] = g.freshVar("n")
		vars = append(vars, sv{str(start["var"]), "node"})
	}
	bad := g.createPart(&vars, 1)
	bad["start"] = M{"var": g.freshVar("n"), "labels": N{"B"}, "props": N{"map", N{N{"p", badEx}}}}
	switch g.Intn(5) {
	case 0, 1:
		return query(updates(sq, M{"k": "create", "parts": append(parts, bad)}))
	case 2:
		return query(updates(sq, M{"k": "create", "parts": parts}, M{"k": "set", "items": N{badSet}}))
	case 3:
		g.scope = append(g.scope, vars...)
		return query(withRet(updates(sq, M{"k": "create", "parts": parts}), ret(N{badEx, g.alias("")})))
	}
	m := g.mergeClause()
	m["actions"] = N{M{"on": "create", "items": N{badSet}}, M{"on": "match", "items": N{badSet}}}
	return query(updates(sq, m))
}

// walkBound bounds the number of matches of a path pattern starting at one node
func walkBound(p, g0 M) float64 {
	deg := map[string]int{}
	max := 1
	for _, e := range list(g0["edges"]) {
		for _, end := range []int{1, 2} {
			k := fmt.Sprint(e.(N)[end])
			deg[k]++
			if deg[k] > max {
				max = deg[k]
			}
		}
	}
	total := 1.0
	for _, c := range list(p["chain"]) {
		rng := list(c.(M)["rel"].(M)["rng"])
		steps := 1
		if len(rng) > 1 {
			steps = num(rng[1])
			if n := len(list(g0["edges"])); steps < 0 || steps > n {
				steps = n
			}
		}
		w := 0.0
		for k := 1; k <= steps; k++ {
			f := 1.0
			for j := 0; j < k; j++ {
				f *= float64(max - j)
				if max-j <= 1 {
					break
				}
			}
			w += f
		}
		total *= w
	}
	return total
}

func (g *gen) entOr(d string) string {
	if v := g.entVar("node", "rel"); v != "" {
		return v
	}
	return d
}

// retLike: constants for the columns of another RETURN
func (g *gen) retLike(sq M) []any {
	out := []any{}
	for i, it := range list(sq["ret"].(M)["items"]) {
		a := str(it.(N)[1])
		if a == "" {
			a = itoa(i + 1)
		}
		out = append(out, N{litInt(i), a})
	}
	return out
}

// anyQuery draws a reading or updating query
func (g *gen) anyQuery() M {
	sq := single()
	switch g.Intn(8) {
	case 0, 1, 2:
		m := g.match(2, patOpt{maxLen: 2, varLen: 0.15, reuse: 0.2}, 0.6)
		if g.chance(0.2) {
			m["opt"] = true
		}
		withRet(reads2(sq, m), g.retOpts(g.retVars(g.Intn(2))))
	case 3:
		updates(sq, g.createClause(2))
		g.maybeRet(sq, 0.5)
	case 4:
		updates(sq, g.mergeClause())
		g.maybeRet(sq, 0.5)
	case 5:
		reads2(sq, g.matchAll())
		updates(sq, g.setClause(), g.removeClause())
		g.maybeRet(sq, 0.5)
		if len(list(sq["upd"])) == 0 {
			withRet(sq, g.retVars(1))
		}
	case 6:
		withRet(sq, g.retVars(2))
	default:
		reads2(sq, g.matchAll())
		updates(sq, g.createClause(1))
		g.maybeRet(sq, 0.5)
	}
	return query(sq)
}

func reads2(sq M, m M) M { sq["read"] = append(list(sq["read"]), m); return sq }

// sameKinds: a fresh context that has the variables of the current one
func (g *gen) sameKinds(r *runner, q M) M {
	m := M{}
	vars := r.vars()
	for _, s := range ctxScope(r, 4) {
		v := vars[s.name].(N)
		if live(r, v) {
			m[s.name] = v
		}
	}
	return m
}

// apiEvent draws a call of the result-set interface
func (g *gen) apiEvent() M {
	v := func() N {
		switch g.Intn(8) {
		case 0:
			return N{"null"}
		case 1:
			return N{"flt", 1, 0}
		case 2:
			return g.val(g.pick("bool", "date", "dur", "ltime", "ldt"))
		case 3:
			return N{"list", N{g.val(g.pick("sint", "null", "str")), encInt(1)}}
		case 4:
			return N{"map", M{"a": g.val(g.pick("sint", "null"))}}
		case 5:
			return encStr(g.pick("x", "y"))
		default:
			return encInt(g.Intn(3))
		}
	}
	rows := func(cols []string, n int) N {
		out := N{}
		for ; n > 0; n-- {
			m := M{}
			for _, c := range cols {
				m[c] = v()
			}
			out = append(out, m)
			if g.chance(0.2) {
				out = append(out, m)
			}
		}
		return out
	}
	switch g.Intn(5) {
	case 0, 1:
		a := g.val("any")
		b := g.val("any")
		switch g.Intn(7) {
		case 3, 4:
			l := g.related(2, "any", "int", "flt", "str", "dur", "list", "map")
			a, b = l[0], l[1]
		case 5, 6:
			l := g.related(2, "deep")
			a, b = l[0], l[1]
		case 0:
			b = a
		case 1:
			a, b = v(), v()
		case 2:
			a = N{"list", N{v(), v()}}
			b = N{"list", N{v(), v()}}
			if g.chance(0.5) {
				b = N{"list", append(N{}, list(a[1])...)}
			}
		}
		return M{"ev": "same", "a": a, "b": b}
	case 2:
		sets := N{}
		names := []string{"a", "b", "c"}
		n := g.Intn(4)
		for i := 0; i < n; i++ {
			sets = append(sets, rows(names[i:i+1], g.Intn(3)))
		}
		return M{"ev": "cart", "sets": sets, "all": g.chance(0.5), "flt": g.pick("", "", "a", "b")}
	case 3:
		return M{"ev": "colcart", "rows": rows([]string{"a", "b"}[:1+g.Intn(2)], g.Intn(4))}
	default:
		c := []string{"a", "b"}[:1+g.Intn(2)]
		all := g.chance(0.5)
		x, y := rows(c, g.Intn(4)), rows(c, g.Intn(4))
		if g.chance(0.3) {
			// rows that are alike
			for _, r := range append(append(N{}, x...), y...) {
				m := M{}
				for _, k := range sortedKeys(r.(M)) {
					m[k] = r.(M)[k]
					if g.chance(0.4) {
						m[k] = g.near(m[k].(N))
					}
				}
				y = append(y, m)
			}
		} else if g.chance(0.4) {
			// rows of y repeat rows of x, in part, in full, or with more columns
			for _, r := range x {
				m := M{}
				for _, k := range sortedKeys(r.(M)) {
					if g.chance(0.8) {
						m[k] = r.(M)[k]
					}
				}
				if g.chance(0.4) {
					m[g.pick("a", "b", "c")] = v()
				}
				y = append(y, m)
			}
		}
		return M{"ev": "union", "a": x, "b": y, "all": all}
	}
}

func itoa(i int) string { return string(rune('0' + i)) }

// rsetEvent builds a result set by calls of its methods
func (g *gen) rsetEvent(r *runner) M {
	ns, es := r.w.ids()
	var ops func(d int, edges bool) N
	ops = func(d int, edges bool) N {
		out := N{}
		for n := 1 + g.Intn(4); n > 0; n-- {
			switch k := g.Intn(6); {
			case k == 0 && len(ns)+len(es) > 0 && edges:
				id, l := -1, N{}
				if len(ns) > 0 && g.chance(0.7) {
					id = ns[g.Intn(len(ns))]
				}
				for m := g.Intn(3); m > 0 && len(es) > 0; m-- {
					l = append(l, es[g.Intn(len(es))])
				}
				out = append(out, N{"path", id, l})
			case k == 1 && d > 0:
				out = append(out, N{"add", ops(d-1, edges)})
			case k == 2 && d > 0 && !edges:
				out = append(out, N{"union", ops(d-1, false), g.chance(0.5)})
			default:
				row := M{}
				for _, c := range []string{"a", "b", "c"} {
					switch x := g.Intn(6); {
					case x == 0:
					case x < 3 && len(ns) > 0:
						row[c] = N{"node", ns[g.Intn(len(ns))]}
					case x == 3 && len(es) > 0 && edges:
						row[c] = N{"rel", N{es[g.Intn(len(es))]}}
					default:
						row[c] = g.val(g.pick("null", "str", "bool"))
					}
				}
				out = append(out, N{"append", row})
			}
		}
		return out
	}
	return M{"ev": "rset", "ops": ops(2, g.chance(0.5))}
}
