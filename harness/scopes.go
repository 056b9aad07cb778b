package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// runScopes performs operations on a tree of evaluation contexts, see spec/Scopes.tla
func runScopes(ops N) N {
	w := load(M{}, nil)
	root := oc.NewEvalContext(w.g)
	scopes := []*oc.EvalContext{root}
	outs := N{}
	done := N{"ok", N{"null"}}
	one := func(v oc.Value, err error) N {
		if err != nil {
			return N{"err"}
		}
		if rs, ok := v.Get().(oc.ResultSet); ok {
			if len(rs.Rows) != 1 {
				return N{"rows", len(rs.Rows)}
			}
			for _, x := range rs.Rows[0] {
				return N{"ok", encV(x)}
			}
			return N{"rows", 0}
		}
		return N{"ok", encV(v)}
	}
	for _, x := range ops {
		op := x.(N)
		c := scopes[num(op[1])-1]
		out := done
		switch str(op[0]) {
		case "sub":
			scopes = append(scopes, c.SubContext())
		case "filter":
			switch str(op[2]) {
			case "shift":
				c.PropertyValueFromNativeFilter = func(k string, v interface{}) interface{} {
					if i, ok := v.(int); ok {
						return i + 1
					}
					return v
				}
			default:
				c.PropertyValueFromNativeFilter = nil
			}
		case "setvar":
			c.SetVar(str(op[2]), oc.RValue{Value: dec(op[3].(N), w)})
		case "setvars":
			m := map[string]oc.Value{}
			for k, v := range objOf(op[2]) {
				m[k] = oc.RValue{Value: dec(v.(N), w)}
			}
			c.SetVars(m)
		case "rmvar":
			c.RemoveVar(str(op[2]))
		case "setpar":
			c.SetParameter(str(op[2]), oc.RValue{Value: dec(op[3].(N), w)})
		case "getvar":
			v, err := c.GetVar(str(op[2]))
			out = one(v, err)
		case "getpar":
			v, err := c.GetParameter(str(op[2]))
			out = one(v, err)
		case "retvar":
			v, err := oc.ParseAndEvaluate("RETURN "+str(op[2])+" AS zz", c)
			out = one(v, err)
		case "retpar":
			v, err := oc.ParseAndEvaluate("RETURN "+str(op[2])+" AS zz", c)
			out = one(v, err)
		case "nearest":
			m := M{}
			for k, v := range c.GetVarsNearestScope() {
				m[k] = encV(v)
			}
			out = N{"map", m}
		case "put":
			before := map[*lpg.Node]bool{}
			for it := w.g.GetNodes(); it.Next(); {
				before[it.Node()] = true
			}
			sub := c
			sub.SetParameter("$put", oc.RValue{Value: dec(op[2].(N), w)})
			if _, err := oc.ParseAndEvaluate("CREATE ({p: $put})", sub); err != nil {
				out = N{"err"}
				break
			}
			out = N{"none"}
			for it := w.g.GetNodes(); it.Next(); {
				if !before[it.Node()] {
					v, _ := it.Node().GetProperty("p")
					out = N{"ok", enc(v)}
				}
			}
		case "create":
			if _, err := oc.ParseAndEvaluate("CREATE ("+str(op[2])+")", c); err != nil {
				out = N{"err"}
			}
		}
		outs = append(outs, out)
	}
	return outs
}

// scopeOps draws a sequence of operations
func (g *gen) scopeOps() M {
	ops := N{}
	n, nodes := 1, 0
	v := func() N {
		switch g.Intn(5) {
		case 0:
			return encStr(g.pick("x", "é"))
		case 1:
			return N{"null"}
		default:
			return encInt(g.Intn(5))
		}
	}
	name := func() string { return g.pick("x", "y", "z") }
	par := func() string { return g.pick("$p", "$q") }
	for k := 10 + g.Intn(25); k > 0; k-- {
		i := 1 + g.Intn(n)
		if g.chance(0.4) {
			i = n
		}
		switch g.Intn(14) {
		case 0, 1:
			if n < 5 {
				ops = append(ops, N{"sub", i})
				n++
			}
		case 2, 3:
			ops = append(ops, N{"setvar", i, name(), v()})
		case 4:
			m := M{}
			for j := g.Intn(3); j > 0; j-- {
				m[name()] = v()
			}
			ops = append(ops, N{"setvars", i, m})
		case 5:
			ops = append(ops, N{"rmvar", i, name()})
		case 6, 7:
			ops = append(ops, N{"setpar", i, par(), v()})
		case 8:
			ops = append(ops, N{g.pick("getvar", "retvar"), i, name()})
		case 9:
			ops = append(ops, N{g.pick("getpar", "retpar"), i, par()})
		case 10:
			ops = append(ops, N{"nearest", i})
		case 11:
			ops = append(ops, N{"put", i, encInt(g.Intn(5))})
			nodes++
		case 12:
			if g.chance(0.5) {
				ops = append(ops, N{"filter", i, g.pick("shift", "none")})
			} else {
				ops = append(ops, N{"create", i, fmt.Sprintf("n%d", g.Intn(1000)), nodes})
				nodes++
			}
		default:
			// look at everything
			for j := 1; j <= n; j++ {
				ops = append(ops, N{"nearest", j}, N{"getvar", j, name()}, N{"getpar", j, par()})
			}
		}
	}
	return M{"ev": "scopes", "ops": ops}
}
