package main

import (
	"fmt"
	"strconv"
	"strings"
)

// static is a script whose events are all known in advance
type static struct {
	g0, v0 M
	index  []string
	evs    []M
	i      int
}

func (s *static) start() (M, M, []string) { return s.g0, s.v0, s.index }
func (s *static) next(*runner, M) M {
	if s.i >= len(s.evs) {
		return nil
	}
	s.i++
	return s.evs[s.i-1]
}

// props maps a property to the generator of its histories
var props = map[string]func(*gen) script{}

var operandScope = []sv{{"i", "int"}, {"s", "str"}, {"l", "list"}, {"u", "null"}, {"d", "date"}, {"t", "bool"}, {"x", "flt"}, {"w", "dur"}, {"z", "ltime"}, {"y", "ldt"}}

func exprScript(n int, f func(g *gen) N) func(*gen) script {
	return func(g *gen) script {
		s := &static{g0: M{}, v0: M{}}
		rows := false
		switch g.Intn(3) {
		case 0:
			// the operands also come from variables
			g.scope = operandScope
			for _, v := range g.scope {
				s.v0[v.name] = g.val(v.kind)
			}
		case 1:
			// the operands come from the properties of the nodes of several rows
			rows = true
			nodes := N{}
			for i := 0; i < 2+g.Intn(2); i++ {
				m := M{}
				for _, v := range operandScope {
					if v.kind != "null" && g.chance(0.85) {
						m[v.name] = g.val(v.kind)
					}
				}
				nodes = append(nodes, N{i, N{}, m})
			}
			s.g0 = graphOf(nodes, N{})
			for _, v := range operandScope {
				g.scope = append(g.scope, sv{"n." + v.name, v.kind})
			}
		}
		for i := 0; i < n; i++ {
			q := retQuery(f(g))
			if rows {
				list(q["singles"])[0].(M)["read"] = N{M{"opt": false, "parts": N{M{"var": "", "start": M{"var": "n", "labels": N{}, "props": none}, "chain": N{}}}, "where": none}}
			}
			e := exec(q, g.takeParams())
			s.evs = append(s.evs, e)
			if rows {
				s.evs = append(s.evs, M{"ev": "newctx", "vars": M{}})
			}
			if g.chance(0.15) && i+1 < n {
				// the parsed query again, with other values for the parameters
				i++
				e["text"] = renderer{r: g.Rand}.query(q)
				e["cache"] = g.freshVar("again")
				s.evs = append(s.evs, g.again(e))
				if rows {
					s.evs = append(s.evs, M{"ev": "newctx", "vars": M{}})
				}
			}
		}
		return s
	}
}

// again evaluates what e has parsed with other values for some parameters
func (g *gen) again(e M) M {
	f := M{}
	for k, v := range e {
		f[k] = v
	}
	par := M{}
	old := objOf(e["par"])
	for _, k := range sortedKeys(old) {
		v := old[k]
		if g.chance(0.3) {
			par[k] = v
			continue
		}
		switch kind := str(v.(N)[0]); kind {
		case "big":
			par[k] = g.val("int")
		case "dbl":
			par[k] = g.val("flt")
		default:
			par[k] = g.val(kind)
		}
	}
	f["par"] = par
	return f
}

var numberTexts = []string{"0", "1", "-1", "+5", "007", "42", " 1", "1 ", "", "-", "+", "1.5", "-0.25", "2.0", ".5", "5.", "1e3", "abc", "true", "1,000", "9223372036854775807", "9223372036854775808",
	"-9223372036854775808", "-9223372036854775809", "12345678901", "--1", "1-", "0x10", "1_000", "１", "NaN", "999999999", "1000000000", "null", "1.25", "100.125", "3.1",
	"1e18", "1e19", "-1e18", "9007199254740993.0", "9.9e-1", "-2.999", "1e400", "-1e400", "1e-400", "4.9e-324", "2e-324", "9223372036854775807.5", "-9223372036854775808.5",
	"1e", "e5", "1e+2", "1E-2", "1e1.5", ".", "-.5", "+.5e1", "1.2.3", "0.1", "123456789012345678", "0.30000000000000004", "2.5f", "1d", "\t1", "1\n", "000000000000000000000001", "-0", "-0.0", "٣"}

// text of numbers, mostly
func (g *gen) numberText() string {
	switch g.Intn(6) {
	case 0:
		return strconv.FormatFloat(g.oddFloat(), 'g', -1, 64)
	case 1:
		return fmt.Sprintf("%d.%d", g.intVal(), g.Intn(1000))
	case 2:
		return fmt.Sprintf("%de%d", g.Intn(100)-20, g.Intn(60)-30)
	}
	return numberTexts[g.Intn(len(numberTexts))]
}

var conversions = exprScript(14, func(g *gen) N {
	f := g.pick("toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull")
	if g.chance(0.06) {
		// unknown functions, wrong numbers of arguments
		f = g.pick("toInt", "tointeger", "nosuch", "TOINTEGER", "Size", "subString", "toFloatornull", "a.toFloat", "toInteger", "toFloat", "range", "left", "substring", "split", "size", "type", "labels", "date", "trim")
		l := N{}
		for n := g.Intn(5); n > 0; n-- {
			l = append(l, g.ex(g.pick("sint", "str"), 0))
		}
		return N{"call", f, l}
	}
	if g.chance(0.5) {
		s := lit(encStr(g.numberText()))
		if g.chance(0.15) {
			return call(f, call(g.pick("toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull"), s))
		}
		return call(f, s)
	}
	return call(f, g.ex(g.pick("int", "flt", "flt", "bool", "str", "list", "null", "any"), 1))
})

// entityFuncs is a history about functions of nodes and relationships
func (g *gen) entityFuncs() script {
	s := &static{g0: g.graph(4, 4), v0: M{}}
	for i := 0; i < 8; i++ {
		g.params = M{}
		g.scope = nil
		nv, rv, mv := g.freshVar("n"), g.freshVar("r"), g.freshVar("m")
		arg := func() N {
			switch g.Intn(14) {
			case 0:
				return lit(N{"null"})
			case 1:
				return g.ex("any", 0)
			case 2, 3, 4, 5:
				return vr(rv)
			case 6:
				return vr(mv)
			}
			return vr(nv)
		}
		item := func() N {
			switch g.Intn(8) {
			case 0, 1, 2:
				return call("type", g.pickN(vr(rv), vr(rv), vr(rv), arg()))
			case 3, 4, 5:
				return call("labels", g.pickN(vr(nv), vr(mv), vr(nv), arg()))
			case 6:
				return call(g.pick("size", "toInteger", "toFloat", "toIntegerOrNull", "toFloatOrNull", "trim"), arg())
			default:
				return g.pickN(call("size", call("labels", vr(nv))), cmp("=", call("type", vr(rv)), litStr(g.pick("R", "S", "r"))), N{"in", litStr(g.pick("A", "B")), call("labels", vr(mv))})
			}
		}
		sq := single()
		rng := none
		if g.chance(0.25) {
			lo := 1 + g.Intn(2)
			rng = N{lo, lo + g.Intn(2)}
		}
		read := N{M{"opt": g.chance(0.2), "where": none, "parts": N{M{"var": "", "start": nodeP(nv, g.labels(1), none),
			"chain": N{M{"rel": M{"var": rv, "types": N{}, "dir": g.pick("out", "in", "both"), "rng": rng, "props": none}, "node": nodeP(mv, N{}, none)}}}}}}
		sq["read"] = read
		sq["hasret"] = true
		items := N{}
		for n := 1 + g.Intn(2); n > 0; n-- {
			items = append(items, N{item(), ""})
		}
		sq["ret"] = ret(items...)
		s.evs = append(s.evs, exec(query(sq), g.takeParams()), M{"ev": "newctx", "vars": M{}})
	}
	return s
}

// operand of the given kinds, sometimes of any kind
func (g *gen) operand(kinds ...string) N {
	if g.chance(0.12) {
		return g.ex("any", 1)
	}
	return g.ex(g.pick(kinds...), g.Intn(2))
}

func init() {
	// arithmetic
	props["C01"] = exprScript(14, func(g *gen) N {
		switch g.Intn(6) {
		case 0:
			return bin(g.pick("+", "-", "*", "/", "%"), g.operand("int"), g.operand("int"))
		case 1:
			if g.chance(0.4) {
				// floats and integers of any size
				g.oddFlt = 0.7
				defer func() { g.oddFlt = 0.2 }()
				return bin(g.pick("+", "-", "*", "/", "%", "%"), g.operand("int", "flt"), g.operand("int", "flt", "sint"))
			}
			return bin(g.pick("+", "-", "*", "/", "%", "^"), g.operand("sint", "flt"), g.operand("sint", "flt"))
		case 2:
			e := g.operand("sint")
			for n := 2 + g.Intn(3); n > 0; n-- {
				if g.chance(0.8) {
					e = bin(g.pick("+", "-", "*", "/", "%"), e, g.operand("sint"))
				} else {
					e = bin(g.pick("+", "-", "*", "/", "%"), g.operand("sint"), e)
				}
			}
			return e
		case 3:
			return N{g.pick("neg", "neg", "pos"), g.operand("int", "flt", "any")}
		case 4:
			return bin(g.pick("+", "-", "*", "/", "%", "^"), g.ex("any", 1), g.ex("any", 1))
		default:
			return g.ex(g.pick("int", "flt", "sint"), 3)
		}
	})
	// three-valued logic
	props["C02"] = exprScript(14, func(g *gen) N {
		tri := func() N {
			switch g.Intn(9) {
			case 0, 1:
				return lit(N{"bool", true})
			case 2, 3:
				return lit(N{"bool", false})
			case 4, 5:
				return lit(N{"null"})
			case 6:
				return g.ex("bool", 2)
			case 7:
				return cmp(g.pick("=", "<"), g.operand("sint"), g.operand("sint"))
			default:
				return g.leaf("bool")
			}
		}
		var tree func(d int) N
		tree = func(d int) N {
			if d == 0 || g.chance(0.2) {
				return tri()
			}
			switch g.Intn(6) {
			case 0:
				return N{"not", tree(d - 1)}
			case 1:
				return N{g.pick("isnull", "isnotnull"), tree(d - 1)}
			default:
				l := N{}
				for n := 2 + g.Intn(3); n > 0; n-- {
					l = append(l, tree(d-1))
				}
				return N{g.pick("and", "or", "xor"), l}
			}
		}
		return tree(1 + g.Intn(3))
	})
	// comparisons
	props["C03"] = exprScript(14, func(g *gen) N {
		op := func() string { return g.pick("=", "<>", "<", "<=", ">", ">=") }
		k := g.pick("int", "sint", "flt", "str", "bool", "date", "ltime", "ldt", "dur")
		switch g.Intn(8) {
		case 6:
			vs := g.related(2, k, k, k, "deep", "any")
			return cmp(op(), g.valExpr(vs[0]), g.valExpr(vs[1]))
		case 7:
			vs := g.related(3, k)
			return N{"cmp", g.valExpr(vs[0]), N{N{op(), g.valExpr(vs[1])}, N{op(), g.valExpr(vs[2])}}}
		case 0, 1:
			return cmp(op(), g.operand(k), g.operand(k))
		case 2:
			e := g.val(k)
			return cmp(op(), g.valExpr(e), g.valExpr(e))
		case 3:
			l := N{}
			for n := 2 + g.Intn(2); n > 0; n-- {
				l = append(l, N{op(), g.operand("sint")})
			}
			return N{"cmp", g.operand("sint"), l}
		case 4:
			return cmp(op(), g.operand("int", "flt"), g.operand("int", "flt"))
		default:
			return cmp(op(), g.ex("any", 1), g.ex("any", 1))
		}
	})
	// lists and maps
	props["C04"] = exprScript(14, func(g *gen) N {
		switch g.Intn(13) {
		case 10, 11:
			vs := g.related(2+g.Intn(4), "any", "any", "deep", "int", "flt", "str", "dur", "date")
			l := N{}
			for _, v := range vs[1:] {
				l = append(l, g.valExpr(v))
			}
			return N{"in", g.valExpr(vs[0]), N{"list", l}}
		case 12:
			// into nested lists and maps
			v := g.deep(3)
			e := g.valExpr(v)
			for n := 1 + g.Intn(3); n > 0; n-- {
				switch str(v[0]) {
				case "list":
					l := list(v[1])
					if len(l) == 0 || g.chance(0.1) {
						return N{"idx", e, g.valExpr(encInt(g.intVal()))}
					}
					i := g.Intn(len(l))
					v = l[i].(N)
					if g.chance(0.4) {
						i -= len(l)
					}
					if g.chance(0.2) {
						return N{"slice", e, g.pickN(none, litInt(i)), g.pickN(none, litInt(i+1))}
					}
					e = N{"idx", e, litInt(i)}
				case "map":
					m := objOf(v[1])
					ks := sortedKeys(m)
					if len(ks) == 0 || g.chance(0.1) {
						return prop(e, "zz")
					}
					k := ks[g.Intn(len(ks))]
					v = m[k].(N)
					if g.chance(0.5) {
						e = prop(e, k)
					} else {
						e = N{"idx", e, litStr(k)}
					}
				default:
					return e
				}
			}
			return e
		case 0:
			if g.chance(0.3) {
				return N{"idx", g.operand("list"), g.operand("int")}
			}
			return N{"idx", g.operand("list"), g.operand("sint")}
		case 1, 2:
			return N{"slice", g.operand("list"), g.bound(), g.bound()}
		case 3, 4:
			return N{"in", g.operand("sint"), g.intList(1)}
		case 5:
			// the bounds are small, or close together: range(0, 10^18) is a list of that length
			small := func() N {
				if g.chance(0.06) {
					return g.valExpr(g.val(g.pick("null", "str", "flt", "list", "bool")))
				}
				if g.chance(0.3) {
					return bin(g.pick("+", "-", "*"), litInt(g.smallInt()), litInt(g.smallInt()))
				}
				return litInt(g.smallInt())
			}
			a := N{small(), small()}
			if g.chance(0.4) {
				a = append(a, small())
			} else if g.chance(0.2) {
				m := g.intVal()
				if m > 1<<62 {
					m = 1 << 62
				}
				a = N{litInt(m), litInt(m + g.Intn(5) - 1)}
			}
			return N{"call", "range", a}
		case 6:
			return bin("+", g.operand("list"), g.operand("list"))
		case 7:
			return call("size", g.operand("list", "list", "str"))
		case 8:
			m := g.ex("map", 2)
			if g.chance(0.5) {
				return prop(m, g.pick("a", "b", "k", "x y"))
			}
			return N{"idx", m, litStr(g.pick("a", "b", "k", "x y"))}
		default:
			return N{"in", g.operand("sint", "str", "flt"), g.operand("list")}
		}
	})
	// strings
	props["C05"] = exprScript(14, func(g *gen) N {
		n := func() N {
			if g.chance(0.08) {
				return lit(N{"null"})
			}
			if g.chance(0.08) {
				return g.valExpr(encInt(g.intVal()))
			}
			return litInt(g.Intn(7))
		}
		switch g.Intn(10) {
		case 8, 9:
			s := g.strVal() + g.strVal()
			p := g.part(s)
			if g.chance(0.2) {
				s = strings.Repeat(s, 1+g.Intn(3))
			}
			a, b := g.valExpr(encStr(s)), g.valExpr(encStr(p))
			if g.chance(0.4) {
				return call("split", a, b)
			}
			return N{g.pick("starts", "ends", "contains"), a, b}
		case 0, 1:
			return call(g.pick("left", "right"), g.operand("str"), n())
		case 2:
			if g.chance(0.4) {
				return call("substring", g.operand("str"), n())
			}
			return call("substring", g.operand("str"), n(), n())
		case 3:
			return call("split", g.operand("str"), g.operand("str"))
		case 4:
			return call(g.pick("trim", "ltrim", "rtrim"), litStr(g.pick("", " ", "  a ", "\t b\n", "　a　", "a b ", " é", "x")+g.pick("", " ", "c")))
		case 5:
			return N{g.pick("starts", "ends", "contains"), g.operand("str"), g.operand("str")}
		case 6:
			return call("size", g.operand("str"))
		default:
			return bin("+", g.operand("str"), g.operand("str"))
		}
	})
	// conversions
	props["C06"] = func(g *gen) script {
		if g.chance(0.25) {
			return g.entityFuncs()
		}
		return conversions(g)
	}
	// CASE
	props["C07"] = exprScript(14, func(g *gen) N {
		return g.caseEx(g.pick("sint", "str", "any", "bool", "list"), 1+g.Intn(2))
	})
	// temporal values
	props["C08"] = exprScript(14, func(g *gen) N {
		op := g.pick("+", "-")
		switch g.Intn(12) {
		case 10:
			vs := g.related(2, "date", "ltime", "ldt", "dur")
			return cmp(g.pick("=", "<>", "<", "<=", ">", ">="), g.valExpr(vs[0]), g.valExpr(vs[1]))
		case 11:
			vs := g.related(2, "date", "ltime", "ldt")
			return cmp(g.pick("=", "<>", "<", "<=", ">", ">="), bin(op, g.valExpr(vs[0]), g.ex("dur", 0)), bin(op, g.valExpr(vs[1]), g.ex("dur", 0)))
		case 9:
			return g.parseDate()
		case 0:
			return bin(op, g.ex("date", 1), g.ex("dur", 1))
		case 1:
			k := g.pick("date", "ltime", "ldt")
			return bin("+", g.ex("dur", 0), g.ex(k, 0))
		case 2:
			return bin(op, g.ex(g.pick("ltime", "ldt"), 1), g.ex("dur", 1))
		case 3:
			return bin(op, g.ex("dur", 1), g.ex("dur", 1))
		case 4:
			return bin(g.pick("*", "/"), g.ex("dur", 1), g.operand("sint", "flt"))
		case 5:
			return bin("*", g.operand("sint", "flt"), g.ex("dur", 1))
		case 6:
			s := g.pick("2020-02-29", "2021-02-29", "1970-01-01", "2000-1-1", "2020-12", "2020", "20200131", "1999-12-31", "2020-13-01", "2020-00-10", "2020-04-31", "garbage", "", "2020-02-30", "20-01-01", "2020/01/01", "1900-02-29", "2000-02-29", "0001-01-01", "9999-12-31", "2020-1-1", "2020-01-01T10:00")
			return call("date", litStr(s))
		case 7:
			kv := N{}
			for _, k := range []string{"year", "month", "day"} {
				if g.chance(0.8) {
					n := map[string]int{"year": 1990 + g.Intn(60), "month": 1 + g.Intn(12), "day": 1 + g.Intn(28)}[k]
					if g.chance(0.1) {
						n = g.Intn(40)
					}
					kv = append(kv, N{k, litInt(n)})
				}
			}
			return call("date", N{"map", kv})
		default:
			k := g.pick("date", "ltime", "ldt", "dur")
			return cmp(g.pick("=", "<>", "<", "<=", ">", ">="), g.ex(k, 1), g.ex(k, 1))
		}
	})
}

var _ = fmt.Sprint

// parseDate draws a call with text in the format, mostly
func (g *gen) parseDate() N {
	f := g.pick("YYYY-MM-DD", "DD/MM/YYYY", "MM/DD/YYYY", "DD.MM.YYYY", "YYYY/MM/DD", "YYYY.DD.MM", "YYYYMMDD", "MM-DD-YYYY", "DD MM YYYY")
	t := atDay(g.day(), 0, 0)
	if t.Year() < 1000 || t.Year() > 9999 {
		t = atDay(18321, 0, 0)
	}
	s := strings.NewReplacer("YYYY", t.Format("2006"), "MM", t.Format("01"), "DD", t.Format("02")).Replace(f)
	a, b := litStr(s), litStr(f)
	switch g.Intn(12) {
	case 0:
		a = g.operand("str")
	case 1:
		a = lit(N{"null"})
	case 2:
		b = lit(N{"null"})
	case 3:
		a = g.valExpr(g.val(g.pick("sint", "list", "date", "bool")))
	case 4:
		b = g.valExpr(g.val(g.pick("sint", "list", "date", "bool")))
	}
	return call("parseDate", a, b)
}
