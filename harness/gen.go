package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

// gen draws values, expressions and queries from a seeded source.
type gen struct {
	*rand.Rand
	scope  []sv    // variables in scope with their kind
	params M       // parameters in force
	ill    float64 // chance of an operand of any kind
	depth  int
	dense  bool    // the graph has many edges: no walks of any length
	oddFlt float64 // chance of a float that is no small dyadic
	fresh  int
}

type sv struct{ name, kind string }

func newGen(seed int64) *gen {
	return &gen{Rand: rand.New(rand.NewSource(seed)), params: M{}, ill: 0.03, oddFlt: 0.2}
}

func (g *gen) chance(p float64) bool      { return g.Float64() < p }
func (g *gen) pick(s ...string) string    { return s[g.Intn(len(s))] }
func (g *gen) pickF(s ...float64) float64 { return s[g.Intn(len(s))] }
func (g *gen) pickN(s ...N) N             { return s[g.Intn(len(s))] }

var none = N{"none"}

func lit(v N) N { return N{"lit", v} }
func litInt(n int) N {
	if n < 0 {
		if n == -9223372036854775808 {
			return N{"bin", "-", N{"neg", lit(encInt(9223372036854775807))}, lit(encInt(1))}
		}
		return N{"neg", lit(encInt(-n))}
	}
	return lit(encInt(n))
}
func litStr(s string) N { return lit(encStr(s)) }
func vr(s string) N     { return N{"var", s} }

// ref is the variable, or the property, of this name
func ref(s string) N {
	if i := strings.IndexByte(s, '.'); i >= 0 {
		return prop(vr(s[:i]), s[i+1:])
	}
	return vr(s)
}
func call(f string, a ...any) N { return N{"call", f, append(N{}, a...)} }
func bin(op string, a, b N) N   { return N{"bin", op, a, b} }
func cmp(op string, a, b N) N   { return N{"cmp", a, N{N{op, b}}} }
func prop(e N, k string) N      { return N{"prop", e, k} }

var boundary = []int{0, 1, -1, 2, 3, 7, 10, -10, 100, 255, 1000000000, 999999999, -1000000000, 2147483647, 2147483648, -2147483648, 4294967296,
	3037000499, 3037000500, 4611686018427387904, -4611686018427387904, 9223372036854775807, 9223372036854775806, -9223372036854775808, -9223372036854775807, 1000000007, 123456789012345,
	9007199254740992, 9007199254740993, -9007199254740993, 9007199254740991, 9223372036854775295}

func (g *gen) intVal() int {
	switch {
	case g.chance(0.6):
		return g.Intn(13) - 4
	case g.chance(0.5):
		return boundary[g.Intn(len(boundary))]
	case g.chance(0.5):
		return g.Intn(2000) - 1000
	default:
		return int(g.Uint64() >> uint(g.Intn(64)))
	}
}

func (g *gen) smallInt() int { return g.Intn(8) - 2 }

var oddFloats = []float64{0.1, 0.2, 0.3, 0.7, 1.1, 1e-3, 1.0 / 3, 2.0 / 3, 1e6, 1e15, 1e16, 1e22, 1e23, 9007199254740992, 9007199254740994, 9007199254740991,
	4503599627370497.5, 9223372036854775808, -9223372036854775808, 18446744073709551616, 1e100, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-300,
	2147483648, 4294967296.5, 123456.789, 3.141592653589793, -0.1, -2.5e-7, -1e300, 99999.99999}

func (g *gen) oddFloat() float64 {
	switch g.Intn(4) {
	case 0, 1:
		return oddFloats[g.Intn(len(oddFloats))]
	case 2:
		return float64(g.Intn(2000000)-1000000) / float64([]int{3, 7, 10, 100, 1000}[g.Intn(5)])
	}
	return math.Ldexp(float64(g.Int63()>>uint(g.Intn(12))), g.Intn(120)-100)
}

func (g *gen) fltVal() N {
	if g.chance(g.oddFlt) {
		return encFloat(g.oddFloat())
	}
	for {
		e := g.Intn(4)
		m := g.Intn(64) - 16
		for e > 0 && m%2 == 0 {
			m, e = m/2, e-1
		}
		if m == 0 {
			return N{"flt", 0, 0}
		}
		return N{"flt", m, e}
	}
}

var strPool = []string{"", "a", "b", "ab", "abc", "aba", "abab", "ba", " ", " a ", "a b", "A", "é", "aé", "日本語", "日本", "😀", "a😀b", "12", "-3", "1.5", "x,y,z", "tab\there", "q'uote", `d"q`, `back\slash`, "new\nline", "true", "null", "aa", "aaa"}

func (g *gen) strVal() string {
	if g.chance(0.8) {
		return strPool[g.Intn(len(strPool))]
	}
	n := g.Intn(6)
	r := []rune{}
	alpha := []rune("aab éß日😀 1")
	for i := 0; i < n; i++ {
		r = append(r, alpha[g.Intn(len(alpha))])
	}
	return string(r)
}

func (g *gen) day() int {
	switch g.Intn(4) {
	case 0:
		return g.Intn(20000)
	case 1:
		return []int{0, 59, 60, 789, 790, 11016, 11017, 18321, 18322, -1, -719162, 10956, 10957, 19782, 19783}[g.Intn(15)]
	default:
		return 18000 + g.Intn(800)
	}
}

func (g *gen) durVal() N {
	c := func(n int) int {
		if g.chance(0.4) {
			return 0
		}
		if n > 100 && g.chance(0.1) {
			n = []int{86400, 999999999}[g.Intn(2)]
		}
		return g.Intn(2*n+1) - n
	}
	return N{"dur", c(14), c(40), c(5000), c(2000)}
}

// val draws a storable value of the kind
func (g *gen) val(kind string) N {
	switch kind {
	case "int":
		return encInt(g.intVal())
	case "sint":
		return encInt(g.smallInt())
	case "flt":
		return g.fltVal()
	case "bool":
		return N{"bool", g.chance(0.5)}
	case "str":
		return encStr(g.strVal())
	case "null":
		return N{"null"}
	case "date":
		return N{"date", g.day()}
	case "ltime":
		return N{"ltime", g.Intn(86400), []int{0, 0, 1, 999999999, 500000000}[g.Intn(5)]}
	case "ldt":
		return N{"ldt", g.day(), g.Intn(86400), []int{0, 0, 1, 999999999}[g.Intn(4)]}
	case "dur":
		return g.durVal()
	case "list":
		l := N{}
		for n := g.Intn(4); n > 0; n-- {
			l = append(l, g.val(g.pick("sint", "sint", "str", "bool", "null", "flt")))
		}
		return N{"list", l}
	case "map":
		m := M{}
		for n := g.Intn(3); n > 0; n-- {
			m[g.pick("a", "b", "k")] = g.val(g.pick("sint", "str", "null"))
		}
		return N{"map", m}
	}
	return g.val(g.anyKind())
}

func (g *gen) anyKind() string {
	return g.pick("int", "sint", "flt", "bool", "str", "null", "list", "map", "date", "dur", "ltime", "ldt")
}

// param makes the value available as a parameter and returns the reference
func (g *gen) param(v N) N {
	for k, x := range g.params {
		if fmt.Sprint(x) == fmt.Sprint(v) {
			return N{"param", k}
		}
	}
	k := fmt.Sprintf("$p%d", len(g.params))
	g.params[k] = v
	return N{"param", k}
}

// valExpr turns a value into an expression denoting it
func (g *gen) valExpr(v N) N {
	if g.chance(0.1) {
		return g.param(v)
	}
	switch str(v[0]) {
	case "int", "big":
		n := 0
		if str(v[0]) == "int" {
			n = num(v[1])
		} else {
			n = decBig(v)
		}
		return litInt(n)
	case "flt":
		if num(v[1]) < 0 {
			return N{"neg", lit(N{"flt", -num(v[1]), num(v[2])})}
		}
		return lit(v)
	case "dbl":
		if v[1].(bool) {
			return N{"neg", lit(N{"dbl", false, v[2], v[3]})}
		}
		return lit(v)
	case "bool", "str", "null":
		return lit(v)
	case "list":
		l := N{}
		for _, x := range list(v[1]) {
			l = append(l, g.valExpr(x.(N)))
		}
		return N{"list", l}
	case "map":
		l := N{}
		for _, k := range sortedKeys(objOf(v[1])) {
			l = append(l, N{k, g.valExpr(objOf(v[1])[k].(N))})
		}
		return N{"map", l}
	case "date":
		if d := num(v[1]); d > -700000 && d < 2900000 && g.chance(0.7) {
			t := atDay(d, 0, 0)
			if g.chance(0.3) {
				return call("date", N{"map", N{N{"year", litInt(t.Year())}, N{"month", litInt(int(t.Month()))}, N{"day", litInt(t.Day())}}})
			}
			return call("date", litStr(t.Format("2006-01-02")))
		}
	}
	return g.param(v)
}

func sortedKeys(m M) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sortedStrings(l)
	return l
}

func (g *gen) leaf(kind string) N {
	cands := []string{}
	for _, s := range g.scope {
		if s.kind == kind || (kind == "sint" && s.kind == "int") {
			cands = append(cands, s.name)
		}
	}
	if len(cands) > 0 && g.chance(0.4) {
		return ref(cands[g.Intn(len(cands))])
	}
	ents := g.entities()
	if len(ents) > 0 && g.chance(0.4) {
		e := vr(ents[g.Intn(len(ents))])
		switch kind {
		case "int", "sint":
			return prop(e, g.pick("p", "id"))
		case "str":
			return prop(e, "q")
		case "bool":
			return prop(e, "b")
		case "flt":
			return prop(e, "f")
		}
	}
	return g.valExpr(g.val(kind))
}

func (g *gen) entities() []string {
	out := []string{}
	for _, s := range g.scope {
		if s.kind == "node" || s.kind == "rel" {
			out = append(out, s.name)
		}
	}
	return out
}

// ex draws an expression that mostly has the kind
func (g *gen) ex(kind string, d int) N {
	if g.chance(g.ill) {
		kind = g.anyKind()
	} else if g.chance(0.04) {
		return lit(N{"null"})
	}
	if d <= 0 || g.chance(0.12) {
		return g.leaf(kind)
	}
	if g.chance(0.04) {
		return g.caseEx(kind, d-1)
	}
	if g.chance(0.03) {
		l := N{}
		n := 1 + g.Intn(3)
		for i := 0; i < n; i++ {
			l = append(l, g.ex(kind, d-2))
		}
		return N{"idx", N{"list", l}, litInt(g.Intn(n))}
	}
	switch kind {
	case "int":
		switch g.Intn(12) {
		case 0, 1, 2, 3:
			return bin(g.pick("+", "-", "*"), g.ex("int", d-1), g.ex("int", d-1))
		case 4, 5:
			return bin(g.pick("/", "%"), g.ex("int", d-1), g.ex("int", d-1))
		case 6, 7:
			return N{"neg", g.ex("int", d-1)}
		case 8:
			return call("size", g.ex(g.pick("list", "str"), d-1))
		case 9:
			return call("toInteger", g.ex(g.pick("int", "bool", "flt"), d-1))
		case 10:
			return N{"pos", g.ex("int", d-1)}
		default:
			return g.leaf("int")
		}
	case "sint":
		switch g.Intn(8) {
		case 0, 1, 2:
			return bin(g.pick("+", "-", "*"), g.ex("sint", d-1), g.ex("sint", d-1))
		case 3:
			return call("size", g.ex(g.pick("list", "str"), d-1))
		case 4:
			return N{"neg", g.ex("sint", d-1)}
		default:
			return g.leaf("sint")
		}
	case "flt":
		switch g.Intn(8) {
		case 0, 1, 2:
			a, b := g.pick("flt", "sint"), "flt"
			if g.chance(0.5) {
				a, b = b, a
			}
			return bin(g.pick("+", "-", "*"), g.ex(a, d-1), g.ex(b, d-1))
		case 3:
			return bin("/", g.ex("flt", d-1), g.pickN(lit(N{"flt", 1, 1}), lit(N{"flt", 2, 0}), litInt(4), litInt(-2)))
		case 4:
			return bin("^", g.ex(g.pick("sint", "flt"), d-1), g.pickN(litInt(0), litInt(1), litInt(2), litInt(3), litInt(-1), lit(N{"flt", 2, 0})))
		case 5:
			return N{"neg", g.ex("flt", d-1)}
		case 6:
			return call("toFloat", g.ex(g.pick("flt", "sint"), d-1))
		default:
			return bin("%", g.ex("flt", d-1), g.ex("flt", d-1))
		}
	case "bool":
		switch g.Intn(12) {
		case 0, 1:
			l := N{}
			for n := 2 + g.Intn(2); n > 0; n-- {
				l = append(l, g.ex("bool", d-1))
			}
			return N{g.pick("and", "or", "xor"), l}
		case 2:
			return N{"not", g.ex("bool", d-1)}
		case 3, 4, 5, 6:
			k := g.pick("int", "sint", "flt", "str", "bool", "date", "sint")
			return cmp(g.pick("=", "<>", "<", "<=", ">", ">="), g.ex(k, d-1), g.ex(k, d-1))
		case 7:
			return N{g.pick("isnull", "isnotnull"), g.ex("any", d-1)}
		case 8:
			return N{"in", g.ex("sint", d-1), g.intList(d - 1)}
		case 9:
			return N{g.pick("starts", "ends", "contains"), g.ex("str", d-1), g.ex("str", d-1)}
		case 10:
			for _, s := range g.scope {
				if s.kind == "node" {
					return N{"haslabels", vr(s.name), N{g.pick("A", "B", "C")}}
				}
			}
			return g.leaf("bool")
		default:
			return g.leaf("bool")
		}
	case "str":
		switch g.Intn(8) {
		case 0, 1:
			return bin("+", g.ex("str", d-1), g.ex("str", d-1))
		case 2:
			return call(g.pick("left", "right"), g.ex("str", d-1), litInt(g.Intn(5)))
		case 3:
			return call("substring", g.ex("str", d-1), litInt(g.Intn(4)), litInt(g.Intn(4)))
		case 4:
			return call(g.pick("trim", "ltrim", "rtrim"), g.ex("str", d-1))
		default:
			return g.leaf("str")
		}
	case "list":
		switch g.Intn(8) {
		case 0, 1, 2:
			l := N{}
			for n := g.Intn(4); n > 0; n-- {
				l = append(l, g.ex(g.pick("sint", "sint", "str", "bool"), d-1))
			}
			return N{"list", l}
		case 3:
			return bin("+", g.ex("list", d-1), g.ex("list", d-1))
		case 4:
			return call("range", litInt(g.smallInt()), litInt(g.smallInt()+2))
		case 5:
			return N{"slice", g.ex("list", d-1), g.bound(), g.bound()}
		case 6:
			return call("split", g.ex("str", d-1), g.ex("str", d-1))
		default:
			return g.leaf("list")
		}
	case "map":
		l := N{}
		for n := g.Intn(3); n > 0; n-- {
			l = append(l, N{g.pick("a", "b", "k", "x y"), g.ex("any", d-1)})
		}
		return N{"map", l}
	case "date":
		if g.chance(0.5) {
			return bin(g.pick("+", "-"), g.ex("date", d-1), g.ex("dur", d-2))
		}
		return g.leaf("date")
	case "ldt", "ltime":
		if g.chance(0.5) {
			return bin(g.pick("+", "-"), g.ex(kind, d-1), g.ex("dur", d-2))
		}
		return g.leaf(kind)
	case "dur":
		switch g.Intn(5) {
		case 0, 1:
			return bin(g.pick("+", "-"), g.ex("dur", d-1), g.ex("dur", d-1))
		case 2:
			return bin(g.pick("*", "/"), g.ex("dur", d-1), g.ex(g.pick("sint", "flt"), d-2))
		default:
			return g.leaf("dur")
		}
	case "any":
		return g.ex(g.pick("int", "sint", "flt", "bool", "str", "list", "map", "date", "null"), d)
	}
	return g.leaf(kind)
}

func (g *gen) intList(d int) N {
	l := N{}
	for n := g.Intn(5); n > 0; n-- {
		if g.chance(0.12) {
			l = append(l, lit(N{"null"}))
		} else {
			l = append(l, g.ex("sint", d-1))
		}
	}
	return N{"list", l}
}

func (g *gen) bound() N {
	switch g.Intn(7) {
	case 6:
		return g.valExpr(encInt(g.intVal()))
	case 0:
		return none
	case 1:
		return g.pickN(lit(N{"null"}), litInt(100), litInt(-100))
	default:
		return litInt(g.Intn(8) - 3)
	}
}

func (g *gen) caseEx(kind string, d int) N {
	test := none
	wk := "bool"
	if g.chance(0.2) {
		// the WHENs are the test, or nearly so
		vs := g.related(2+g.Intn(3), "any", "any", "deep", "int", "flt", "str", "dur")
		alts := N{}
		for _, v := range vs[1:] {
			alts = append(alts, N{g.valExpr(v), g.ex(kind, d-1)})
		}
		els := none
		if g.chance(0.6) {
			els = g.ex(kind, d)
		}
		return N{"case", g.valExpr(vs[0]), alts, els}
	}
	if g.chance(0.5) {
		wk = g.pick("sint", "str", "bool", "flt")
		test = g.ex(wk, d)
	}
	alts := N{}
	for n := 1 + g.Intn(3); n > 0; n-- {
		alts = append(alts, N{g.ex(wk, d), g.ex(kind, d)})
	}
	els := none
	if g.chance(0.6) {
		els = g.ex(kind, d)
	}
	return N{"case", test, alts, els}
}

// ---------------------------------------------------------------- queries

func single() M {
	return M{"read": N{}, "upd": N{}, "hasret": false, "ret": ret()}
}
func ret(items ...any) M {
	return M{"distinct": false, "all": false, "items": append(N{}, items...), "skip": none, "limit": none}
}
func query(singles ...M) M {
	s, a := N{}, N{}
	for i, x := range singles {
		s = append(s, x)
		if i > 0 {
			a = append(a, true)
		}
	}
	return M{"singles": s, "alls": a}
}

// retQuery is RETURN e1, e2, ...
func retQuery(es ...N) M {
	s := single()
	items := N{}
	for _, e := range es {
		items = append(items, N{e, ""})
	}
	s["hasret"] = true
	s["ret"] = ret(items...)
	return query(s)
}

func (g *gen) takeParams() M {
	m := M{}
	for k, v := range g.params {
		m[k] = v
	}
	return m
}

func exec(q M, par M) M { return M{"ev": "exec", "q": q, "par": par, "filt": "none"} }

// ---------------------------------------------------------------- graphs

var labelPool = []string{"A", "B", "C"}
var typePool = []string{"R", "S"}

func (g *gen) labels(max int) N {
	out := N{}
	for _, l := range labelPool {
		if len(out) < max && g.chance(0.4) {
			out = append(out, l)
		}
	}
	if g.chance(0.06) {
		for n := 1 + g.Intn(4); n > 0; n-- {
			l := g.pick("D", "E", "F", "G", "a b", "x-y", "a")
			dup := false
			for _, x := range out {
				dup = dup || str(x) == l
			}
			if !dup && (len(out) < max || g.chance(0.7)) {
				out = append(out, l)
			}
		}
	}
	return out
}

func (g *gen) propsOf(id int, rich bool) M {
	m := M{}
	if g.chance(0.7) {
		m["p"] = encInt(g.Intn(3))
	}
	if g.chance(0.5) {
		m["q"] = encStr(g.pick("x", "y", "é"))
	}
	if g.chance(0.6) {
		m["id"] = encInt(id)
	}
	if rich {
		if g.chance(0.4) {
			m["b"] = N{"bool", g.chance(0.5)}
		}
		if g.chance(0.3) {
			m["f"] = g.fltVal()
		}
		if g.chance(0.2) {
			m["l"] = g.val("list")
		}
		if g.chance(0.2) {
			m["d"] = g.val(g.pick("date", "ltime", "ldt", "dur"))
		}
	}
	return m
}

// graph draws a property graph with up to nn nodes and ne edges
func (g *gen) graph(nn, ne int) M {
	nodes, edges := N{}, N{}
	n := g.Intn(nn + 1)
	if n == 0 && g.chance(0.8) {
		n = 1 + g.Intn(nn)
	}
	for i := 0; i < n; i++ {
		nodes = append(nodes, N{i, g.labels(3), g.propsOf(i, true)})
	}
	if n > 0 {
		m := g.Intn(ne + 1)
		for i := 0; i < m; i++ {
			from, to := g.Intn(n), g.Intn(n)
			if i > 0 && g.chance(0.15) { // parallel or opposite edge
				p := edges[g.Intn(len(edges))].(N)
				from, to = num(p[1]), num(p[2])
				if g.chance(0.5) {
					from, to = to, from
				}
			}
			edges = append(edges, N{n + i, from, to, g.pick(typePool...), g.propsOf(n+i, g.chance(0.3))})
		}
	}
	return M{"nodes": nodes, "edges": edges}
}

// graphOf builds a graph from explicit pieces
func graphOf(nodes N, edges N) M { return M{"nodes": nodes, "edges": edges} }

// ---------------------------------------------------------------- patterns

type patOpt struct {
	maxLen   int     // relationships per part
	varLen   float64 // chance that a relationship is variable length
	reuse    float64 // chance that a node variable already named is used again
	noProps  bool
	create   bool // for CREATE: directed, one type
	anonRel  bool
	maxRange int
}

func (g *gen) patProps(o patOpt) N {
	if o.noProps || !g.chance(0.3) {
		return none
	}
	if g.chance(0.1) {
		m := M{"p": encInt(g.Intn(3))}
		return g.param(N{"map", m})
	}
	kv := N{}
	if g.chance(0.8) {
		e := litInt(g.Intn(3))
		if ents := g.entities(); len(ents) > 0 && g.chance(0.1) {
			e = prop(vr(ents[g.Intn(len(ents))]), "p")
		} else if g.chance(0.1) {
			e = bin("+", litInt(g.Intn(2)), litInt(g.Intn(2)))
		}
		kv = append(kv, N{"p", e})
	}
	if g.chance(0.3) {
		kv = append(kv, N{"q", litStr(g.pick("x", "y", "é"))})
	}
	if g.chance(0.15) {
		kv = append(kv, N{"id", litInt(g.Intn(8))})
	}
	if g.chance(0.12) {
		kv = append(kv, N{"b", lit(N{"bool", g.chance(0.5)})})
	}
	if g.chance(0.08) {
		kv = append(kv, N{g.pick("f", "d", "l"), g.valExpr(g.val(g.pick("flt", "date", "dur", "list")))})
	}
	if g.chance(0.05) {
		kv = append(kv, N{"zz", g.pickN(lit(N{"null"}), litInt(1))})
	}
	return N{"map", kv}
}

func (g *gen) freshVar(p string) string {
	g.fresh++
	if g.chance(0.06) {
		p = g.pick("_", "é", "名", "a b", "N", "Ü_", "x-y", "$")
	}
	return fmt.Sprintf("%s%d", p, g.fresh)
}

// nodePat; vars collects the variables bound so far by the clause
func (g *gen) nodePat(o patOpt, vars *[]sv) M {
	n := M{"var": "", "labels": N{}, "props": none}
	var cands []string
	for _, s := range append(append([]sv{}, g.scope...), *vars...) {
		if s.kind == "node" {
			cands = append(cands, s.name)
		}
	}
	if len(cands) > 0 && g.chance(o.reuse) {
		n["var"] = cands[g.Intn(len(cands))]
		if g.chance(0.7) {
			return n
		}
	} else if g.chance(0.75) {
		v := g.freshVar("n")
		n["var"] = v
		*vars = append(*vars, sv{v, "node"})
	}
	if g.chance(0.45) {
		n["labels"] = g.labels(2)
	}
	n["props"] = g.patProps(o)
	return n
}

func (g *gen) relPat(o patOpt, vars *[]sv) M {
	r := M{"var": "", "types": N{}, "dir": g.pick("out", "out", "in", "in", "none", "both"), "rng": none, "props": none}
	if g.chance(0.5) {
		r["types"] = N{g.pick("R", "S")}
		if g.chance(0.25) {
			r["types"] = N{"R", "S"}
		}
	}
	if g.chance(o.varLen) {
		lo, hi := 1+g.Intn(2), 0
		if o.maxRange == 0 {
			o.maxRange = 3
		}
		hi = lo + g.Intn(o.maxRange-lo+1)
		switch g.Intn(5) {
		case 0:
			r["rng"] = N{-1, hi}
		case 1:
			r["rng"] = N{lo, -1}
		case 2:
			r["rng"] = N{-1, -1}
		case 3:
			r["rng"] = N{hi, hi}
		default:
			r["rng"] = N{lo, hi}
		}
		if g.dense && r["rng"].(N)[1] == -1 {
			r["rng"] = N{lo, hi}
		}
	}
	if !o.noProps && g.chance(0.2) {
		if r["props"] = g.patProps(o); g.chance(0.6) {
			kv := N{}
			if g.chance(0.8) {
				kv = append(kv, N{"p", litInt(g.Intn(3))})
			}
			if g.chance(0.8) {
				kv = append(kv, N{"q", litStr(g.pick("x", "y", "é"))})
			}
			r["props"] = N{"map", kv}
		}
	}
	if !o.anonRel && g.chance(0.45) {
		v := g.freshVar("r")
		r["var"] = v
		kind := "rel"
		if str(r["rng"].(N)[0]) != "none" {
			kind = "path"
		}
		*vars = append(*vars, sv{v, kind})
	}
	return r
}

func (g *gen) partPat(o patOpt, vars *[]sv) M {
	p := M{"var": "", "start": g.nodePat(o, vars), "chain": N{}}
	chain := N{}
	for n := g.Intn(o.maxLen + 1); n > 0; n-- {
		r := g.relPat(o, vars)
		chain = append(chain, M{"rel": r, "node": g.nodePat(o, vars)})
	}
	p["chain"] = chain
	return p
}

func (g *gen) match(parts int, o patOpt, where float64) M {
	vars := []sv{}
	ps := N{}
	for n := 1 + g.Intn(parts); n > 0; n-- {
		ps = append(ps, g.partPat(o, &vars))
	}
	g.scope = append(g.scope, vars...)
	m := M{"opt": false, "parts": ps, "where": none}
	if g.chance(where) {
		m["where"] = g.where()
	}
	return m
}

func (g *gen) where() N {
	ents := g.entities()
	if len(ents) == 0 {
		return g.ex("bool", 2)
	}
	e := vr(ents[g.Intn(len(ents))])
	switch g.Intn(8) {
	case 0:
		return cmp(g.pick("=", "<>", "<", ">="), prop(e, "p"), litInt(g.Intn(3)))
	case 1:
		f := vr(ents[g.Intn(len(ents))])
		return cmp(g.pick("=", "<>", "<", ">="), prop(e, "p"), prop(f, "p"))
	case 2:
		return N{g.pick("isnull", "isnotnull"), prop(e, g.pick("p", "q", "b", "f"))}
	case 3:
		return cmp("=", prop(e, "q"), litStr(g.pick("x", "y")))
	case 4:
		return N{"in", prop(e, "p"), N{"list", N{litInt(0), litInt(2)}}}
	default:
		return g.ex("bool", 2)
	}
}

// retVars returns the variables in scope, and perhaps some expressions over them
func (g *gen) retVars(ex int) M {
	items := N{}
	for _, s := range g.scope {
		items = append(items, N{vr(s.name), g.alias(s.name)})
	}
	for i := 0; i < ex; i++ {
		items = append(items, N{g.ex("any", 2), g.alias("")})
	}
	if len(items) == 0 {
		items = append(items, N{litInt(1), ""})
	}
	return ret(items...)
}

func (g *gen) alias(s string) string {
	if g.chance(0.5) {
		return s
	}
	if g.chance(0.5) {
		return ""
	}
	return g.freshVar("c")
}
