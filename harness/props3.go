package main

import (
	"fmt"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"
)

// texts: literals, names, whole queries, and what is no query at all

func ofCodes(s string) N { return codes(s) }

// strBody draws the body of a string literal, mostly a correct one
func (g *gen) strBody(q byte) string {
	b := strings.Builder{}
	n := g.Intn(7)
	for i := 0; i < n; i++ {
		switch g.Intn(12) {
		case 0, 1, 2:
			b.WriteString(g.pick("a", "b", " ", "é", "日", "😀", "0", "u", "n", "/", "*", "{", "\u00a0", "\n", "\t", "$"))
		case 3, 4, 5:
			b.WriteString(`\` + g.pick("b", "f", "n", "r", "t", "B", "F", "N", "R", "T", `\`, `'`, `"`))
		case 6:
			b.WriteString(`\u` + g.pick("0041", "00e9", "00E9", "65e5", "0027", "005c", "0000", "d83d", "FFFF", "0022", "004g", "41", ""))
		case 7:
			b.WriteString(`\U` + g.pick("00000041", "0001f600", "0001F600", "000000e9", "0041", "00000027", "0000005C", "0010FFFF", "0041x", "004100410041", "00g"))
		case 8:
			if g.chance(0.3) {
				b.WriteString(`\` + g.pick("a", "x41", "0", " ", "é", "v", "(", "`"))
			} else {
				b.WriteByte('x')
			}
		case 9:
			// the other quote needs no escape
			if q == '\'' {
				b.WriteByte('"')
			} else {
				b.WriteByte('\'')
			}
		case 10:
			b.WriteString(g.strVal1(q))
		default:
			b.WriteString(g.pick("ab", "//", "/*", "*/", "``", ";", "n't"[:1]))
		}
	}
	return b.String()
}

func (g *gen) strVal1(q byte) string {
	return strings.NewReplacer(`\`, `\\`, string(q), `\`+string(q)).Replace(g.strVal())
}

func (g *gen) strLitText() string {
	q := g.pick(`'`, `"`)
	t := q + g.strBody(q[0]) + q
	if g.chance(0.05) {
		t = t[:len(t)-1]
	}
	return t
}

func (g *gen) numText() string {
	digits := func(set string, n int) string {
		b := strings.Builder{}
		for i := 0; i < n; i++ {
			b.WriteByte(set[g.Intn(len(set))])
		}
		return b.String()
	}
	d := "0123456789"
	switch g.Intn(10) {
	case 0:
		return "0x" + digits("0123456789abcdefABCDEF", 1+g.Intn(6))
	case 1:
		return "0x" + g.pick("7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "10000000000000000", "7FFFFFFFFFFFFFFF", "0000000000000000000f", "", "g", "1g")
	case 2:
		return "0" + digits("01234567", 1+g.Intn(6))
	case 3:
		return "0" + g.pick("777777777777777777777", "1000000000000000000000", "00", "08", "19", "777777777777777777777777")
	case 4:
		return g.pick("9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551616", "0", "00", "1", "10", "100000000000000000000")
	case 5:
		return digits("123456789", 1) + digits(d, g.Intn(19))
	case 6:
		return digits(d, 1+g.Intn(3)) + "." + digits(d, 1+g.Intn(2)) + g.pick("", "5", "25", "125")
	case 7:
		return "." + g.pick("5", "25", "125", "50", "0", "500")
	case 8:
		return g.pick("1", "2.5", ".5", "12", "0", "0.25", "100", "3.", "75") + g.pick("e", "E") + g.pick("", "-", "+") + g.pick("0", "1", "2", "3", "00", "02", "")
	default:
		return g.pick("0", "1", "2", "7", "10", "0.5", "1.25", "2.0", "00.5", "0.0")
	}
}

var oddNames = []string{"x y", "é", "`", "a`b", "``", "MATCH", "return", "日本", "a.b", `"q"`, "it's", `\n`, "a\nb", "😀", "1x", " ", "null", "A:B", "_1", "$p", "/*", "count", "F", "e1", "x", "{", "a\\`b"}

// rename gives the labels, types and property keys of the history odd names
func rename(x any, m map[string]string) any {
	switch v := x.(type) {
	case string:
		if n, ok := m[v]; ok {
			return n
		}
		return v
	case N:
		out := N{}
		for _, e := range v {
			out = append(out, rename(e, m))
		}
		return out
	case M:
		out := M{}
		for k, e := range v {
			if n, ok := m[k]; ok {
				k = n
			}
			out[k] = rename(e, m)
		}
		return out
	}
	return x
}

func (g *gen) renaming() map[string]string {
	m := map[string]string{}
	used := map[string]bool{}
	for _, k := range []string{"A", "B", "C", "R", "S", "p", "q", "b"} {
		if g.chance(0.5) {
			n := oddNames[g.Intn(len(oddNames))]
			if !used[n] {
				m[k], used[n] = n, true
			}
		}
	}
	return m
}

// tokens splits a text in words, numbers, strings, spaces and single characters
func tokens(t string) []string {
	out := []string{}
	rs := []rune(t)
	word := func(c rune) bool { return c < 128 && isWord(byte(c)) || c >= 128 }
	for i := 0; i < len(rs); {
		j := i + 1
		switch c := rs[i]; {
		case word(c):
			for j < len(rs) && word(rs[j]) {
				j++
			}
		case c == '\'' || c == '"':
			for j < len(rs) && rs[j] != c {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			j++
			if j > len(rs) {
				j = len(rs)
			}
		case c == ' ':
			for j < len(rs) && rs[j] == ' ' {
				j++
			}
		}
		out = append(out, string(rs[i:j]))
		i = j
	}
	return out
}

var someTokens = []string{"(", ")", "[", "]", "{", "}", "'", `"`, "`", "-", "->", "<-", "--", "..", ".", ",", ":", "|", "*", "+", "/", "%", "^", "=", "<>", "<", ">", "<=", "$", "$p0", ";", "//", "/*", "*/", "\\", "#", "@", "!", "?", "&", "~",
	"MATCH", "OPTIONAL", "WHERE", "RETURN", "CREATE", "MERGE", "SET", "REMOVE", "DELETE", "DETACH", "ON", "UNION", "ALL", "AS", "DISTINCT", "SKIP", "LIMIT", "ORDER", "BY", "AND", "OR", "XOR", "NOT", "IN", "IS", "NULL", "CASE", "WHEN", "THEN", "ELSE", "END", "STARTS", "WITH", "ENDS", "CONTAINS", "UNWIND", "CALL", "TRUE", "FALSE",
	"n", "m", "r", "n.p", "A", "1", "0", "1.5", "'a'", "size(", "null", "\x00", "é", "日本", "\u2028", "\ufeff", "0x", "1e", "9999999999999999999"}

// mutate changes a text in a few places
func (g *gen) mutate(t string) string {
	for k := 1 + g.Intn(3); k > 0; k-- {
		ts := tokens(t)
		if len(ts) == 0 {
			return t
		}
		i, j := g.Intn(len(ts)), g.Intn(len(ts))
		switch g.Intn(9) {
		case 0, 1:
			ts = append(ts[:i:i], ts[i+1:]...)
		case 2:
			ts = append(ts[:i:i], append([]string{ts[j]}, ts[i:]...)...)
		case 3:
			ts[i], ts[j] = ts[j], ts[i]
		case 4, 5:
			x := someTokens[g.Intn(len(someTokens))]
			if g.chance(0.5) {
				x = " " + x + " "
			}
			ts = append(ts[:i:i], append([]string{x}, ts[i:]...)...)
		case 6:
			ts[i] = someTokens[g.Intn(len(someTokens))]
		case 7:
			ts = ts[:i]
		default:
			rs := []rune(t)
			p := g.Intn(len(rs))
			switch g.Intn(3) {
			case 0:
				rs = append(rs[:p:p], rs[p+1:]...)
			case 1:
				rs[p] = []rune("()[]{}'\"`\\.,:;|*-<>=0a $")[g.Intn(24)]
			default:
				rs = append(rs[:p:p], append([]rune{rs[g.Intn(len(rs))]}, rs[p:]...)...)
			}
			ts = []string{string(rs)}
		}
		t = strings.Join(ts, "")
	}
	return t
}

// tame tells whether evaluating the text is certain to be quick
func tame(t string) bool {
	l := strings.ToLower(t)
	return !strings.Contains(l, "range") && len(t) < 600 && strings.Count(l, "match")+strings.Count(l, "optional")+strings.Count(t, ",") < 12
}

// queryText renders a query of any kind
func (g *gen) queryText() string {
	q := g.anyQuery()
	return renderer{r: g.Rand}.query(q)
}

func mentionsDelete(t string) bool { return strings.Contains(strings.ToLower(t), "delete") }

func anyEv(t string, par M) M { return M{"ev": "any", "text": ofCodes(t), "par": par} }

// illQuery: expressions on operands of any kind, among them graph entities
func (g *gen) illQuery() M {
	g.ill = 0.5
	leaf := func() N {
		if ents := g.scope; len(ents) > 0 && g.chance(0.4) {
			return vr(ents[g.Intn(len(ents))].name)
		}
		if g.chance(0.03) {
			return g.pickN(vr("nosuch"), N{"param", "$nosuch"}, prop(vr("nosuch"), "p"))
		}
		return g.ex("any", g.Intn(2))
	}
	var e func(d int) N
	e = func(d int) N {
		if d == 0 {
			return leaf()
		}
		switch g.Intn(16) {
		case 0, 1, 2:
			return bin(g.pick("+", "-", "*", "/", "%", "^"), e(d-1), e(d-1))
		case 3, 4:
			return cmp(g.pick("=", "<>", "<", ">="), e(d-1), e(d-1))
		case 5:
			return N{g.pick("and", "or", "xor"), N{e(d - 1), e(d - 1)}}
		case 6:
			return N{g.pick("not", "neg", "pos", "isnull", "isnotnull"), e(d - 1)}
		case 7:
			return N{"in", e(d - 1), e(d - 1)}
		case 8:
			return N{"idx", e(d - 1), e(d - 1)}
		case 9:
			return N{"slice", e(d - 1), g.pickN(none, e(d-1)), g.pickN(none, e(d-1))}
		case 10:
			return N{g.pick("starts", "ends", "contains"), e(d - 1), e(d - 1)}
		case 11:
			return prop(e(d-1), g.pick("p", "q", "x", "year"))
		case 12:
			return N{"haslabels", e(d - 1), N{"A"}}
		case 13:
			return N{"case", g.pickN(none, e(d-1)), N{N{e(d - 1), e(d - 1)}}, g.pickN(none, e(d-1))}
		case 14:
			return N{"list", N{e(d - 1), e(d - 1)}}
		default:
			f := g.pick("size", "labels", "type", "left", "right", "substring", "split", "trim", "ltrim", "rtrim", "toInteger", "toFloat", "toIntegerOrNull", "toFloatOrNull", "date", "nosuch", "range", "SIZE", "subString", "tofloat")
			a := N{}
			for n := map[string]int{"left": 2, "right": 2, "split": 2, "substring": 3, "range": 2}[f]; n >= 0; n-- {
				if n == 0 && f != "size" && len(a) > 0 && !g.chance(0.1) {
					break
				}
				if f == "range" {
					a = append(a, g.pickN(leafNoInt(g), litInt(g.smallInt())))
				} else {
					a = append(a, e(d-1))
				}
			}
			return N{"call", f, a}
		}
	}
	sq := single()
	if g.chance(0.5) {
		reads2(sq, g.match(1, patOpt{maxLen: 1, noProps: true}, 0))
	}
	switch g.Intn(6) {
	case 0:
		if ms := list(sq["read"]); len(ms) > 0 {
			ms[0].(M)["where"] = e(1 + g.Intn(2))
			withRet(sq, g.retVars(0))
			return query(sq)
		}
	case 1:
		if v := g.entVar("node", "rel"); v != "" {
			return query(updates(sq, M{"k": "set", "items": N{g.pickN(N{"prop", vr(v), "z", e(1)}, N{"=", v, e(1)}, N{"+=", v, e(1)})}}))
		}
	case 2:
		if len(list(sq["read"])) > 0 {
			return query(updates(sq, M{"k": "delete", "detach": g.chance(0.5), "exprs": N{e(1)}}))
		}
	case 3:
		return query(updates(sq, M{"k": "create", "parts": N{partP(nodeP("", N{}, N{"map", N{N{"z", e(1)}}}))}}))
	case 4:
		r := ret(N{e(1), ""})
		r["skip"] = e(0)
		if g.chance(0.5) {
			r["limit"] = e(0)
		}
		return query(withRet(sq, r))
	}
	return query(withRet(sq, ret(N{e(1 + g.Intn(2)), ""})))
}

func leafNoInt(g *gen) N {
	return g.valExpr(g.val(g.pick("str", "null", "list", "bool", "flt", "map")))
}

// queries that are parsed once and evaluated by all histories, also at the same time
var sharedQueries []M
var sharedParsed = map[string]oc.Evaluatable{}

func sharePool(seed int64) {
	g := newGen(seed + 991)
	for i := 0; i < 40; i++ {
		g.params, g.scope = M{}, nil
		var q M
		switch {
		case i%4 == 0:
			q = retQuery(g.ex("any", 3), g.ex("any", 3), g.ex("list", 2))
		case i%4 == 1:
			// properties and maps of several keys in any order
			kv := func() N {
				l := N{}
				for _, k := range g.Perm(6)[:2+g.Intn(3)] {
					if k == 2 {
						l = append(l, N{"id", litInt(g.Intn(9))})
						continue
					}
					l = append(l, N{[]string{"p", "q", "id", "b", "zz", "a"}[k], g.pickN(litInt(g.Intn(3)), litStr(g.pick("x", "y")), lit(N{"bool", true}))})
				}
				return N{"map", l}
			}
			v := g.freshVar("n")
			switch g.Intn(4) {
			case 0:
				q = query(withRet(reads(matchP(partP(nodeP(v, N{}, kv())))), ret(N{vr(v), ""})))
			case 1:
				q = query(withRet(updates(single(), M{"k": "create", "parts": N{partP(nodeP(v, g.labels(2), kv()))}}), ret(N{vr(v), ""})))
			case 2:
				q = query(updates(single(), M{"k": "merge", "part": partP(nodeP(v, g.labels(2), kv())), "actions": N{}}))
			default:
				q = retQuery(kv(), N{"list", N{kv(), kv()}})
			}
		default:
			q = g.anyQuery()
		}
		text := renderer{r: g.Rand}.query(q)
		e, err := oc.Parse(text)
		if err != nil {
			continue
		}
		key := fmt.Sprintf("shared%d", i)
		sharedParsed[key] = e
		sharedQueries = append(sharedQueries, M{"ev": "exec", "q": q, "text": text, "par": g.takeParams(), "filt": "none", "cache": key})
	}
}

func init() {
	// independent evaluations at the same time
	props["C26"] = func(g *gen) script {
		s := g.updSession(3, 3, 8, nil)
		s.cap = 10
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params, g.scope = M{}, nil
			fresh := M{"ev": "newctx", "vars": M{}}
			if g.chance(0.45) {
				e := M{}
				for k, v := range sharedQueries[g.Intn(len(sharedQueries))] {
					e[k] = v
				}
				return []M{fresh, e}
			}
			if g.chance(0.2) {
				// functions by any name
				f := []byte(g.pick("size", "left", "right", "substring", "split", "trim", "toInteger", "toFloat", "range", "toIntegerOrNull"))
				for k := range f {
					if g.chance(0.1) {
						f[k] ^= 32
					}
				}
				l := N{}
				if g.chance(0.25) {
					f = []byte(g.pick("timestamp", "date"))
				} else {
					for n := 1 + g.Intn(3); n > 0; n-- {
						l = append(l, g.ex(g.pick("sint", "str"), 0))
					}
				}
				e := exec(retQuery(N{"call", string(f), l}), g.takeParams())
				if g.chance(0.5) {
					e["together"] = 1 + g.Intn(3)
				}
				return []M{fresh, e}
			}
			if g.chance(0.2) {
				return []M{fresh, {"ev": "strlit", "text": ofCodes(g.strLitText())}}
			}
			if g.chance(0.4) {
				// parsed once, evaluated by several at the same time, for the first time
				f := M{}
				for k, v := range sharedQueries[g.Intn(len(sharedQueries))] {
					f[k] = v
				}
				if g.chance(0.4) {
					f = g.exec(g.anyQuery())
				}
				delete(f, "cache")
				f["together"] = 1 + g.Intn(3)
				return []M{fresh, f}
			}
			return []M{fresh, g.exec(g.anyQuery())}
		}
		return s
	}
	props["C09"] = func(g *gen) script {
		g0 := g.graph(3, 2)
		if g.chance(0.5) {
			s := &static{g0: g0, v0: M{}}
			for i := 0; i < 20; i++ {
				switch g.Intn(8) {
				case 0, 1, 2:
					s.evs = append(s.evs, M{"ev": "strlit", "text": ofCodes(g.strLitText())})
				case 3, 4:
					s.evs = append(s.evs, M{"ev": "numlit", "text": ofCodes(g.numText())})
				case 5, 6:
					x := g.pick(g.strVal(), g.strVal()+g.strVal(), oddNames[g.Intn(len(oddNames))], g.strBody('x'), oddNames[g.Intn(len(oddNames))]+g.strVal())
					k := g.pick("string", "string", "label", "key")
					if x == "" && k != "string" {
						x = "a"
					}
					s.evs = append(s.evs, M{"ev": "esc", "kind": k, "s": ofCodes(x)})
				default:
					t := g.queryText()
					g.takeParams()
					must := true
					if g.chance(0.6) {
						t, must = g.mutate(t), false
					}
					s.evs = append(s.evs, M{"ev": "parse", "text": ofCodes(t), "must": must})
				}
			}
			return s
		}
		m := g.renaming()
		s := g.updSession(3, 2, 6, nil)
		s.index = nil
		s.g0 = rename(g0, m).(M)
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params, g.scope = M{}, nil
			var q M
			if g.chance(0.3) {
				q = retQuery(g.ex("any", 3))
			} else {
				q = g.anyQuery()
			}
			e := g.exec(rename(q, m).(M))
			e["par"] = rename(e["par"], m)
			e["noise"] = 2
			return []M{e, {"ev": "newctx", "vars": M{}}}
		}
		return s
	}
	props["C10"] = func(g *gen) script {
		s := g.readSession(3, 3, 10, nil)
		s.cap, s.index = 14, nil // an index cannot hold values of several types
		v0, _ := g.ctxVars(s.g0, 3)
		s.v0 = M{}
		for i, k := range sortedKeys(v0) {
			s.v0[[]string{"n", "m", "r"}[i]] = v0[k]
		}
		kind := g.Intn(3)
		s.mk = func(g *gen, r *runner, i int) []M {
			g.params, g.scope = M{}, nil
			vs := liveVars(r, r.vars())
			for _, k := range sortedKeys(vs) {
				g.scope = append(g.scope, sv{k, map[string]string{"node": "node", "rel": "rel"}[str(vs[k].(N)[0])]})
			}
			vars := M{"ev": "newctx", "vars": vs}
			if kind == 0 {
				return []M{vars, g.exec(g.illQuery())}
			}
			t, scope := "", g.scope
			for {
				if kind == 1 {
					g.scope = append([]sv{}, scope...)
					t = g.mutate(g.queryText())
				} else {
					t = g.derive("oC_Cypher", 40+g.Intn(60))
					if g.chance(0.2) {
						t = g.mutate(t)
					}
				}
				if tame(t) {
					break
				}
			}
			for k := 0; k < 3; k++ {
				g.param(g.val("any"))
			}
			return []M{vars, anyEv(t, g.takeParams())}
		}
		return s
	}
}
