package main

import (
	"math"
	"strings"
)

func intOf(v N) int {
	if str(v[0]) == "big" {
		return decBig(v)
	}
	return num(v[1])
}

func floatOf(v N) float64 {
	if str(v[0]) == "dbl" {
		return decDbl(v)
	}
	return math.Ldexp(float64(num(v[1])), -num(v[2]))
}

// deep draws a value that may hold lists and maps within lists and maps
func (g *gen) deep(d int) N {
	if d == 0 || g.chance(0.4) {
		if g.chance(0.05) {
			return N{"null"}
		}
		return g.val(g.pick("sint", "sint", "str", "bool", "flt", "date"))
	}
	if g.chance(0.6) {
		l := N{}
		for n := g.Intn(4); n > 0; n-- {
			l = append(l, g.deep(d-1))
		}
		return N{"list", l}
	}
	m := M{}
	for n := g.Intn(3); n > 0; n-- {
		m[g.pick("a", "b", "k")] = g.deep(d - 1)
	}
	return N{"map", m}
}

// near draws a value that is v or differs from it in one place
func (g *gen) near(v N) N {
	if g.chance(0.25) {
		return v
	}
	switch str(v[0]) {
	case "int", "big":
		n := intOf(v)
		switch g.Intn(5) {
		case 0:
			return encInt(n + 1)
		case 1:
			return encInt(n - 1)
		case 2:
			return encInt(-n)
		case 3:
			return encInt(n ^ 1<<uint(g.Intn(63)))
		}
		return encFloat(float64(n))
	case "flt", "dbl":
		f := floatOf(v)
		switch g.Intn(4) {
		case 0:
			f = math.Nextafter(f, math.MaxFloat64)
		case 1:
			f = math.Nextafter(f, -math.MaxFloat64)
		case 2:
			f = -f
		default:
			if f == math.Trunc(f) && math.Abs(f) < 1<<62 {
				return encInt(int(f))
			}
			f = math.Trunc(f)
		}
		return encFloat(f)
	case "bool":
		return N{"bool", !v[1].(bool)}
	case "str":
		r := []rune(decStr(v))
		switch n := len(r); {
		case g.chance(0.3):
			r = append(r, []rune("a bé日1")[g.Intn(6)])
		case n == 0:
			r = []rune(" ")
		case g.chance(0.3):
			r = r[:n-1]
		case g.chance(0.3):
			r = r[1:]
		case g.chance(0.3):
			r = []rune(strings.ToUpper(string(r)))
		default:
			r = append([]rune{}, r...)
			r[g.Intn(n)]++
		}
		for i := range r {
			if r[i] >= 0xD800 && r[i] < 0xE000 {
				r[i] = 'x'
			}
		}
		return encStr(string(r))
	case "date":
		return N{"date", num(v[1]) + []int{1, -1, 30, 365, -366}[g.Intn(5)]}
	case "ltime":
		if g.chance(0.5) {
			return N{"ltime", (num(v[1]) + []int{1, 86399, 3600, 43200}[g.Intn(4)]) % 86400, v[2]}
		}
		return N{"ltime", v[1], (num(v[2]) + []int{1, 999999999, 1000}[g.Intn(3)]) % 1000000000}
	case "ldt":
		switch g.Intn(3) {
		case 0:
			return N{"ldt", num(v[1]) + 1 - 2*g.Intn(2), v[2], v[3]}
		case 1:
			return N{"ldt", v[1], (num(v[2]) + []int{1, 86399, 3600, 43200}[g.Intn(4)]) % 86400, v[3]}
		}
		return N{"ldt", v[1], v[2], (num(v[3]) + []int{1, 999999999, 1000}[g.Intn(3)]) % 1000000000}
	case "dur":
		c := []int{num(v[1]), num(v[2]), num(v[3]), num(v[4])}
		switch i := g.Intn(4); g.Intn(4) {
		case 0:
			c[i]++
		case 1:
			c[i]--
		case 2:
			c[i] = -c[i]
		default: // another way to write it, or nearly so
			switch g.Intn(3) {
			case 0:
				c[0], c[1] = c[0]-1, c[1]+30
			case 1:
				c[1], c[2] = c[1]-1, c[2]+86400
			default:
				if c[3] > -1000000 {
					c[2], c[3] = c[2]+1, c[3]-999999999
				}
			}
		}
		for _, x := range c {
			if x >= 1000000000 || x <= -1000000000 {
				return v
			}
		}
		return N{"dur", c[0], c[1], c[2], c[3]}
	case "list":
		l := append(N{}, list(v[1])...)
		switch n := len(l); {
		case n == 0 || g.chance(0.25):
			l = append(l, g.val(g.pick("sint", "null", "str")))
		case g.chance(0.3):
			l = l[:n-1]
		case g.chance(0.2):
			i, j := g.Intn(n), g.Intn(n)
			l[i], l[j] = l[j], l[i]
		case g.chance(0.1):
			return l[0].(N)
		case g.chance(0.1):
			l = N{v}
		default:
			i := g.Intn(n)
			l[i] = g.near(l[i].(N))
		}
		return N{"list", l}
	case "map":
		m := M{}
		ks := sortedKeys(objOf(v[1]))
		for _, k := range ks {
			m[k] = objOf(v[1])[k]
		}
		switch n := len(ks); {
		case n == 0 || g.chance(0.25):
			m[g.pick("a", "b", "k", "A")] = g.val(g.pick("sint", "null", "str"))
		case g.chance(0.25):
			delete(m, ks[g.Intn(n)])
		case g.chance(0.4):
			k := ks[g.Intn(n)]
			x := m[k]
			delete(m, k)
			m[k+"x"] = x
		default:
			k := ks[g.Intn(n)]
			m[k] = g.near(m[k].(N))
		}
		return N{"map", m}
	}
	return g.val(g.pick("sint", "null", "bool", "str"))
}

// related draws n values, each near the one before or the first
func (g *gen) related(n int, kinds ...string) []N {
	v := g.val("any")
	switch k := g.pick(kinds...); k {
	case "deep":
		v = g.deep(2)
	default:
		v = g.val(k)
	}
	out := []N{v}
	for len(out) < n {
		out = append(out, g.near(out[g.Intn(len(out))]))
	}
	return out
}

// part draws text that occurs in s, nearly occurs in it, or does not
func (g *gen) part(s string) string {
	r := []rune(s)
	if len(r) == 0 || g.chance(0.1) {
		return g.strVal()
	}
	i := 0
	if g.chance(0.6) {
		i = g.Intn(len(r))
	}
	j := len(r)
	if g.chance(0.6) {
		j = i + g.Intn(len(r)-i+1)
	}
	v := encStr(string(r[i:j]))
	if g.chance(0.25) {
		v = g.near(v)
	}
	return decStr(v)
}
