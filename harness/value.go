package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// N is a JSON tuple: a tagged value or a syntax tree node.
type N = []any
type M = map[string]any

func encInt(n int) N {
	if n > -1000000000 && n < 1000000000 {
		return N{"int", n}
	}
	b := big.NewInt(int64(n))
	neg := b.Sign() < 0
	b.Abs(b)
	return N{"big", neg, limbsOf(b)}
}

func encFloat(f float64) N {
	if f == 0 {
		return N{"flt", 0, 0}
	}
	if !math.IsInf(f, 0) && !math.IsNaN(f) {
		m := f
		for e := 0; e <= 10; e++ {
			if m == math.Trunc(m) {
				if math.Abs(m) < 1000000 {
					return N{"flt", int(m), e}
				}
				break
			}
			m *= 2
		}
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return N{"fltx", strconv.FormatFloat(f, 'g', -1, 64)}
	}
	bits := math.Float64bits(f)
	man, ex := bits&(1<<52-1), int(bits>>52&2047)
	if ex == 0 {
		ex = 1
	} else {
		man |= 1 << 52
	}
	return N{"dbl", f < 0, limbsOf(big.NewInt(int64(man))), ex - 1075}
}

// limbsOf gives the base-10000 digits, the lowest first
func limbsOf(b *big.Int) N {
	limbs := N{}
	base := big.NewInt(10000)
	b = new(big.Int).Set(b)
	for b.Sign() != 0 {
		r := new(big.Int)
		b.DivMod(b, base, r)
		limbs = append(limbs, int(r.Int64()))
	}
	return limbs
}

func decDbl(v N) float64 {
	f := math.Ldexp(float64(decBig(N{"big", false, v[2]})), num(v[3]))
	if v[1].(bool) {
		return -f
	}
	return f
}

func encStr(s string) N {
	out := N{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return N{"str", out}
}

func codes(s string) N { return encStr(s)[1].(N) }

func encTime(t time.Time) (day, sec, ns int) {
	_, off := t.Zone()
	u := t.Unix() + int64(off)
	day = int(math.Floor(float64(u) / 86400))
	sec = int(u - int64(day)*86400)
	return day, sec, t.Nanosecond()
}

// enc turns a native Go value produced by the library into a tagged value.
func enc(v any) N {
	switch x := v.(type) {
	case nil:
		return N{"null"}
	case oc.Value:
		return enc(x.Get())
	case bool:
		return N{"bool", x}
	case int:
		return encInt(x)
	case float64:
		return encFloat(x)
	case string:
		return encStr(x)
	case []oc.Value:
		l := N{}
		for _, e := range x {
			if e == nil {
				l = append(l, N{"go", "nil"})
				continue
			}
			l = append(l, enc(e))
		}
		return N{"list", l}
	case map[string]oc.Value:
		m := M{}
		for k, e := range x {
			if e == nil {
				m[k] = N{"go", "nil"}
				continue
			}
			m[k] = enc(e)
		}
		return N{"map", m}
	case oc.Date:
		d, s, ns := encTime(x.Time())
		if s != 0 || ns != 0 {
			return N{"go", "date with time " + x.Time().String()}
		}
		return N{"date", d}
	case oc.LocalTime:
		_, s, ns := encTime(x.Time())
		return N{"ltime", s, ns}
	case oc.LocalDateTime:
		d, s, ns := encTime(x.Time())
		return N{"ldt", d, s, ns}
	case oc.Duration:
		cs := []int64{x.Months, x.Days, x.Seconds, int64(x.Nanos)}
		for _, c := range cs {
			if c >= 1000000000 || c <= -1000000000 {
				return N{"durx", encInt(int(cs[0])), encInt(int(cs[1])), encInt(int(cs[2])), encInt(int(cs[3]))}
			}
		}
		return N{"dur", int(x.Months), int(x.Days), int(x.Seconds), x.Nanos}
	case *lpg.Node:
		if x == nil {
			return N{"go", "nil node"}
		}
		return N{"node", x.GetID()}
	case *lpg.Edge:
		if x == nil {
			return N{"go", "nil edge"}
		}
		return N{"rel", N{x.GetID()}}
	case *lpg.Path:
		if x == nil {
			return N{"go", "nil path"}
		}
		ids := []int{}
		for i := 0; i < x.NumEdges(); i++ {
			ids = append(ids, x.GetEdge(i).GetID())
		}
		sort.Ints(ids)
		l := N{}
		for _, i := range ids {
			l = append(l, i)
		}
		return N{"rel", l}
	}
	return N{"go", fmt.Sprintf("%T", v)}
}

func num(x any) int {
	switch n := x.(type) {
	case int:
		return n
	case float64:
		return int(n)
	}
	panic(fmt.Sprintf("not a number: %T", x))
}

func str(x any) string { s, _ := x.(string); return s }

func list(x any) N {
	if l, ok := x.(N); ok {
		return l
	}
	return nil
}

// objOf accepts {} and [] as the empty object
func objOf(x any) M {
	if m, ok := x.(M); ok {
		return m
	}
	return M{}
}

func decStr(v N) string {
	r := []rune{}
	for _, c := range list(v[1]) {
		r = append(r, rune(num(c)))
	}
	return string(r)
}

func decBig(v N) int {
	b := new(big.Int)
	l := list(v[2])
	for i := len(l) - 1; i >= 0; i-- {
		b.Mul(b, big.NewInt(10000))
		b.Add(b, big.NewInt(int64(num(l[i]))))
	}
	if v[1].(bool) {
		b.Neg(b)
	}
	return int(b.Int64())
}

func atDay(day, sec, ns int) time.Time {
	return time.Unix(int64(day)*86400+int64(sec), int64(ns)).UTC()
}

// dec turns a tagged value into a native value (nodes and relationships need gr).
func dec(v N, gr *world) any {
	switch str(v[0]) {
	case "null":
		return nil
	case "bool":
		return v[1].(bool)
	case "int":
		return num(v[1])
	case "big":
		return decBig(v)
	case "flt":
		return float64(num(v[1])) / math.Pow(2, float64(num(v[2])))
	case "dbl":
		return decDbl(v)
	case "durx":
		c := func(i int) int { n, _ := dec(v[i].(N), gr).(int); return n }
		return oc.Duration{Months: int64(c(1)), Days: int64(c(2)), Seconds: int64(c(3)), Nanos: c(4)}
	case "fltx":
		f, _ := strconv.ParseFloat(str(v[1]), 64)
		return f
	case "str":
		return decStr(v)
	case "list":
		out := make([]oc.Value, 0)
		for _, e := range list(v[1]) {
			out = append(out, oc.RValue{Value: dec(e.(N), gr)})
		}
		return out
	case "map":
		out := make(map[string]oc.Value)
		for k, e := range objOf(v[1]) {
			out[k] = oc.RValue{Value: dec(e.(N), gr)}
		}
		return out
	case "date":
		return oc.NewDate(atDay(num(v[1]), 0, 0))
	case "ltime":
		return oc.NewLocalTime(atDay(0, num(v[1]), num(v[2])))
	case "ldt":
		return oc.NewLocalDateTime(atDay(num(v[1]), num(v[2]), num(v[3])))
	case "dur":
		return oc.Duration{Months: int64(num(v[1])), Days: int64(num(v[2])), Seconds: int64(num(v[3])), Nanos: num(v[4])}
	case "node":
		return gr.node(num(v[1]))
	case "rel":
		p := &lpg.Path{}
		for _, id := range list(v[1]) {
			p.Append(lpg.PathElement{Edge: gr.edge(num(id))})
		}
		return p
	}
	panic("dec: " + fmt.Sprint(v))
}
