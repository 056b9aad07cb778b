package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// renderer turns a syntax tree into query text.  r == nil: canonical text;
// otherwise spacing, letter case, quoting and number forms vary.
type renderer struct {
	r     *rand.Rand
	boost float64 // how much more than usual
}

func (w renderer) chance(p float64) bool {
	return w.r != nil && w.r.Float64() < p*(1+w.boost)
}

var spaces = []string{" ", " ", " ", "  ", "\n", "\t", " /* c */ ", "\r\n"}

func (w renderer) sp() string {
	if w.chance(0.15) {
		return spaces[w.r.Intn(len(spaces))]
	}
	return " "
}

func (w renderer) osp() string {
	if w.chance(0.1) {
		return spaces[w.r.Intn(len(spaces))]
	}
	return ""
}

func (w renderer) kw(s string) string {
	if w.chance(0.2) {
		out := []byte(s)
		for i := range out {
			if w.r.Intn(2) == 0 {
				out[i] = strings.ToLower(string(out[i]))[0]
			}
		}
		return string(out)
	}
	return s
}

var reserved = map[string]bool{}

func init() {
	for _, k := range strings.Fields("ALL ASC ASCENDING BY CREATE DELETE DESC DESCENDING DETACH EXISTS LIMIT MATCH MERGE ON OPTIONAL ORDER REMOVE RETURN SET SKIP WHERE WITH UNION UNWIND AND AS CONTAINS DISTINCT ENDS IN IS NOT OR STARTS XOR FALSE TRUE NULL CONSTRAINT DO FOR REQUIRE UNIQUE CASE WHEN THEN ELSE END MANDATORY SCALAR OF ADD DROP COUNT FILTER EXTRACT ANY NONE SINGLE CALL YIELD") {
		reserved[k] = true
	}
}

func plainName(s string) bool {
	if s == "" || reserved[strings.ToUpper(s)] {
		return false
	}
	for i, c := range s {
		if c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (i > 0 && c >= '0' && c <= '9') {
			continue
		}
		return false
	}
	return true
}

func (w renderer) name(s string) string {
	if plainName(s) && !w.chance(0.05) {
		return s
	}
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

func (w renderer) strLit(s string) string {
	q := '\''
	if w.chance(0.4) {
		q = '"'
	}
	if w.boost > 0 && w.chance(0.1) {
		return w.strEsc(s, q)
	}
	b := strings.Builder{}
	b.WriteRune(q)
	for _, c := range s {
		switch {
		case c == q || c == '\\':
			b.WriteRune('\\')
			b.WriteRune(c)
		case c == '\n' && w.chance(0.7):
			b.WriteString("\\n")
		case c == '\t' && w.chance(0.7):
			b.WriteString("\\t")
		case c < 0x10000 && w.chance(0.03):
			fmt.Fprintf(&b, "\\u%04X", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteRune(q)
	return b.String()
}

// strEsc renders every character in one of the ways that it can be written in
func (w renderer) strEsc(s string, q rune) string {
	short := map[rune]string{'\b': "b", '\f': "f", '\n': "n", '\r': "r", '\t': "t"}
	b := strings.Builder{}
	b.WriteRune(q)
	for _, c := range s {
		l, isShort := short[c]
		switch {
		case isShort && w.r.Intn(3) > 0:
			if w.r.Intn(2) == 0 {
				l = strings.ToUpper(l)
			}
			b.WriteString("\\" + l)
		case (c == '\\' || c == '\'' || c == '"') && (c == q || c == '\\' || w.r.Intn(2) == 0):
			b.WriteString("\\" + string(c))
		case w.r.Intn(3) == 0 && c < 0x10000:
			fmt.Fprintf(&b, []string{"\\u%04X", "\\u%04x"}[w.r.Intn(2)], c)
		case w.r.Intn(3) == 0:
			fmt.Fprintf(&b, "\\U%08X", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteRune(q)
	return b.String()
}

func (w renderer) lit(v N) (string, int) {
	switch str(v[0]) {
	case "null":
		return w.kw("NULL"), 12
	case "bool":
		if v[1].(bool) {
			return w.kw("TRUE"), 12
		}
		return w.kw("FALSE"), 12
	case "int", "big":
		var n int
		if str(v[0]) == "int" {
			n = num(v[1])
		} else {
			n = decBig(v)
		}
		if n >= 0 {
			if w.chance(0.05) {
				return fmt.Sprintf("0x%x", n), 12
			}
			return strconv.Itoa(n), 12
		}
		return strconv.Itoa(n), 9
	case "flt":
		f := float64(num(v[1])) / math.Pow(2, float64(num(v[2])))
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		if f < 0 {
			return s, 9
		}
		if w.chance(0.1) {
			s += "e0"
		}
		return s, 12
	case "dbl":
		f := decDbl(v)
		s := ""
		if a := math.Abs(f); w.chance(0.4) && a > 1e-30 && a < 1e30 {
			s = strconv.FormatFloat(f, 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
		} else {
			s = strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e+", "e", 1)
			if w.chance(0.3) {
				s = strings.ToUpper(s)
			}
		}
		if f < 0 {
			return s, 9
		}
		return s, 12
	case "fltx":
		return str(v[1]), 9
	case "str":
		return w.strLit(decStr(v)), 12
	case "list":
		parts := []string{}
		for _, e := range list(v[1]) {
			t, _ := w.lit(e.(N))
			parts = append(parts, t)
		}
		return "[" + strings.Join(parts, ","+w.osp()) + "]", 12
	case "map":
		parts := []string{}
		for k, e := range objOf(v[1]) {
			t, _ := w.lit(e.(N))
			parts = append(parts, w.name(k)+":"+t)
		}
		return "{" + strings.Join(parts, ",") + "}", 12
	}
	panic("not a literal: " + fmt.Sprint(v))
}

// expr renders e so that it can stand where level lvl is required
func (w renderer) expr(e N, lvl int) string {
	s, l := w.expr1(e)
	if l < lvl || w.chance(0.03) {
		return "(" + w.osp() + s + w.osp() + ")"
	}
	return s
}

func (w renderer) joined(es N, op string, lvl int) string {
	parts := []string{}
	for _, x := range es {
		parts = append(parts, w.expr(x.(N), lvl))
	}
	return strings.Join(parts, w.sp()+w.kw(op)+w.sp())
}

// base is the level required of what is followed by a property or labels
func base(e N) int {
	if str(e[0]) == "haslabels" {
		return 12
	}
	return 11
}

func (w renderer) expr1(e N) (string, int) {
	switch str(e[0]) {
	case "lit":
		return w.lit(e[1].(N))
	case "var":
		return w.name(str(e[1])), 12
	case "param":
		return str(e[1]), 12
	case "prop":
		return w.expr(e[1].(N), base(e[1].(N))) + "." + w.key(str(e[2])), 11
	case "list":
		parts := []string{}
		for _, x := range list(e[1]) {
			parts = append(parts, w.expr(x.(N), 0))
		}
		return "[" + w.osp() + strings.Join(parts, ","+w.osp()) + "]", 12
	case "map":
		return w.mapLit(list(e[1])), 12
	case "bin":
		l := map[string]int{"+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "^": 8}[str(e[1])]
		sep := w.sp()
		right := w.expr(e[3].(N), l+1)
		left := w.expr(e[2].(N), l)
		if w.chance(0.3) && !strings.HasPrefix(right, "-") && !strings.HasPrefix(right, "+") && !strings.HasPrefix(right, "*") && !strings.HasPrefix(right, "/") {
			sep = ""
		}
		return left + sep + str(e[1]) + sep + right, l
	case "cmp":
		s := w.expr(e[1].(N), 6)
		for _, p := range list(e[2]) {
			q := p.(N)
			s += w.sp() + str(q[0]) + w.sp() + w.expr(q[1].(N), 6)
		}
		return s, 5
	case "and":
		return w.joined(list(e[1]), "AND", 4), 3
	case "xor":
		return w.joined(list(e[1]), "XOR", 3), 2
	case "or":
		return w.joined(list(e[1]), "OR", 2), 1
	case "not":
		return w.kw("NOT") + w.sp() + w.expr(e[1].(N), 4), 4
	case "neg":
		return "-" + w.osp() + w.expr(e[1].(N), 9), 9
	case "pos":
		return "+" + w.osp() + w.expr(e[1].(N), 9), 9
	case "in":
		return w.expr(e[1].(N), 10) + w.sp() + w.kw("IN") + w.sp() + w.expr(e[2].(N), 11), 10
	case "idx":
		return w.expr(e[1].(N), 10) + "[" + w.expr(e[2].(N), 0) + "]", 10
	case "slice":
		f, t := "", ""
		if str(e[2].(N)[0]) != "none" {
			f = w.expr(e[2].(N), 0)
		}
		if str(e[3].(N)[0]) != "none" {
			t = w.expr(e[3].(N), 0)
		}
		return w.expr(e[1].(N), 10) + "[" + f + ".." + t + "]", 10
	case "starts":
		return w.expr(e[1].(N), 10) + w.sp() + w.kw("STARTS") + " " + w.kw("WITH") + w.sp() + w.expr(e[2].(N), 11), 10
	case "ends":
		return w.expr(e[1].(N), 10) + w.sp() + w.kw("ENDS") + " " + w.kw("WITH") + w.sp() + w.expr(e[2].(N), 11), 10
	case "contains":
		return w.expr(e[1].(N), 10) + w.sp() + w.kw("CONTAINS") + w.sp() + w.expr(e[2].(N), 11), 10
	case "isnull":
		return w.expr(e[1].(N), 10) + w.sp() + w.kw("IS") + w.sp() + w.kw("NULL"), 10
	case "isnotnull":
		return w.expr(e[1].(N), 10) + w.sp() + w.kw("IS") + w.sp() + w.kw("NOT") + w.sp() + w.kw("NULL"), 10
	case "call":
		parts := []string{}
		for _, x := range list(e[2]) {
			parts = append(parts, w.expr(x.(N), 0))
		}
		return str(e[1]) + "(" + w.osp() + strings.Join(parts, ","+w.osp()) + ")", 12
	case "case":
		s := w.kw("CASE")
		if str(e[1].(N)[0]) != "none" {
			s += w.sp() + w.expr(e[1].(N), 0)
		}
		for _, p := range list(e[2]) {
			q := p.(N)
			s += w.sp() + w.kw("WHEN") + w.sp() + w.expr(q[0].(N), 0) + w.sp() + w.kw("THEN") + w.sp() + w.expr(q[1].(N), 0)
		}
		if str(e[3].(N)[0]) != "none" {
			s += w.sp() + w.kw("ELSE") + w.sp() + w.expr(e[3].(N), 0)
		}
		return s + w.sp() + w.kw("END"), 12
	case "haslabels":
		return w.expr(e[1].(N), base(e[1].(N))) + w.labels(list(e[2])), 11
	}
	panic("expr: " + fmt.Sprint(e))
}

// key renders the name of a label, relationship type or property: reserved
// words are allowed there
func (w renderer) key(s string) string {
	if plainName(s) && !(w.boost > 0 && w.chance(0.05)) {
		return s
	}
	if w.boost > 0 && w.chance(0.2) && (reserved[strings.ToUpper(s)] || s == "é" || s == "日本" || s == "_1") {
		return s
	}
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

func (w renderer) mapLit(kvs N) string {
	parts := []string{}
	for _, kv := range kvs {
		p := kv.(N)
		parts = append(parts, w.key(str(p[0]))+w.osp()+":"+w.osp()+w.expr(p[1].(N), 0))
	}
	return "{" + strings.Join(parts, ","+w.osp()) + "}"
}

func (w renderer) labels(ls N) string {
	s := ""
	for _, l := range ls {
		s += ":" + w.key(str(l))
	}
	return s
}

func (w renderer) props(p N) string {
	switch str(p[0]) {
	case "none":
		return ""
	case "param":
		return str(p[1])
	}
	return w.mapLit(list(p[1]))
}

func (w renderer) node(n M) string {
	s := ""
	if v := str(n["var"]); v != "" {
		s = w.name(v)
	}
	s += w.labels(list(n["labels"]))
	if p := w.props(n["props"].(N)); p != "" {
		if s != "" {
			s += " "
		}
		s += p
	}
	return "(" + w.osp() + s + w.osp() + ")"
}

func (w renderer) rel(r M) string {
	s := ""
	if v := str(r["var"]); v != "" {
		s = w.name(v)
	}
	for i, t := range list(r["types"]) {
		if i == 0 {
			s += ":"
		} else if w.chance(0.3) {
			s += "|:"
		} else {
			s += "|"
		}
		s += w.key(str(t))
	}
	rng := r["rng"].(N)
	if str(rng[0]) != "none" {
		f, t := num(rng[0]), num(rng[1])
		switch {
		case f == -1 && t == -1:
			s += "*"
			if w.chance(0.3) {
				s += ".."
			}
		case f == t:
			s += fmt.Sprintf("*%d", f)
			if w.chance(0.3) {
				s += fmt.Sprintf("..%d", t)
			}
		case f == -1:
			s += fmt.Sprintf("*..%d", t)
		case t == -1:
			s += fmt.Sprintf("*%d..", f)
		default:
			s += fmt.Sprintf("*%d..%d", f, t)
		}
	}
	if p := w.props(r["props"].(N)); p != "" {
		if s != "" {
			s += " "
		}
		s += p
	}
	body := "[" + s + "]"
	if s == "" && w.chance(0.7) {
		body = ""
	}
	l, t := "-", "-"
	switch str(r["dir"]) {
	case "out":
		t = "->"
	case "in":
		l = "<-"
	case "both":
		l, t = "<-", "->"
	}
	return l + body + t
}

func (w renderer) part(p M) string {
	s := ""
	if v := str(p["var"]); v != "" {
		s = w.name(v) + " = "
	}
	s += w.node(p["start"].(M))
	for _, c := range list(p["chain"]) {
		m := c.(M)
		s += w.rel(m["rel"].(M)) + w.node(m["node"].(M))
	}
	return s
}

func (w renderer) parts(ps N) string {
	out := []string{}
	for _, p := range ps {
		out = append(out, w.part(p.(M)))
	}
	return strings.Join(out, ","+w.sp())
}

func (w renderer) setItems(its N) string {
	out := []string{}
	for _, x := range its {
		it := x.(N)
		switch str(it[0]) {
		case "prop":
			out = append(out, w.expr(it[1].(N), 12)+"."+w.key(str(it[2]))+w.sp()+"="+w.sp()+w.expr(it[3].(N), 0))
		case "labels":
			out = append(out, w.name(str(it[1]))+w.labels(list(it[2])))
		default:
			out = append(out, w.name(str(it[1]))+w.sp()+str(it[0])+w.sp()+w.expr(it[2].(N), 0))
		}
	}
	return w.kw("SET") + w.sp() + strings.Join(out, ","+w.sp())
}

func (w renderer) update(u M) string {
	switch str(u["k"]) {
	case "create":
		return w.kw("CREATE") + w.sp() + w.parts(list(u["parts"]))
	case "merge":
		s := w.kw("MERGE") + w.sp() + w.part(u["part"].(M))
		for _, a := range list(u["actions"]) {
			m := a.(M)
			s += w.sp() + w.kw("ON") + " " + w.kw(strings.ToUpper(str(m["on"]))) + " " + w.setItems(list(m["items"]))
		}
		return s
	case "set":
		return w.setItems(list(u["items"]))
	case "remove":
		out := []string{}
		for _, x := range list(u["items"]) {
			it := x.(N)
			if str(it[0]) == "prop" {
				out = append(out, w.expr(it[1].(N), 12)+"."+w.key(str(it[2])))
			} else {
				out = append(out, w.name(str(it[1]))+w.labels(list(it[2])))
			}
		}
		return w.kw("REMOVE") + w.sp() + strings.Join(out, ","+w.sp())
	case "delete":
		out := []string{}
		for _, x := range list(u["exprs"]) {
			out = append(out, w.expr(x.(N), 0))
		}
		s := w.kw("DELETE")
		if u["detach"].(bool) {
			s = w.kw("DETACH") + w.sp() + s
		}
		return s + w.sp() + strings.Join(out, ","+w.sp())
	}
	panic("update")
}

func (w renderer) single(q M) string {
	out := []string{}
	for _, x := range list(q["read"]) {
		m := x.(M)
		s := w.kw("MATCH") + w.sp() + w.parts(list(m["parts"]))
		if m["opt"].(bool) {
			s = w.kw("OPTIONAL") + w.sp() + s
		}
		if wh := m["where"].(N); str(wh[0]) != "none" {
			s += w.sp() + w.kw("WHERE") + w.sp() + w.expr(wh, 0)
		}
		out = append(out, s)
	}
	for _, x := range list(q["upd"]) {
		out = append(out, w.update(x.(M)))
	}
	if q["hasret"].(bool) {
		ret := q["ret"].(M)
		s := w.kw("RETURN")
		if ret["distinct"].(bool) {
			s += w.sp() + w.kw("DISTINCT")
		}
		items := []string{}
		if ret["all"].(bool) {
			items = append(items, "*")
		}
		for _, x := range list(ret["items"]) {
			it := x.(N)
			t := w.expr(it[0].(N), 0)
			if a := str(it[1]); a != "" {
				t += w.sp() + w.kw("AS") + w.sp() + w.name(a)
			}
			items = append(items, t)
		}
		s += w.sp() + strings.Join(items, ","+w.sp())
		if ob, ok := ret["order"]; ok {
			keys := []string{}
			for _, x := range list(ob) {
				k := x.(N)
				t := w.expr(k[0].(N), 0)
				if d := str(k[1]); d != "" {
					t += " " + w.kw(d)
				}
				keys = append(keys, t)
			}
			if len(keys) > 0 {
				s += w.sp() + w.kw("ORDER") + " " + w.kw("BY") + w.sp() + strings.Join(keys, ","+w.sp())
			}
		}
		if k := ret["skip"].(N); str(k[0]) != "none" {
			s += w.sp() + w.kw("SKIP") + w.sp() + w.expr(k, 0)
		}
		if k := ret["limit"].(N); str(k[0]) != "none" {
			s += w.sp() + w.kw("LIMIT") + w.sp() + w.expr(k, 0)
		}
		out = append(out, s)
	}
	return strings.Join(out, w.sp())
}

func (w renderer) query(q M) string {
	out := ""
	for i, s := range list(q["singles"]) {
		if i > 0 {
			out += w.sp() + w.kw("UNION") + " "
			if list(q["alls"])[i-1].(bool) {
				out += w.kw("ALL") + " "
			}
		}
		out += w.single(s.(M))
	}
	if w.chance(0.1) {
		out += ";"
	}
	return out
}
