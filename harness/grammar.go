package main

import (
	_ "embed"
	"strings"
	"unicode/utf8"
)

// Texts derived at random from the published grammar of the language.

//go:embed cypher.g4
var grammarText string

// node of a grammar rule: kind is seq, alt, opt, star, plus, lit, ref, not
type gnode struct {
	kind string
	subs []*gnode
	text string
}

var grammar = parseGrammar(grammarText)

func parseGrammar(t string) map[string]*gnode {
	toks := []string{}
	for i := 0; i < len(t); {
		c := t[i]
		switch {
		case strings.HasPrefix(t[i:], "/*"):
			i += strings.Index(t[i:], "*/") + 2
		case strings.HasPrefix(t[i:], "//"):
			i += strings.IndexByte(t[i:], '\n') + 1
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'':
			j := i + 1
			for t[j] != '\'' {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			toks = append(toks, t[i:j+1])
			i = j + 1
		case c == '[':
			j := i + 1
			for t[j] != ']' {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			toks = append(toks, t[i:j+1])
			i = j + 1
		case strings.IndexByte("():|;?*+~", c) >= 0:
			toks = append(toks, string(c))
			i++
		default:
			j := i
			for j < len(t) && (t[j] == '_' || t[j] >= '0' && t[j] <= '9' || t[j] >= 'A' && t[j] <= 'Z' || t[j] >= 'a' && t[j] <= 'z') {
				j++
			}
			if j == i {
				panic("grammar: " + t[i:i+10])
			}
			toks = append(toks, t[i:j])
			i = j
		}
	}
	p := 0
	var alt func() *gnode
	elem := func() *gnode {
		tk := toks[p]
		p++
		var n *gnode
		switch {
		case tk == "(":
			n = alt()
			p++ // )
		case tk == "~":
			n = &gnode{kind: "not", text: toks[p]}
			p++
		case tk[0] == '\'':
			n = &gnode{kind: "lit", text: unquoteG(tk[1 : len(tk)-1])}
		case tk[0] == '[':
			n = &gnode{kind: "set", text: tk}
		default:
			n = &gnode{kind: "ref", text: tk}
		}
		for p < len(toks) {
			switch toks[p] {
			case "?":
				n = &gnode{kind: "opt", subs: []*gnode{n}}
			case "*":
				n = &gnode{kind: "star", subs: []*gnode{n}}
			case "+":
				n = &gnode{kind: "plus", subs: []*gnode{n}}
			default:
				return n
			}
			p++
		}
		return n
	}
	alt = func() *gnode {
		a := &gnode{kind: "alt"}
		for {
			s := &gnode{kind: "seq"}
			for toks[p] != "|" && toks[p] != ")" && toks[p] != ";" {
				s.subs = append(s.subs, elem())
			}
			a.subs = append(a.subs, s)
			if toks[p] != "|" {
				return a
			}
			p++
		}
	}
	out := map[string]*gnode{}
	for p < len(toks) {
		if toks[p] == "grammar" {
			p += 3
			continue
		}
		if toks[p] == "fragment" {
			p++
		}
		name := toks[p]
		p += 2 // name :
		out[name] = alt()
		p++ // ;
	}
	return out
}

func unquoteG(s string) string {
	b := strings.Builder{}
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if s[i] == 'u' {
			v := 0
			for _, c := range s[i+1 : i+5] {
				v = v*16 + strings.IndexRune("0123456789abcdef", c|0x20)
			}
			b.WriteRune(rune(v))
			i += 4
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// deriver derives a text from a rule; names, numbers and characters come from g
type deriver struct {
	g      *gen
	b      strings.Builder
	budget int
}

func (d *deriver) rule(name string) {
	g := d.g
	d.budget--
	switch name {
	case "EOF":
		return
	case "SP":
		d.b.WriteString(g.pick(" ", " ", " ", " ", " ", "\n", "\t", " /* c */ ", "\u00a0"))
		return
	case "oC_SymbolicName", "oC_Variable":
		d.b.WriteString(g.pick("n", "m", "r", "x", "n", "m", "a", "`x y`", "count", "this"))
		return
	case "oC_LabelName", "oC_RelTypeName":
		d.b.WriteString(g.pick("A", "B", "R", "S", "C", "`x y`", "MATCH"))
		return
	case "oC_PropertyKeyName":
		d.b.WriteString(g.pick("p", "q", "id", "b", "l", "year", "`x y`"))
		return
	case "oC_FunctionName":
		d.b.WriteString(g.pick("size", "labels", "type", "date", "substring", "left", "right", "trim", "split", "toInteger", "toFloat", "toIntegerOrNull", "nosuch", "Size", "TOINTEGER", "a.b", "exists", "timestamp", "ltrim"))
		return
	case "oC_Parameter":
		d.b.WriteString(g.pick("$p0", "$p1", "$p2", "$0", "$p3"))
		return
	case "oC_RangeLiteral":
		d.b.WriteString(g.pick("*", "*1", "*2", "*..2", "*1..2", "*0..1", "*1..", "*2..1", "*0x1..017"))
		return
	case "oC_NumberLiteral":
		d.b.WriteString(g.pick("0", "1", "2", "3", "1.5", ".5", "1e1", "0x1f", "017", "2E-1", "9223372036854775807", "9223372036854775808", "1e400"))
		return
	case "oC_IntegerLiteral":
		d.b.WriteString(g.pick("0", "1", "2", "0x2", "07"))
		return
	case "StringLiteral":
		d.b.WriteString(renderer{r: g.Rand, boost: 1}.strLit(g.strVal()))
		return
	case "oC_Expression":
		if d.budget < 0 {
			d.b.WriteString(g.pick("n", "1", "'a'", "[1]", "null", "n.p", "{p:1}", "$p0", "true"))
			return
		}
	case "oC_LeftArrowHead", "oC_RightArrowHead", "oC_Dash":
		if g.chance(0.95) {
			d.b.WriteString(map[string]string{"oC_LeftArrowHead": "<", "oC_RightArrowHead": ">", "oC_Dash": "-"}[name])
			return
		}
	}
	n, ok := grammar[name]
	if !ok {
		panic("no rule " + name)
	}
	d.node(n)
}

func (d *deriver) node(n *gnode) {
	g := d.g
	more := func() bool { return d.budget > 0 && g.chance(0.35) }
	switch n.kind {
	case "seq":
		for i, s := range n.subs {
			if s.kind == "opt" && len(s.subs) == 1 && s.subs[0].kind == "ref" && s.subs[0].text == "SP" {
				// optional space: words must not run together
				if g.chance(0.15) || d.wordEnd() && i+1 < len(n.subs) {
					d.rule("SP")
				}
				continue
			}
			d.node(s)
		}
	case "alt":
		k := g.Intn(len(n.subs))
		if d.budget <= 0 {
			k = 0
			for i, s := range n.subs {
				if len(s.subs) < len(n.subs[k].subs) {
					k = i
				}
			}
		}
		d.node(n.subs[k])
	case "opt":
		if more() {
			d.node(n.subs[0])
		}
	case "star":
		for k := 0; k < 2 && more(); k++ {
			d.node(n.subs[0])
		}
	case "plus":
		d.node(n.subs[0])
		for k := 0; k < 2 && more(); k++ {
			d.node(n.subs[0])
		}
	case "lit":
		if d.wordEnd() && n.text != "" && isWord(n.text[0]) {
			d.b.WriteByte(' ')
		}
		d.b.WriteString(n.text)
	case "set", "not":
		d.b.WriteString("x")
	case "ref":
		if isUpper(n.text) && n.text != "SP" && n.text != "EOF" && !strings.Contains(n.text, "Integer") {
			// a keyword
			if d.wordEnd() {
				d.b.WriteByte(' ')
			}
			w := n.text
			if w == "L_SKIP" {
				w = "SKIP"
			}
			d.b.WriteString(w)
			return
		}
		if d.wordEnd() && wordRule[n.text] {
			d.b.WriteByte(' ')
		}
		d.rule(n.text)
	}
}

var wordRule = map[string]bool{"oC_SymbolicName": true, "oC_Variable": true, "oC_FunctionName": true, "oC_NumberLiteral": true, "oC_IntegerLiteral": true, "oC_PropertyKeyName": true, "oC_LabelName": true, "oC_RelTypeName": true}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
}

func isUpper(s string) bool { return s == strings.ToUpper(s) }

func (d *deriver) wordEnd() bool {
	s := d.b.String()
	return s != "" && (isWord(s[len(s)-1]) || s[len(s)-1] >= utf8.RuneSelf)
}

func (g *gen) derive(rule string, budget int) string {
	d := &deriver{g: g, budget: budget}
	d.rule(rule)
	return d.b.String()
}
