package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

var hangLimit = 20 * time.Second

type hang struct{}

// guarded runs f, turning a panic or a hang of the library into an outcome.
func guarded(f func()) (k, msg string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case m := <-done:
		if m != "" {
			return "panic", m
		}
		return "", ""
	case <-time.After(hangLimit):
		return "panic", "hang"
	}
}

// runner executes the events of one history against the library.
type runner struct {
	w     *world
	ctx   *oc.EvalContext
	cache map[string]oc.Evaluatable
	log   N
	hung  bool
	index []string
}

func newRunner(g0 M, index []string) *runner {
	r := &runner{w: load(g0, index), cache: map[string]oc.Evaluatable{}, index: index}
	return r
}

// reload copies the graph into a new one, and starts a new context with vars
func (r *runner) reload(vars M) {
	snap := r.w.snapshot()
	ids, eids := map[int]int{}, map[int]int{}
	nodes, edges := list(snap["nodes"]), list(snap["edges"])
	nn, ee := N{}, N{}
	for i, x := range nodes {
		n := x.(N)
		ids[num(n[0])] = i
		nn = append(nn, N{i, n[1], n[2]})
	}
	for i, x := range edges {
		e := x.(N)
		eids[num(e[0])] = len(nodes) + i
		ee = append(ee, N{len(nodes) + i, ids[num(e[1])], ids[num(e[2])], e[3], e[4]})
	}
	r.w = load(M{"nodes": nn, "edges": ee}, r.index)
	m := M{}
	for k, x := range vars {
		v := x.(N)
		if str(v[0]) == "node" {
			m[k] = N{"node", ids[num(v[1])]}
		} else {
			m[k] = N{"rel", N{eids[num(list(v[1])[0])]}}
		}
	}
	r.newCtx(m)
}

func (r *runner) newCtx(vars M) {
	r.ctx = oc.NewEvalContext(r.w.g)
	for k, v := range vars {
		r.ctx.SetVar(k, oc.RValue{Value: dec(v.(N), r.w)})
	}
}

func (r *runner) vars() M {
	m := M{}
	for k, v := range r.ctx.GetVarsNearestScope() {
		m[k] = encV(v)
	}
	return m
}

func encV(v oc.Value) N {
	if v == nil {
		return N{"go", "nil"}
	}
	return enc(v.Get())
}

func encRows(rows []map[string]oc.Value) N {
	out := N{}
	for _, row := range rows {
		m := M{}
		for k, v := range row {
			m[k] = encV(v)
		}
		out = append(out, m)
	}
	return out
}

// ids, sorted
func ids(l []int) N {
	sort.Ints(l)
	out := N{}
	for _, x := range l {
		out = append(out, x)
	}
	return out
}

func strs(s []string) N {
	out := N{}
	for _, x := range s {
		out = append(out, x)
	}
	return out
}

// alongside evaluates e in n goroutines on copies of the graph, and tells when they
// are about to start and what came of it
func (r *runner) alongside(e oc.Evaluatable, par M, n int) (start, wait func(), others N) {
	gate := make(chan struct{})
	var ready, done sync.WaitGroup
	g := r.w.snapshot()
	others = make(N, n)
	for i := 0; i < n; i++ {
		i, w := i, load(g, r.index)
		ctx := oc.NewEvalContext(w.g)
		for k, v := range par {
			ctx.SetParameter(k, oc.RValue{Value: dec(v.(N), w)})
		}
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					others[i] = M{"k": "panic", "n": 0, "msg": fmt.Sprint(p)}
				}
			}()
			ready.Done()
			<-gate
			others[i] = M{"k": "err", "n": 0}
			v, err := e.Evaluate(ctx)
			if err != nil {
				return
			}
			if rs, ok := v.Get().(oc.ResultSet); ok {
				others[i] = M{"k": "ok", "n": len(rs.Rows)}
			}
		}()
	}
	return func() { ready.Wait(); close(gate) }, done.Wait, others
}

// queries of the model, parsed once for all replayed histories
var replayParsed = map[string]oc.Evaluatable{}

// outcome of evaluating query text (or a cached parse of it) in the current context
func (r *runner) eval(text, cache string, par M, together int) M {
	out := M{"k": "ok", "cols": N{}, "rows": N{}}
	var others N
	k, msg := guarded(func() {
		var e oc.Evaluatable
		if cache != "" {
			e = r.cache[cache]
		}
		if strings.HasPrefix(cache, "mc:") {
			e = replayParsed[cache]
		}
		if x, ok := sharedParsed[cache]; ok {
			e = x
		}
		if e == nil {
			var err error
			e, err = oc.Parse(text)
			if err != nil {
				out["k"], out["msg"] = "err", "parse: "+err.Error()
				return
			}
			if strings.HasPrefix(cache, "mc:") {
				replayParsed[cache] = e
			} else if cache != "" {
				r.cache[cache] = e
			}
		}
		if together > 0 {
			start, wait, o := r.alongside(e, par, together)
			others = o
			defer wait()
			start()
		}
		v, err := e.Evaluate(r.ctx)
		if err != nil {
			out["k"], out["msg"] = "err", err.Error()
			return
		}
		rs, ok := v.Get().(oc.ResultSet)
		if !ok {
			out["k"], out["msg"] = "err", fmt.Sprintf("not a result set: %T", v.Get())
			return
		}
		out["cols"] = strs(rs.Cols)
		out["rows"] = encRows(rs.Rows)
	})
	if k != "" {
		out = M{"k": k, "cols": N{}, "rows": N{}, "msg": msg}
		if msg == "hang" {
			r.hung = true
		}
	}
	if others != nil && k == "" {
		out["others"] = others
	}
	return out
}

func (r *runner) setFilter(mode string) {
	r.log = N{}
	switch mode {
	case "none", "":
		r.ctx.PropertyValueFromNativeFilter = nil
	default:
		r.ctx.PropertyValueFromNativeFilter = func(key string, v interface{}) interface{} {
			if v != nil {
				r.log = append(r.log, N{key, enc(v)})
			}
			if n, ok := v.(int); ok && mode == "shift" {
				return n + 1000
			}
			return v
		}
	}
}

// step executes one event and returns it completed with what was observed
func (r *runner) step(ev M, rng *rand.Rand) M {
	out := M{}
	for k, v := range ev {
		out[k] = v
	}
	switch str(ev["ev"]) {
	case "newctx":
		r.newCtx(objOf(ev["vars"]))
		out["vars"] = r.vars()
	case "load":
		// another graph and other variables
		r.w = load(objOf(ev["g"]), r.index)
		r.newCtx(objOf(ev["vars"]))
		out["post"] = r.w.snapshot()
		out["vars"] = r.vars()
	case "reload":
		// the same graph and variables in a new instance of the library's graph
		vars := liveVars(r, r.vars())
		r.reload(vars)
		out["post"] = r.w.snapshot()
		out["vars"] = r.vars()
	case "exec", "any":
		text, ok := ev["text"].(string)
		if str(ev["ev"]) == "any" {
			text, ok = fromCodes(ev["text"]), true
		}
		if !ok {
			rd := renderer{r: rng}
			if b, ok := ev["noise"]; ok {
				rd.boost = float64(num(b))
			}
			text = rd.query(ev["q"].(M))
		}
		if str(ev["ev"]) == "exec" {
			out["text"] = text
		}
		filt := "none"
		if f, ok := ev["filt"].(string); ok {
			filt = f
		}
		out["filt"] = filt
		par := objOf(ev["par"])
		out["par"] = par
		for k, v := range par {
			r.ctx.SetParameter(k, oc.RValue{Value: dec(v.(N), r.w)})
		}
		r.setFilter(filt)
		cache, _ := ev["cache"].(string)
		together := 0
		if n, ok := ev["together"]; ok {
			together = num(n)
		}
		out["out"] = r.eval(text, cache, par, together)
		if r.hung {
			out["post"], out["vars"], out["log"] = M{"nodes": N{}, "edges": N{}}, M{}, N{}
			out["views"] = M{"numNodes": 0, "numEdges": 0, "out": N{}, "inc": N{}, "byLabel": N{}, "byType": N{}}
			return out
		}
		k, msg := guarded(func() {
			out["post"] = r.w.snapshot()
			out["vars"] = r.vars()
			out["log"] = r.log
			out["views"] = r.w.views()
		})
		if k != "" {
			out["out"] = M{"k": "panic", "cols": N{}, "rows": N{}, "msg": "inspecting the graph: " + msg}
			out["post"], out["vars"], out["log"] = M{"nodes": N{}, "edges": N{}}, M{}, N{}
			out["views"] = M{"numNodes": 0, "numEdges": 0, "out": N{}, "inc": N{}, "byLabel": N{}, "byType": N{}}
			r.hung = true
		}
	default:
		r.other(out)
	}
	return out
}

// one evaluates an expression text in a fresh context
func one(text string) M {
	w := load(M{}, nil)
	r := &runner{w: w, cache: map[string]oc.Evaluatable{}}
	r.newCtx(M{})
	o := r.eval(text, "", M{}, 0)
	res := M{"k": o["k"], "v": N{"null"}}
	if m, ok := o["msg"]; ok {
		res["msg"] = m
	}
	if rows := list(o["rows"]); len(rows) == 1 {
		for _, v := range rows[0].(M) {
			res["v"] = v
		}
	}
	return res
}

func fromCodes(x any) string { return decStr(N{"str", x}) }

func (r *runner) other(e M) {
	set := func(f func() M) {
		var o M
		k, msg := guarded(func() { o = f() })
		if k != "" {
			o = M{"k": k, "msg": msg, "v": N{"null"}, "rows": N{}, "ids": N{}}
			r.hung = msg == "hang"
		}
		e["out"] = o
	}
	rowsOf := func(x any) []map[string]oc.Value {
		out := []map[string]oc.Value{}
		for _, row := range list(x) {
			m := map[string]oc.Value{}
			for k, v := range objOf(row) {
				m[k] = oc.RValue{Value: dec(v.(N), r.w)}
			}
			out = append(out, m)
		}
		return out
	}
	rsOf := func(x any) oc.ResultSet {
		rs := *oc.NewResultSet()
		for _, row := range rowsOf(x) {
			rs.Append(row)
		}
		return rs
	}
	switch str(e["ev"]) {
	case "strlit", "numlit":
		e["out"] = one("RETURN " + fromCodes(e["text"]))
	case "esc":
		s := fromCodes(e["s"])
		set(func() M {
			var t string
			switch str(e["kind"]) {
			case "string":
				t = oc.EscapeStringLiteral(s)
			case "label":
				t = oc.EscapeLabelLiteral(s)
			default:
				t = oc.EscapePropertyKeyLiteral(s)
			}
			e["esc"] = codes(t)
			switch str(e["kind"]) {
			case "string":
				return one("RETURN " + t)
			case "label":
				g := lpg.NewGraph()
				_, err := oc.ParseAndEvaluate("CREATE (n:"+t+")", oc.NewEvalContext(g))
				if err != nil {
					return M{"k": "err", "v": N{"null"}, "msg": err.Error()}
				}
				v := N{"null"}
				for itr := g.GetNodes(); itr.Next(); {
					if ls := itr.Node().GetLabels().Slice(); len(ls) == 1 {
						v = encStr(ls[0])
					}
				}
				return M{"k": "ok", "v": v}
			default:
				g := lpg.NewGraph()
				_, err := oc.ParseAndEvaluate("CREATE (n {"+t+": 1})", oc.NewEvalContext(g))
				if err != nil {
					return M{"k": "err", "v": N{"null"}, "msg": err.Error()}
				}
				v := N{"null"}
				for itr := g.GetNodes(); itr.Next(); {
					itr.Node().ForEachProperty(func(k string, _ interface{}) bool { v = encStr(k); return true })
				}
				return M{"k": "ok", "v": v}
			}
		})
		if _, ok := e["esc"]; !ok {
			e["esc"] = N{}
		}
	case "parse":
		set(func() M {
			_, err := oc.Parse(fromCodes(e["text"]))
			if err != nil {
				return M{"k": "err", "msg": err.Error()}
			}
			return M{"k": "ok"}
		})
	case "same":
		set(func() M {
			a := oc.RValue{Value: dec(e["a"].(N), r.w)}
			b := oc.RValue{Value: dec(e["b"].(N), r.w)}
			return M{"k": "ok", "v": oc.IsValueSame(a, b)}
		})
	case "cart":
		set(func() M {
			sets := []oc.ResultSet{}
			for _, s := range list(e["sets"]) {
				sets = append(sets, rsOf(s))
			}
			flt := str(e["flt"])
			rs := oc.CartesianProduct(sets, e["all"].(bool), func(row map[string]oc.Value) bool {
				if flt == "" {
					return true
				}
				v, ok := row[flt]
				return ok && v.Get() != nil
			})
			return M{"k": "ok", "rows": encRows(rs.Rows)}
		})
	case "colcart":
		set(func() M {
			rows := N{}
			rsOf(e["rows"]).CartesianProduct(func(row map[string]oc.Value) bool {
				rows = append(rows, encRows([]map[string]oc.Value{row})[0])
				return true
			})
			return M{"k": "ok", "rows": rows}
		})
	case "union":
		set(func() M {
			a, b := rsOf(e["a"]), rsOf(e["b"])
			if err := a.Union(b, e["all"].(bool)); err != nil {
				return M{"k": "err", "rows": N{}, "msg": err.Error()}
			}
			return M{"k": "ok", "rows": encRows(a.Rows)}
		})
	case "rset":
		// a result set built by calls: rows, and the nodes and edges it has collected
		var build func(ops N) oc.ResultSet
		build = func(ops N) oc.ResultSet {
			rs := *oc.NewResultSet()
			for _, x := range ops {
				switch op := x.(N); str(op[0]) {
				case "append":
					row := rowsOf(N{op[1]})[0]
					for k, v := range row {
						if p, ok := v.Get().(*lpg.Path); ok {
							row[k] = oc.RValue{Value: p.GetEdge(0)}
						}
					}
					rs.Append(row)
				case "path":
					var n *lpg.Node
					if num(op[1]) >= 0 {
						n = r.w.node(num(op[1]))
					}
					var es []*lpg.Edge
					for _, id := range list(op[2]) {
						es = append(es, r.w.edge(num(id)))
					}
					rs.AddPath(n, es)
				case "add":
					rs.Add(build(list(op[1])))
				case "union":
					rs.Union(build(list(op[1])), op[2].(bool))
				}
			}
			return rs
		}
		set(func() M {
			rs := build(list(e["ops"]))
			ns, es := []int{}, []int{}
			for _, n := range rs.Nodes.Slice() {
				ns = append(ns, n.GetID())
			}
			for _, x := range rs.Edges.Slice() {
				es = append(es, x.GetID())
			}
			cols := M{}
			for _, c := range []string{"a", "b", "c"} {
				l := N{}
				for _, v := range rs.Column(c) {
					l = append(l, encV(v))
				}
				cols[c] = l
			}
			return M{"k": "ok", "rows": encRows(rs.Rows), "nodes": ids(ns), "edges": ids(es), "columns": cols}
		})
	case "rel":
		text, ok := e["text"].(string)
		if !ok {
			text = renderer{}.part(e["part"].(M))
			e["text"] = text
		}
		set(func() M {
			p, err := oc.ParsePatternExpr(text)
			if err != nil {
				return M{"k": "err", "ids": N{}, "msg": "parse: " + err.Error()}
			}
			ns, err := p.FindRelative(r.w.node(num(e["node"])))
			if err != nil {
				return M{"k": "err", "ids": N{}, "msg": err.Error()}
			}
			got := []int{}
			for _, n := range ns {
				got = append(got, n.GetID())
			}
			return M{"k": "ok", "ids": ids(got)}
		})
	case "scopes":
		outs := N{}
		set(func() M { outs = runScopes(list(e["ops"])); return M{"k": "ok"} })
		e["outs"] = outs
	default:
		panic("event " + str(e["ev"]))
	}
}

// sink writes recorded histories, one per line.
type sink struct {
	sync.Mutex
	f       *os.File
	n       int
	events  int
	careful string
}

func (s *sink) write(h M) {
	b, err := json.Marshal(h)
	if err != nil {
		panic(err)
	}
	s.f.Write(append(b, '\n'))
}

// script produces the events of a history one at a time, given what happened so far.
type script interface {
	start() (g0 M, v0 M, index []string)
	next(r *runner, last M) M
}

func (s *sink) record(id string, sc script, rng *rand.Rand) {
	g0, v0, index := sc.start()
	r := newRunner(g0, index)
	r.newCtx(v0)
	h := M{"h": id, "ev": N{}}
	h["g0"] = r.w.snapshot()
	h["v0"] = r.vars()
	if _, off := time.Now().Zone(); off != 0 {
		h["zone"] = off / 60
	}
	if len(index) > 0 {
		h["index"] = strs(index)
	}
	evs := N{}
	var last M
	for {
		ev := sc.next(r, last)
		if ev == nil {
			break
		}
		if s.careful != "" {
			h["ev"] = append(append(N{}, evs...), ev)
			b, _ := json.Marshal(h)
			os.WriteFile(s.careful, b, 0o644)
		}
		last = r.step(ev, rng)
		evs = append(evs, last)
		if r.hung {
			break
		}
	}
	h["ev"] = evs
	s.Lock()
	defer s.Unlock()
	s.n++
	s.events += len(evs)
	s.write(h)
	if r.hung {
		fmt.Printf("histories=%d events=%d hang\n", s.n, s.events)
		os.Exit(0)
	}
}
