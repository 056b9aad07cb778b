package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

// world is a property graph loaded into the library, with the entities
// reachable by the identifiers used in a history.
type world struct {
	g     *lpg.Graph
	nodes map[int]*lpg.Node
	edges map[int]*lpg.Edge
}

// load builds a graph from its JSON form.  index: also index these node properties.
func load(g0 M, index []string) *world {
	w := &world{g: lpg.NewGraph(), nodes: map[int]*lpg.Node{}, edges: map[int]*lpg.Edge{}}
	for _, k := range index {
		w.g.AddNodePropertyIndex(k, lpg.BtreeIndex)
	}
	for _, x := range list(g0["nodes"]) {
		n := x.(N)
		labels := []string{}
		for _, l := range list(n[1]) {
			labels = append(labels, str(l))
		}
		w.nodes[num(n[0])] = w.g.NewNode(labels, nativeProps(n[2]))
	}
	for _, x := range list(g0["edges"]) {
		e := x.(N)
		w.edges[num(e[0])] = w.g.NewEdge(w.nodes[num(e[1])], w.nodes[num(e[2])], str(e[3]), nativeProps(e[4]))
	}
	return w
}

func nativeProps(x any) map[string]any {
	m := map[string]any{}
	for k, v := range objOf(x) {
		m[k] = dec(v.(N), nil)
	}
	return m
}

func (w *world) node(id int) *lpg.Node {
	n, ok := w.nodes[id]
	if !ok {
		panic(fmt.Sprintf("no node %d", id))
	}
	return n
}

func (w *world) edge(id int) *lpg.Edge {
	e, ok := w.edges[id]
	if !ok {
		panic(fmt.Sprintf("no edge %d", id))
	}
	return e
}

func encProps(each func(func(string, interface{}) bool) bool) M {
	m := M{}
	each(func(k string, v interface{}) bool {
		m[k] = enc(v)
		return true
	})
	return m
}

func sortedStrings(s []string) N {
	sort.Strings(s)
	out := N{}
	for _, x := range s {
		out = append(out, x)
	}
	return out
}

// snapshot records the whole graph and refreshes the identifier tables.
func (w *world) snapshot() M {
	w.nodes = map[int]*lpg.Node{}
	w.edges = map[int]*lpg.Edge{}
	nodes, edges := N{}, N{}
	for itr := w.g.GetNodes(); itr.Next(); {
		n := itr.Node()
		w.nodes[n.GetID()] = n
		nodes = append(nodes, N{n.GetID(), sortedStrings(n.GetLabels().Slice()), encProps(n.ForEachProperty)})
	}
	for itr := w.g.GetEdges(); itr.Next(); {
		e := itr.Edge()
		w.edges[e.GetID()] = e
		edges = append(edges, N{e.GetID(), e.GetFrom().GetID(), e.GetTo().GetID(), e.GetLabel(), encProps(e.ForEachProperty)})
	}
	return M{"nodes": nodes, "edges": edges}
}

func edgeIDs(itr lpg.EdgeIterator) N {
	out := N{}
	for itr.Next() {
		out = append(out, itr.Edge().GetID())
	}
	return out
}

// views records the other ways to look at the graph.
func (w *world) views() M {
	labels := map[string]bool{"A": true, "B": true}
	types := map[string]bool{"R": true}
	out, inc := N{}, N{}
	for itr := w.g.GetNodes(); itr.Next(); {
		n := itr.Node()
		for l := range n.GetLabels().M {
			labels[l] = true
		}
		out = append(out, N{n.GetID(), edgeIDs(n.GetEdges(lpg.OutgoingEdge))})
		inc = append(inc, N{n.GetID(), edgeIDs(n.GetEdges(lpg.IncomingEdge))})
	}
	for itr := w.g.GetEdges(); itr.Next(); {
		types[itr.Edge().GetLabel()] = true
	}
	byLabel, byType := N{}, N{}
	for l := range labels {
		ids := N{}
		for itr := w.g.GetNodesWithAllLabels(lpg.NewStringSet(l)); itr.Next(); {
			ids = append(ids, itr.Node().GetID())
		}
		byLabel = append(byLabel, N{l, ids})
	}
	for t := range types {
		byType = append(byType, N{t, edgeIDs(w.g.GetEdgesWithAnyLabel(lpg.NewStringSet(t)))})
	}
	return M{"numNodes": w.g.NumNodes(), "numEdges": w.g.NumEdges(), "out": out, "inc": inc, "byLabel": byLabel, "byType": byType}
}

// ids of the live nodes and edges, in order
func (w *world) ids() (ns, es []int) {
	for id := range w.nodes {
		ns = append(ns, id)
	}
	for id := range w.edges {
		es = append(es, id)
	}
	sort.Ints(ns)
	sort.Ints(es)
	return ns, es
}
