package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"nsverif/sym"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/graph/memory"
)

// dotTokens splits a DOT document; quoted identifiers lose their quotes.
func dotTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"':
			// what is quoted is written as a Go string, escapes included
			j := i
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' && i+1 < len(s) {
					i++
				}
			}
			i++
			if i > len(s) {
				return append(out, "?")
			}
			b, err := strconv.Unquote(s[j:i])
			if err != nil {
				return append(out, "?")
			}
			out = append(out, "="+b)
		case c == '-' && i+1 < len(s) && (s[i+1] == '>' || s[i+1] == '-'):
			out = append(out, s[i:i+2])
			i += 2
		case strings.IndexByte("{}[]=;,", c) >= 0:
			out = append(out, string(c))
			i++
		default:
			j := i
			for j < len(s) && strings.IndexByte(" \t\r\n{}[]=;,\"", s[j]) < 0 && !(s[j] == '-' && j+1 < len(s) && j > i && (s[j+1] == '>' || s[j+1] == '-')) {
				j++
			}
			out = append(out, "="+s[i:j])
			i = j
		}
	}
	return out
}

// dotDoc is what a DOT document says: one text per node and edge statement.
func dotDoc(s string) (directed bool, nodes, edges []string, ok bool) {
	t := dotTokens(s)
	i := 0
	next := func() string {
		if i < len(t) {
			i++
			return t[i-1]
		}
		return ""
	}
	peek := func() string {
		if i < len(t) {
			return t[i]
		}
		return ""
	}
	if peek() == "=strict" {
		next()
	}
	switch next() {
	case "=digraph":
		directed = true
	case "=graph":
	default:
		return false, nil, nil, false
	}
	if strings.HasPrefix(peek(), "=") && len(peek()) > 1 {
		next()
	}
	if next() != "{" {
		return false, nil, nil, false
	}
	for {
		switch p := peek(); {
		case p == ";":
			next()
			continue
		case p == "}":
			next()
			return directed, nodes, edges, i == len(t)
		case !strings.HasPrefix(p, "=") || p == "=":
			return false, nil, nil, false
		}
		stmt := next()[1:]
		edge := false
		if p := peek(); p == "->" || p == "--" {
			if (next() == "->") != directed {
				return false, nil, nil, false
			}
			edge = true
			q := next()
			if !strings.HasPrefix(q, "=") {
				return false, nil, nil, false
			}
			stmt += " to " + q[1:]
		}
		var as []string
		if peek() == "[" {
			next()
			for peek() != "]" {
				if peek() == "" {
					return false, nil, nil, false
				}
				if peek() == "," || peek() == ";" {
					next()
					continue
				}
				k := next()
				if next() != "=" {
					return false, nil, nil, false
				}
				v := next()
				if len(k) < 1 || len(v) < 1 {
					return false, nil, nil, false
				}
				as = append(as, k[1:]+" is "+v[1:])
			}
			next()
		}
		sort.Strings(as)
		stmt += fmt.Sprint(as)
		if edge {
			edges = append(edges, stmt)
		} else {
			nodes = append(nodes, stmt)
		}
	}
}

var dotValues = []string{"x", "two words", `q"uote`, "1", "a-b/c", "node"}

func dotAttrs(n int, v string) (attrs.Attrs, string) {
	a := memattrs.New()
	var s []string
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("k%d", i)
		must(a.Set(ctx, k, v))
		s = append(s, k+" is "+v)
	}
	return a, fmt.Sprint(s)
}

func c12(directed bool) {
	g := newGraph(directed)
	ids := []string{"a", "b-2", "c/c c"}
	var nodes, edges []string
	in := make([]bool, 3)
	var dots []string
	for i, u := range ids {
		dots = append(dots, u)
		if !sym.Bool("node") {
			continue
		}
		in[i] = true
		e, _ := newEntity("t", u)
		k := (i + 1) % 3
		if i == 0 {
			k = sym.Choose("nattrs", 3)
		}
		a, s := dotAttrs(k, dotValues[i])
		opts := []graph.Option{graph.WithAttrs(a)}
		if i == 0 && sym.Bool("dotid") {
			dots[i] = "other id"
			opts = append(opts, graph.WithDOTID(dots[i]))
		}
		n, err := g.NewNode(ctx, e, opts...)
		must(err)
		must(g.AddNode(ctx, n))
		nodes = append(nodes, dots[i]+s)
	}
	linked := map[[2]int]bool{}
	for i := range ids {
		for j := range ids {
			if i == j || !in[i] || !in[j] || (!directed && i > j) || !sym.Bool("edge") {
				continue
			}
			k := 0
			if (i+j)%2 == 1 {
				k = 1
			}
			a, s := dotAttrs(k, dotValues[3+i])
			_, err := g.Link(ctx, uidOf(ids[i]), uidOf(ids[j]), graph.WithAttrs(a))
			must(err)
			linked[[2]int{i, j}] = true
			edges = append(edges, dots[i]+" to "+dots[j]+s)
		}
	}
	sort.Strings(nodes)
	sort.Strings(edges)
	before := state2(g)
	for k := 0; k < 2; k++ {
		s, err := g.DOT()
		sym.Assert(err == nil, "no-error")
		d, ns, es, ok := dotDoc(s)
		sym.Assert(ok, "parses")
		sym.Assert(d == directed, "kind")
		if !directed {
			// an undirected edge may be written in either direction
			for x, e := range es {
				for ij := range linked {
					if p := dots[ij[1]] + " to " + dots[ij[0]]; strings.HasPrefix(e, p+"[") {
						es[x] = dots[ij[0]] + " to " + dots[ij[1]] + e[len(p):]
					}
				}
			}
		}
		sort.Strings(ns)
		sort.Strings(es)
		sym.Assert(strings.Join(ns, "|") == strings.Join(nodes, "|"), "nodes")
		sym.Assert(strings.Join(es, "|") == strings.Join(edges, "|"), "edges")
	}
	sym.Assert(state2(g) == before, "unchanged")
	// the graph is still usable, by writers too
	e, _ := newEntity("t", "new")
	n, err := g.NewNode(ctx, e)
	must(err)
	sym.Assert(g.AddNode(ctx, n) == nil, "usable-add")
	if in[0] {
		_, err = g.Link(ctx, uidOf("a"), uidOf("new"))
		sym.Assert(err == nil, "usable-link")
		sym.Assert(g.Unlink(ctx, uidOf("a"), uidOf("new")) == nil, "usable-unlink")
	}
	sym.Assert(g.RemoveNode(ctx, uidOf("new")) == nil, "usable-remove")
	sym.Assert(state2(g) == before, "unchanged-after")
}

// state2 describes a graph with its node IDs, DOT IDs and edge UIDs.
func state2(g G) string {
	var s []string
	ns, err := g.Nodes(ctx)
	must(err)
	for _, n := range ns {
		x := n.(*memory.Node)
		s = append(s, fmt.Sprint("n", x.UID().String(), x.ID(), x.DOTID(), sorted(x.Attrs())))
	}
	es, err := g.Edges(ctx)
	must(err)
	for _, e := range es {
		s = append(s, "e"+edgeMark(e)+e.UID().String()+sorted(e.Attrs()))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func sorted(a attrs.Attrs) string {
	m, err := attrs.ToMap(ctx, a)
	must(err)
	var s []string
	for k, v := range m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// C12_Directed: any directed graph over three UIDs, with zero to two attributes on nodes and edges (some of whose
// values and IDs need quoting), exported twice; then writers run.
func C12_Directed() { c12(true) }

// C12_Undirected: the same for the undirected graph.
func C12_Undirected() { c12(false) }

// C12_AfterUpdates: an export, a node that is replaced or removed or an edge that is unlinked or changed, then a node or an edge that
// is added or a node that is changed, and another export.
func C12_AfterUpdates() {
	m := newModel(sym.Bool("directed"), names...)
	m.uidDOT = true
	g := newGraph(m.directed)
	for i := range m.uid {
		m.add(g, i, types[i])
	}
	for i := range m.uid {
		if j := (i + 1) % 3; sym.Bool("edge") {
			m.link(g, i, j, 1, types[4*i+j])
		}
	}
	m.exported(g, "first-")
	i := sym.Choose("slot", 3)
	switch sym.Choose("op", 4) {
	case 0:
		e, _ := newEntity("t", m.uid[i])
		n, err := memory.NewNode(50, e, graph.WithAttrs(attrsOf("k", "new")))
		must(err)
		must(g.AddNode(ctx, n, graph.WithUpsert()))
		m.node[i].attr, m.node[i].id = "new", 50
	case 1:
		m.removeAny(g, i)
	case 2:
		m.unlinkAny(g, i, (i+1)%3)
	case 3:
		if r := m.get(i, (i+1)%3); r != nil {
			e, err := g.Edge(ctx, uidOf(m.uid[i]), uidOf(m.uid[(i+1)%3]))
			must(err)
			must(e.Attrs().Set(ctx, "k", "now"))
			r.attr = "now"
		}
	}
	i = sym.Choose("slot", 3)
	j := (i + 2) % 3
	switch sym.Choose("then", 3) {
	case 0:
		if !m.has(i) {
			m.add(g, i, "again")
		}
	case 1:
		if m.has(i) && m.has(j) && m.get(i, j) == nil {
			m.link(g, i, j, 1, "again")
		}
	case 2:
		if m.has(i) {
			n, err := g.Node(ctx, uidOf(m.uid[i]))
			must(err)
			must(n.Attrs().Set(ctx, "k", "now"))
			m.node[i].attr = "now"
		}
	}
	m.exported(g, "")
}

// exported compares the document of a graph, whose DOT IDs are its UIDs, with the reference.
func (m *gmodel) exported(g G, where string) {
	var nodes, edges []string
	for i := range m.node {
		if m.has(i) {
			nodes = append(nodes, fmt.Sprintf("%s[k is %s]", m.uid[i], m.node[i].attr))
		}
		for j := range m.node {
			if e := m.get(i, j); e != nil && (m.directed || i < j) {
				edges = append(edges, fmt.Sprintf("%s to %s[k is %s]", m.uid[i], m.uid[j], e.attr))
			}
		}
	}
	s, err := g.DOT()
	sym.Assert(err == nil, where+"no-error")
	_, ns, es, ok := dotDoc(s)
	sym.Assert(ok, where+"parses")
	if !m.directed {
		for x, e := range es {
			if e[0] > e[5] {
				es[x] = e[5:6] + " to " + e[0:1] + e[6:]
			}
		}
	}
	sort.Strings(ns)
	sort.Strings(es)
	sym.Assert(strings.Join(ns, "|") == strings.Join(nodes, "|"), where+"nodes")
	sym.Assert(strings.Join(es, "|") == strings.Join(edges, "|"), where+"edges")
}

// C12_MapOrder: two linked nodes with two attributes each, under any map iteration order.
func C12_MapOrder() {
	directed := sym.Bool("directed")
	g := newGraph(directed)
	for _, u := range []string{"a", "b"} {
		e, _ := newEntity("t", u)
		a, _ := dotAttrs(2, u)
		n, err := g.NewNode(ctx, e, graph.WithAttrs(a))
		must(err)
		must(g.AddNode(ctx, n))
	}
	a, _ := dotAttrs(2, "e")
	_, err := g.Link(ctx, uidOf("a"), uidOf("b"), graph.WithAttrs(a))
	must(err)
	sym.MapOrder(sym.Bound(1, 2))
	s, err := g.DOT()
	sym.MapOrder(0)
	sym.Assert(err == nil, "no-error")
	_, ns, es, ok := dotDoc(s)
	sym.Assert(ok, "parses")
	sort.Strings(ns)
	sym.Assert(strings.Join(ns, "|") == "a[k0 is a k1 is a]|b[k0 is b k1 is b]", "nodes")
	sym.Assert(len(es) == 1, "edge-count")
	if len(es) == 1 {
		sym.Assert(es[0] == "a to b[k0 is e k1 is e]" || !directed && es[0] == "b to a[k0 is e k1 is e]", "edges")
	}
}

// C12_Values: two linked nodes, of which any one or the edge has two attributes with any keys and values out of a list
// with ordinary, empty and awkward ones; and a DOT ID out of such a list.
func C12_Values() {
	directed := sym.Bool("directed")
	g := newGraph(directed)
	vals := []string{"", "x", "two words", `q"uote`, "1", "-1.5", "a-b/c", "node", "<b>", "back\\slash", "new\nline", "é", "=", "a,b;c]"}
	keys := []string{"k", "two words", "node", "1", "", "label", "weight", `q"k`}
	where := sym.Choose("where", 3)
	var attr string
	a := memattrs.New()
	if sym.Bool("same-key") {
		v := vals[sym.Choose("value", len(vals))]
		must(a.Set(ctx, "k", "old"))
		must(a.Set(ctx, "k", v))
		attr = "[k is " + v + "]"
	} else {
		v, w := vals[sym.Choose("value", len(vals))], "x"
		k, l := "k", keys[1+sym.Choose("key", len(keys)-1)]
		if sym.Bool("empty-too") {
			w = ""
		}
		if sym.Bool("swap") {
			k, l = l, k
		}
		must(a.Set(ctx, k, v))
		must(a.Set(ctx, l, w))
		as := []string{k + " is " + v, l + " is " + w}
		sort.Strings(as)
		attr = fmt.Sprint(as)
	}
	want := []string{"[]", "[]", "[]"}
	want[where] = attr
	as := []attrs.Attrs{memattrs.New(), memattrs.New(), memattrs.New()}
	as[where] = a
	for i, u := range []string{"a", "b"} {
		e, _ := newEntity("t", u)
		n, err := g.NewNode(ctx, e, graph.WithAttrs(as[i]))
		must(err)
		must(g.AddNode(ctx, n))
	}
	_, err := g.Link(ctx, uidOf("a"), uidOf("b"), graph.WithAttrs(as[2]))
	must(err)
	s, err := g.DOT()
	sym.Assert(err == nil, "no-error")
	_, ns, es, ok := dotDoc(s)
	sym.Assert(ok, "parses")
	sort.Strings(ns)
	sym.Assert(strings.Join(ns, "|") == "a"+want[0]+"|b"+want[1], "nodes")
	sym.Assert(len(es) == 1 && (es[0] == "a to b"+want[2] || !directed && es[0] == "b to a"+want[2]), "edges")
}

// C12_IDs: two linked nodes whose DOT IDs are any two distinct ones out of a list with awkward ones.
func C12_IDs() {
	directed := sym.Bool("directed")
	g := newGraph(directed)
	ids := []string{"x", "two words", `q"uote`, "1", "-1.5", "a-b/c", "node", "graph", "back\\slash", "new\nline", "é", "=", "a->b", "a--b", "{", "//x"}
	i := sym.Choose("id", len(ids))
	j := (i + 1 + sym.Choose("other", len(ids)-1)) % len(ids)
	for k, d := range []string{ids[i], ids[j]} {
		e, _ := newEntity("t", string(rune('a'+k)))
		n, err := g.NewNode(ctx, e, graph.WithDOTID(d))
		must(err)
		must(g.AddNode(ctx, n))
	}
	_, err := g.Link(ctx, uidOf("a"), uidOf("b"))
	must(err)
	s, err := g.DOT()
	sym.Assert(err == nil, "no-error")
	_, ns, es, ok := dotDoc(s)
	sym.Assert(ok, "parses")
	sort.Strings(ns)
	want := []string{ids[i] + "[]", ids[j] + "[]"}
	sort.Strings(want)
	sym.Assert(strings.Join(ns, "|") == strings.Join(want, "|"), "nodes")
	sym.Assert(len(es) == 1 && (es[0] == ids[i]+" to "+ids[j]+"[]" || !directed && es[0] == ids[j]+" to "+ids[i]+"[]"), "edges")
}
