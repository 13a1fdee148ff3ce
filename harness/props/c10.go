package props

import (
	"strings"

	"nsverif/sym"
)

// perms calls f with every order of n things.
func perms(n int, f func(order []int)) {
	var rec func(done []int, left []int)
	rec = func(done, left []int) {
		if len(left) == 0 {
			f(done)
			return
		}
		for i := range left {
			rest := append(append([]int{}, left[:i]...), left[i+1:]...)
			rec(append(append([]int{}, done...), left[i]), rest)
		}
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	rec(nil, all)
}

// merges calls f with every interleaving of threads with the given numbers of operations.
func merges(lens []int, f func(order []int)) {
	left := append([]int{}, lens...)
	total := 0
	for _, n := range lens {
		total += n
	}
	var rec func(done []int)
	rec = func(done []int) {
		if len(done) == total {
			f(done)
			return
		}
		for t := range left {
			if left[t] > 0 {
				left[t]--
				rec(append(append([]int{}, done...), t))
				left[t]++
			}
		}
	}
	rec(nil)
}

// linearizable runs the threads concurrently and asserts that results and final state match a sequential order.
func linearizable(mk func() G, threads [][]gop, preempt int) {
	g := mk()
	res := make([][]string, len(threads))
	var fs []func()
	var lens []int
	for t := range threads {
		t := t
		lens = append(lens, len(threads[t]))
		fs = append(fs, func() {
			for _, o := range threads[t] {
				res[t] = append(res[t], o.do(g))
			}
		})
	}
	sym.Preempt(preempt)
	sym.Par(fs...)
	sym.Preempt(0)
	var flat []string
	for _, r := range res {
		flat = append(flat, strings.Join(r, "/"))
	}
	got := strings.Join(flat, "//") + "=>" + state(g)
	ok := false
	merges(lens, func(order []int) {
		if ok {
			return
		}
		h := mk()
		next := make([]int, len(threads))
		seq := make([][]string, len(threads))
		for _, t := range order {
			seq[t] = append(seq[t], threads[t][next[t]].do(h))
			next[t]++
		}
		var fl []string
		for _, r := range seq {
			fl = append(fl, strings.Join(r, "/"))
		}
		if strings.Join(fl, "//")+"=>"+state(h) == got {
			ok = true
		}
	})
	sym.Assert(ok, "matches-a-sequential-order")
}

var updates = []int{opAdd, opUpsert, opRemove, opLink, opUnlink}

// C10_Pairs: two goroutines, each with any update of any of two UIDs, on a graph where each node and the edge may be
// there, directed or not; at most 2 (thorough: 4) preemptions. Results and final state match a sequential order.
func C10_Pairs() {
	directed := sym.Bool("directed")
	nodes := sym.Choose("nodes", 4)
	edges := 0
	if nodes == 3 {
		edges = sym.Choose("edge", 2)
	}
	x, y := pickOp(updates, 0, 2), pickOp(updates, 1, 2)
	linearizable(func() G { return start(directed, nodes, edges) }, [][]gop{{x}, {y}}, sym.Bound(2, 4))
}

// C10_Triples: three goroutines with any update about the pair a, b; at most 1 (thorough: 2) preemptions.
func C10_Triples() {
	nodes := 1 + 2*sym.Choose("second", 2)
	edges := 0
	if nodes == 3 {
		edges = sym.Choose("edge", 2)
	}
	kinds := updates
	x, y, z := pickOp(kinds, 0, 1), pickOp(kinds, 1, 1), pickOp(kinds, 2, 1)
	linearizable(func() G { return start(false, nodes, edges) }, [][]gop{{x}, {y}, {z}}, sym.Bound(1, 2))
}

// C10_ReadWrite: an update and then a query in one goroutine, any update in another; every query also matches.
func C10_ReadWrite() {
	queries := []int{opNode, opNodes, opEdge, opEdges, opFrom, opSub}
	x, q := pickOp(updates, 0, 1), pickOp(queries, 1, 1)
	y := pickOp(updates, 2, 1)
	linearizable(func() G { return start(true, 3, 1) }, [][]gop{{x, q}, {y}}, sym.Bound(2, 3))
}

// C10_Reader: any query in one goroutine while another makes two updates of three nodes.
func C10_Reader() {
	queries := []int{opNode, opNodes, opEdge, opEdges, opFrom, opSub}
	q := pickOp(queries, 0, 1)
	x, y := pickOp(updates, 1, 2), pickOp(updates, 2, 1)
	linearizable(func() G { return start(false, 7, 3) }, [][]gop{{q}, {x, y}}, sym.Bound(1, 2))
}
