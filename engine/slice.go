package main

import (
	"crypto/sha256"
	"encoding/binary"
)

// A query needs only the constraints that share variables, directly or through others, with the
// term asked about: the current model satisfies the rest, which has no variable in common with them.
// Path keeps the classes of variables in a union-find; the worker remembers the verdict of every
// slice it has had solved.

type verdict struct {
	r Result
	m Model
}

// varsOf lists the variables of t.
func (w *Worker) varsOf(t *Term) []*Term {
	switch t.op {
	case OTrue, OFalse, OConst:
		return nil
	}
	if vs, ok := w.varMemo[t]; ok {
		return vs
	}
	var vs []*Term
	if t.op == OVar {
		vs = []*Term{t}
	} else {
		for i := 0; i < int(t.n); i++ {
			sub := w.varsOf(t.a[i])
			if len(vs) == 0 {
				vs = sub
				continue
			}
			if len(sub) == 0 || &vs[0] == &sub[0] {
				continue
			}
			seen := make(map[*Term]bool, len(vs))
			for _, v := range vs {
				seen[v] = true
			}
			fresh := false
			for _, v := range sub {
				if !seen[v] {
					if !fresh {
						vs = append(make([]*Term, 0, len(vs)+len(sub)), vs...)
						fresh = true
					}
					vs = append(vs, v)
				}
			}
		}
	}
	w.varMemo[t] = vs
	return vs
}

func (p *Path) find(v *Term) *Term {
	for {
		u, ok := p.class[v]
		if !ok {
			return v
		}
		if w, ok := p.class[u]; ok {
			p.class[v] = w
		}
		v = u
	}
}

// joined notes that the variables of t depend on each other.
func (p *Path) joined(t *Term) {
	vs := p.w.varsOf(t)
	for i := 1; i < len(vs); i++ {
		a, b := p.find(vs[0]), p.find(vs[i])
		if a != b {
			p.class[b] = a
		}
	}
}

// slice gives the constraints of the path that matter for t, and their variables and those of t.
func (p *Path) slice(t *Term) ([]*Term, []*Term) {
	roots := map[*Term]bool{}
	vars := append([]*Term{}, p.w.varsOf(t)...)
	seen := make(map[*Term]bool, len(vars))
	for _, v := range vars {
		roots[p.find(v)] = true
		seen[v] = true
	}
	var pc []*Term
	for _, c := range p.pc {
		vs := p.w.varsOf(c)
		if len(vs) > 0 && !roots[p.find(vs[0])] {
			continue
		}
		pc = append(pc, c)
		for _, v := range vs {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	return pc, vars
}

func sliceKey(pc []*Term, extra *Term) string {
	b := make([]byte, 0, 4*len(pc)+4)
	for _, t := range pc {
		b = binary.LittleEndian.AppendUint32(b, t.id)
	}
	b = binary.LittleEndian.AppendUint32(b, extra.id)
	if len(b) > 64 { // long conditions by their hash
		h := sha256.Sum256(b)
		return string(h[:])
	}
	return string(b)
}

// solve decides the path condition with extra. The model is one of all variables of the path.
func (p *Path) solve(extra *Term) (Result, Model) {
	p.solves++
	if p.solves > maxSolves {
		p.overLong()
	}
	pc, vars := p.slice(extra)
	key := sliceKey(pc, extra)
	v, ok := p.w.verdicts[key]
	if ok {
		p.w.stats.cached++
	} else {
		v.r, v.m = p.w.check(pc, extra, vars)
		if v.r != Unknown {
			p.w.verdicts[key] = v
			if p.w.e.crossName != "" {
				p.w.stats.asked++
				if n := p.w.stats.asked; n <= p.e.crossFirst || n%p.e.crossEvery == 0 {
					p.w.crossCheck(p, pc, extra, v.r)
				}
			}
		}
	}
	if v.r != Sat {
		return v.r, nil
	}
	m := make(Model, len(p.model)+len(v.m))
	for k, x := range p.model {
		m[k] = x
	}
	for k, x := range v.m {
		m[k] = x
	}
	return Sat, m
}
