package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms are hash-consed SMT terms. Sort: w==0 is Bool, otherwise a bit-vector of w bits.
// Floats are bit-vectors (their IEEE bits); the F* operators interpret them.

type Op uint8

const (
	OVar Op = iota
	OConst
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OEq // any sort
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OExtract // low w bits, c = low index
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OS2F // signed bv -> float bits (w of result)
	OU2F
	OF2S    // float -> signed bv
	OF2F    // float32<->float64
	OFRound // to integral, c is the rounding mode
	OFSqrt
)

type Term struct {
	op   Op
	w    uint8
	id   uint32
	c    uint64
	name string
	a    [3]*Term
	n    uint8
	h    uint64 // structural hash, stable across contexts
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	name       string
	a0, a1, a2 uint32
}

type Ctx struct {
	tab  map[tkey]*Term
	next uint32
	T, F *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, next: 1}
	c.T = c.mk(OTrue, 0, 0, "")
	c.F = c.mk(OFalse, 0, 0, "")
	return c
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (c *Ctx) mk(op Op, w uint8, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, w: w, c: k, name: name}
	for i, a := range args {
		switch i {
		case 0:
			key.a0 = a.id
		case 1:
			key.a1 = a.id
		case 2:
			key.a2 = a.id
		}
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: k, name: name, id: c.next, n: uint8(len(args))}
	c.next++
	h := mix(mix(mix(0x1234567, uint64(op)), uint64(w)), k)
	for i := 0; i < len(name); i++ {
		h = mix(h, uint64(name[i]))
	}
	for i, a := range args {
		t.a[i] = a
		h = mix(h, a.h)
	}
	t.h = h
	c.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Var(name string, w uint8) *Term { return c.mk(OVar, w, 0, name) }
func (c *Ctx) BV(v uint64, w uint8) *Term     { return c.mk(OConst, w, v&mask(w), "") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (t *Term) isConst() bool { return t.op == OConst || t.op == OTrue || t.op == OFalse }

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return a.a[0]
	}
	return c.mk(ONot, 0, 0, "", a)
}

func (c *Ctx) And(xs ...*Term) *Term {
	r := c.T
	for i := len(xs) - 1; i >= 0; i-- {
		r = c.and2(xs[i], r)
	}
	return r
}
func (c *Ctx) and2(a, b *Term) *Term {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return c.F
	}
	return c.mk(OAnd, 0, 0, "", a, b)
}
func (c *Ctx) Or(xs ...*Term) *Term {
	r := c.F
	for i := len(xs) - 1; i >= 0; i-- {
		r = c.or2(xs[i], r)
	}
	return r
}
func (c *Ctx) or2(a, b *Term) *Term {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return c.T
	}
	return c.mk(OOr, 0, 0, "", a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.F // hash-consed and different
	}
	if a.w == 0 {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.op == OIte && (a.a[1].isConst() || a.a[2].isConst()) {
			return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
		}
		if a.op == OZExt {
			in := a.a[0]
			if b.c > mask(in.w) {
				return c.F
			}
			return c.Eq(in, c.BV(b.c, in.w))
		}
		if a.op == OAdd && a.a[1].op == OConst {
			return c.Eq(a.a[0], c.BV(b.c-a.a[1].c, a.w))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", a, b)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.T {
		return a
	}
	if k == c.F {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == c.T && b == c.F {
			return k
		}
		if a == c.F && b == c.T {
			return c.Not(k)
		}
		if a == c.T {
			return c.Or(k, b)
		}
		if a == c.F {
			return c.And(c.Not(k), b)
		}
		if b == c.F {
			return c.And(k, a)
		}
		if b == c.T {
			return c.Or(c.Not(k), a)
		}
	}
	return c.mk(OIte, a.w, 0, "", k, a, b)
}

func f64(b uint64) float64 { return math.Float64frombits(b) }

func evalOp(op Op, w uint8, k uint64, a []uint64, aw []uint8) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	fl := func(i int) float64 {
		if aw[i] == 32 {
			return float64(math.Float32frombits(uint32(a[i])))
		}
		return f64(a[i])
	}
	flo := func(f float64) uint64 {
		if math.IsNaN(f) {
			return nanBits(w)
		}
		if w == 32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	m := mask(w)
	switch op {
	case ONot:
		return 1 - a[0]
	case OAnd:
		return a[0] & a[1]
	case OOr:
		return a[0] | a[1]
	case OEq:
		return b2u(a[0] == a[1])
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OAdd:
		return (a[0] + a[1]) & m
	case OSub:
		return (a[0] - a[1]) & m
	case OMul:
		return (a[0] * a[1]) & m
	case OUDiv:
		if a[1] == 0 {
			return m
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OSDiv:
		x, y := sext(a[0], w), sext(a[1], w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a[0], w), sext(a[1], w)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a[0] & a[1]
	case OBOr:
		return a[0] | a[1]
	case OBXor:
		return a[0] ^ a[1]
	case OShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return (a[0] << a[1]) & m
	case OLShr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OAShr:
		x := sext(a[0], w)
		if a[1] >= uint64(w) {
			a[1] = uint64(w) - 1
		}
		return uint64(x>>a[1]) & m
	case OBNot:
		return ^a[0] & m
	case ONeg:
		return -a[0] & m
	case OUlt:
		return b2u(a[0] < a[1])
	case OUle:
		return b2u(a[0] <= a[1])
	case OSlt:
		return b2u(sext(a[0], aw[0]) < sext(a[1], aw[1]))
	case OSle:
		return b2u(sext(a[0], aw[0]) <= sext(a[1], aw[1]))
	case OExtract:
		return (a[0] >> k) & m
	case OZExt:
		return a[0]
	case OSExt:
		return uint64(sext(a[0], aw[0])) & m
	case OFAdd:
		return flo(fl(0) + fl(1))
	case OFSub:
		return flo(fl(0) - fl(1))
	case OFMul:
		return flo(fl(0) * fl(1))
	case OFDiv:
		return flo(fl(0) / fl(1))
	case OFNeg:
		return a[0] ^ (1 << (w - 1))
	case OFEq:
		return b2u(fl(0) == fl(1))
	case OFLt:
		return b2u(fl(0) < fl(1))
	case OFLe:
		return b2u(fl(0) <= fl(1))
	case OS2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(a[0], aw[0]))))
		}
		return flo(float64(sext(a[0], aw[0])))
	case OU2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(a[0])))
		}
		return flo(float64(a[0]))
	case OF2S:
		if f := fl(0); f >= -(1<<63) && f < 1<<63 {
			return uint64(int64(f)) & m
		}
		return 1 << 63 & m
	case OFRound:
		return flo(roundModes[k].f(fl(0)))
	case OFSqrt:
		return flo(math.Sqrt(fl(0)))
	case OF2F:
		return flo(fl(0))
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

// Mk builds an operator term with folding. w is the result width (0 for predicates).
func (c *Ctx) Mk(op Op, w uint8, k uint64, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if !a.isConst() {
			allc = false
		}
	}
	if allc {
		var av [3]uint64
		var aw [3]uint8
		for i, a := range args {
			av[i] = a.constVal()
			aw[i] = a.w
		}
		r := evalOp(op, w, k, av[:len(args)], aw[:len(args)])
		if w == 0 {
			return c.Bool(r != 0)
		}
		return c.BV(r, w)
	}
	switch op {
	case OAdd:
		if args[0].op == OConst {
			args[0], args[1] = args[1], args[0]
		}
		if args[1].op == OConst {
			if args[1].c == 0 {
				return args[0]
			}
			if args[0].op == OAdd && args[0].a[1].op == OConst {
				return c.Mk(OAdd, w, 0, args[0].a[0], c.BV(args[0].a[1].c+args[1].c, w))
			}
		}
	case OSub:
		if args[0] == args[1] {
			return c.BV(0, w)
		}
		if args[1].op == OConst {
			return c.Mk(OAdd, w, 0, args[0], c.BV(-args[1].c, w))
		}
	case OUlt, OSlt:
		if args[0] == args[1] {
			return c.F
		}
	case OUle, OSle:
		if args[0] == args[1] {
			return c.T
		}
	case OZExt, OSExt:
		if args[0].w == w {
			return args[0]
		}
	case OExtract:
		if k == 0 && args[0].w == w {
			return args[0]
		}
		if (args[0].op == OZExt || args[0].op == OSExt) && k == 0 && args[0].a[0].w >= w {
			return c.Mk(OExtract, w, 0, args[0].a[0])
		}
		if args[0].op == OZExt && k == 0 {
			return c.Mk(OZExt, w, 0, args[0].a[0])
		}
	}
	return c.mk(op, w, k, "", args...)
}

func (t *Term) constVal() uint64 {
	if t.op == OTrue {
		return 1
	}
	if t.op == OFalse {
		return 0
	}
	return t.c
}

// Model maps variable name to value; missing variables are 0.
type Model map[string]uint64

type evaluator struct {
	m     Model
	cache map[*Term]uint64
}

func newEvaluator(m Model) *evaluator { return &evaluator{m: m, cache: map[*Term]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar:
		return e.m[t.name]
	}
	if v, ok := e.cache[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OAnd:
		r = e.eval(t.a[0])
		if r != 0 {
			r = e.eval(t.a[1])
		}
	case OOr:
		r = e.eval(t.a[0])
		if r == 0 {
			r = e.eval(t.a[1])
		}
	case OIte:
		if e.eval(t.a[0]) != 0 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	default:
		var av [3]uint64
		var aw [3]uint8
		for i := 0; i < int(t.n); i++ {
			av[i] = e.eval(t.a[i])
			aw[i] = t.a[i].w
		}
		r = evalOp(t.op, t.w, t.c, av[:t.n], aw[:t.n])
	}
	e.cache[t] = r
	return r
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBNot: "bvnot", ONeg: "bvneg",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// nanBits is the NaN that operations make.
func nanBits(w uint8) uint64 {
	if w == 32 {
		return 0x7fc00000
	}
	return 0x7ff8000000000001
}

var roundModes = []struct {
	name string
	f    func(float64) float64
}{{"RTN", math.Floor}, {"RTP", math.Ceil}, {"RTZ", math.Trunc}, {"RNE", math.RoundToEven}, {"RNA", math.Round}}

var fpNames = map[Op]string{OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFSqrt: "fp.sqrt RNE"}

func fpSort(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

// head renders one node given the rendered arguments.
func (t *Term) render(arg func(*Term) string) string {
	fp := func(i int) string { return fmt.Sprintf("(%s %s)", fpSort(t.a[i].w), arg(t.a[i])) }
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.c)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OVar:
		return "|" + t.name + "|"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.c)+int(t.w)-1, t.c, arg(t.a[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, arg(t.a[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, arg(t.a[0]))
	case OFEq:
		return fmt.Sprintf("(fp.eq %s %s)", fp(0), fp(1))
	case OFLt:
		return fmt.Sprintf("(fp.lt %s %s)", fp(0), fp(1))
	case OFLe:
		return fmt.Sprintf("(fp.leq %s %s)", fp(0), fp(1))
	case OFNeg:
		return fmt.Sprintf("(bvxor %s %s)", arg(t.a[0]), "(_ bv"+fmt.Sprint(uint64(1)<<(t.w-1))+" "+fmt.Sprint(t.w)+")")
	}
	// bits are those of a float, of one NaN if it is one
	fbits := func(r string) string {
		return fmt.Sprintf("(let ((r %s)) (ite (fp.isNaN r) (_ bv%d %d) (fp.to_ieee_bv r)))", r, nanBits(t.w), t.w)
	}
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt:
		r := "(" + fpNames[t.op]
		for i := 0; i < int(t.n); i++ {
			r += " " + fp(i)
		}
		return fbits(r + ")")
	case OFRound:
		return fbits(fmt.Sprintf("(fp.roundToIntegral %s %s)", roundModes[t.c].name, fp(0)))
	case OF2F:
		return fbits(fmt.Sprintf("(%s RNE %s)", fpSort(t.w), fp(0)))
	case OS2F:
		return fbits(fmt.Sprintf("(%s RNE %s)", fpSort(t.w), arg(t.a[0])))
	case OU2F:
		return fbits(fmt.Sprintf("(%s RNE %s)", strings.Replace(fpSort(t.w), "to_fp", "to_fp_unsigned", 1), arg(t.a[0])))
	case OF2S:
		lo, hi := uint64(0xc3e0000000000000), uint64(0x43e0000000000000)
		if t.a[0].w == 32 {
			lo, hi = 0xdf000000, 0x5f000000
		}
		c := func(b uint64) string { return fmt.Sprintf("(%s (_ bv%d %d))", fpSort(t.a[0].w), b, t.a[0].w) }
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) (_ bv9223372036854775808 64))", c(lo), fp(0), fp(0), c(hi), fp(0))
	}
	n, ok := opNames[t.op]
	if !ok {
		panic(unsupported("solver operator %d (float arithmetic on symbolic values)", t.op))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(n)
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(arg(t.a[i]))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	return t.render(func(x *Term) string { return x.String() })
}

var _ = bits.Len
