package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms: hash-consed DAG of integer and boolean expressions.

type Op uint8

const (
	OConst Op = iota // integer constant k
	OVar             // integer variable, range lo..hi
	OAdd             // sum of args
	OMul             // product of args
	OPow             // args[0]^n
	OMod             // args[0] mod k   (k>0, result in [0,k))
	ODiv             // floor(args[0] / k)
	OExt             // floor(args[0]/2^n) mod 2^w   (args[0] >= 0)
	OCat             // sum args[i] * 2^(offset_i), widths in ws, LSB first
	OIte             // args[0] bool
	OUF              // uninterpreted function name(args), integer valued
	OPX              // x coordinate of point lc
	OPY              // y coordinate of point lc
	OInv             // multiplicative inverse of args[0] modulo k (0 if args[0]=0 mod k)
	OBool            // boolean constant n!=0
	OBVar            // boolean variable / predicate name(args)
	OEq
	OLe
	OLt
	ONot
	OAnd
	OOr
)

type Term struct {
	op     Op
	args   []*Term
	k      *big.Int
	name   string
	n      int // pow exponent, ext low bit, bool value
	w      int // ext width
	ws     []int
	lc     *LC
	lo, hi *big.Int // inclusive range when known
	id     int      // 0 = not interned yet
	isBool bool
}

var (
	internTab = map[string]*Term{}
	termByID  []*Term
)

var (
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
	rMod, _  = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	pMod, _  = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
	two256   = new(big.Int).Lsh(big1, 256)
	rMinus1  = new(big.Int).Sub(rMod, big1)
	pMinus1  = new(big.Int).Sub(pMod, big1)
	trueT    *Term
	falseT   *Term
	byteHi   = big.NewInt(255)
	two256m1 = new(big.Int).Sub(two256, big1)
)

func init() {
	trueT = intern(&Term{op: OBool, n: 1, isBool: true})
	falseT = intern(&Term{op: OBool, n: 0, isBool: true})
}

var varRange = map[string][2]*big.Int{}

func intern(t *Term) *Term {
	if t.id != 0 {
		return t
	}
	for i, a := range t.args {
		t.args[i] = intern(a)
	}
	var sb strings.Builder
	sb.Grow(32 + 6*len(t.args))
	fmt.Fprintf(&sb, "%d|", t.op)
	for _, a := range t.args {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	if t.k != nil {
		sb.WriteString("k")
		sb.WriteString(t.k.Text(62))
	}
	if t.name != "" {
		sb.WriteString("|")
		sb.WriteString(t.name)
	}
	if t.n != 0 || t.w != 0 {
		fmt.Fprintf(&sb, "|%d|%d", t.n, t.w)
	}
	if t.ws != nil {
		fmt.Fprintf(&sb, "|%v", t.ws)
	}
	if t.lc != nil {
		fmt.Fprintf(&sb, "|L%d", t.lc.id)
	}
	key := sb.String()
	if o, ok := internTab[key]; ok {
		return o
	}
	t.id = len(termByID) + 1
	termByID = append(termByID, t)
	internTab[key] = t
	return t
}

func C(k *big.Int) *Term {
	return intern(&Term{op: OConst, k: k, lo: k, hi: k})
}
func CI(k int64) *Term { return C(big.NewInt(k)) }

var two64 = new(big.Int).Lsh(big1, 64)

// Var is the variable of this name and range; the same name with another
// range is another variable.
func Var(name string, lo, hi *big.Int) *Term {
	if b, ok := varRange[name]; ok && (b[0].Cmp(lo) != 0 || b[1].Cmp(hi) != 0) {
		return Var(name+"~", lo, hi)
	}
	varRange[name] = [2]*big.Int{lo, hi}
	return intern(&Term{op: OVar, name: name, lo: lo, hi: hi})
}
func FrVar(name string) *Term   { return Var(name, big0, rMinus1) }
func ByteVar(name string) *Term { return Var(name, big0, byteHi) }
func BoolVar(name string) *Term { return intern(&Term{op: OBVar, name: name, isBool: true}) }
func Pred(name string, args ...*Term) *Term {
	return intern(&Term{op: OBVar, name: name, args: args, isBool: true})
}
func UF(name string, lo, hi *big.Int, args ...*Term) *Term {
	return intern(&Term{op: OUF, name: name, args: append([]*Term(nil), args...), lo: lo, hi: hi})
}

func (t *Term) isConst() bool { return t.op == OConst }

func addRange(a, b *Term) (lo, hi *big.Int) {
	if a.lo != nil && b.lo != nil {
		lo = new(big.Int).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		hi = new(big.Int).Add(a.hi, b.hi)
	}
	return
}

// Add builds a sum; constants are folded, nested sums flattened one level.
func Add(xs ...*Term) *Term {
	k := new(big.Int)
	var args []*Term
	var push func(x *Term)
	push = func(x *Term) {
		switch {
		case x.op == OConst:
			k.Add(k, x.k)
		case x.op == OAdd:
			for _, a := range x.args {
				push(a)
			}
		default:
			args = append(args, intern(x))
		}
	}
	for _, x := range xs {
		push(x)
	}
	if len(args) == 0 {
		return C(k)
	}
	if len(args) > 1 {
		args = combineLinear(args)
		if len(args) == 0 {
			return C(k)
		}
	}
	if k.Sign() != 0 {
		args = append(args, C(k))
	}
	if len(args) == 1 {
		return args[0]
	}
	lo, hi := args[0].lo, args[0].hi
	for _, a := range args[1:] {
		l, h := addRange(&Term{lo: lo, hi: hi}, a)
		lo, hi = l, h
	}
	return intern(&Term{op: OAdd, args: args, lo: lo, hi: hi})
}

// combineLinear merges c1*x + c2*x.
func combineLinear(args []*Term) []*Term {
	type ent struct {
		base *Term
		c    *big.Int
	}
	var order []*ent
	idx := map[*Term]*ent{}
	merged := false
	for _, a := range args {
		c := big1
		b := a
		if a.op == OMul && a.args[len(a.args)-1].op == OConst {
			c = a.args[len(a.args)-1].k
			if len(a.args) == 2 {
				b = a.args[0]
			} else {
				b = Mul(a.args[:len(a.args)-1]...)
			}
		}
		if e, ok := idx[b]; ok {
			e.c = new(big.Int).Add(e.c, c)
			merged = true
			continue
		}
		e := &ent{b, c}
		idx[b] = e
		order = append(order, e)
	}
	// c*x[lo..] + c*2^w*x[lo+w..] is one slice of x
	byX := map[*Term][]*ent{}
	for _, e := range order {
		if e.base.op == OExt && e.c.Sign() != 0 {
			byX[e.base.args[0]] = append(byX[e.base.args[0]], e)
		}
	}
	var joined []*ent
	for _, e := range order {
		if e.base.op != OExt {
			continue
		}
		x := e.base.args[0]
		es := byX[x]
		if len(es) < 2 {
			continue
		}
		delete(byX, x)
		sort.SliceStable(es, func(i, j int) bool { return es[i].base.n < es[j].base.n })
		for i := 0; i < len(es); {
			j, w := i, es[i].base.w
			for j+1 < len(es) && es[j+1].base.n == es[i].base.n+w && es[j+1].c.Cmp(new(big.Int).Lsh(es[i].c, uint(w))) == 0 {
				j++
				w += es[j].base.w
			}
			if j > i {
				joined = append(joined, &ent{Ext(x, es[i].base.n, w), new(big.Int).Set(es[i].c)})
				for k := i; k <= j; k++ {
					es[k].c = new(big.Int)
				}
				merged = true
			}
			i = j + 1
		}
	}
	if !merged {
		sortTerms(args)
		return args
	}
	var out []*Term
	if len(joined) > 0 {
		var all []*Term
		for _, e := range append(order, joined...) {
			if e.c.Sign() != 0 {
				all = append(all, Mul(e.base, C(e.c)))
			}
		}
		if len(all) < 2 {
			return all
		}
		return combineLinear(all)
	}
	for _, e := range order {
		if e.c.Sign() == 0 {
			continue
		}
		if e.c.Cmp(big1) == 0 {
			out = append(out, e.base)
		} else {
			out = append(out, Mul(e.base, C(e.c)))
		}
	}
	sortTerms(out)
	return out
}

func sortTerms(a []*Term) {
	sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
}

func Neg(a *Term) *Term    { return Mul(a, CI(-1)) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Pow(a *Term, n int) *Term {
	switch {
	case n == 0:
		return CI(1)
	case n == 1:
		return a
	case a.op == OConst && n < 4096:
		return C(new(big.Int).Exp(a.k, big.NewInt(int64(n)), nil))
	case a.op == OPow:
		return &Term{op: OPow, args: a.args, n: a.n * n}
	}
	t := &Term{op: OPow, args: []*Term{a}, n: n}
	if a.lo != nil && a.lo.Sign() >= 0 {
		t.lo = big0
	}
	return t
}

func powBase(t *Term) (*Term, int) {
	if t.op == OPow {
		return t.args[0], t.n
	}
	return t, 1
}

// Mul builds a product; constants folded and placed last, powers collected.
func Mul(xs ...*Term) *Term {
	if len(xs) == 2 { // fast path for power chains
		b0, n0 := powBase(xs[0])
		b1, n1 := powBase(xs[1])
		if b0 == b1 && b0.op != OConst && b0.op != OMul {
			return Pow(b0, n0+n1)
		}
	}
	k := new(big.Int).Set(big1)
	type ent struct {
		b *Term
		n int
	}
	var ents []ent
	var push func(x *Term)
	push = func(x *Term) {
		switch x.op {
		case OConst:
			k.Mul(k, x.k)
		case OMul:
			for _, a := range x.args {
				push(a)
			}
		default:
			b, n := powBase(x)
			b = intern(b)
			for i := range ents {
				if ents[i].b == b {
					ents[i].n += n
					return
				}
			}
			ents = append(ents, ent{b, n})
		}
	}
	for _, x := range xs {
		push(x)
	}
	if k.Sign() == 0 {
		return CI(0)
	}
	if len(ents) == 0 {
		return C(k)
	}
	// distribute a constant over a sum: keeps linear forms flat
	if len(ents) == 1 && ents[0].n == 1 && ents[0].b.op == OAdd && k.Cmp(big1) != 0 {
		var ys []*Term
		for _, a := range ents[0].b.args {
			ys = append(ys, Mul(a, C(k)))
		}
		return Add(ys...)
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].b.id < ents[j].b.id })
	var args []*Term
	for _, e := range ents {
		args = append(args, intern(Pow(e.b, e.n)))
	}
	if k.Cmp(big1) != 0 {
		args = append(args, C(k))
	}
	if len(args) == 1 {
		return args[0]
	}
	t := &Term{op: OMul, args: args}
	t.lo, t.hi = mulRange(args)
	return intern(t)
}

func mulRange(args []*Term) (lo, hi *big.Int) {
	lo, hi = args[0].lo, args[0].hi
	for _, a := range args[1:] {
		if lo == nil || hi == nil || a.lo == nil || a.hi == nil {
			// non-negative * non-negative stays non-negative
			if lo != nil && lo.Sign() >= 0 && a.lo != nil && a.lo.Sign() >= 0 {
				lo, hi = big0, nil
				continue
			}
			return nil, nil
		}
		var c [4]*big.Int
		c[0] = new(big.Int).Mul(lo, a.lo)
		c[1] = new(big.Int).Mul(lo, a.hi)
		c[2] = new(big.Int).Mul(hi, a.lo)
		c[3] = new(big.Int).Mul(hi, a.hi)
		lo, hi = c[0], c[0]
		for _, x := range c[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
	}
	return
}

// Mod builds x mod m (Euclidean, m > 0).
func Mod(x *Term, m *big.Int) *Term {
	if x.op == OConst {
		return C(new(big.Int).Mod(x.k, m))
	}
	if x.op == OPow {
		b, n := x.args[0], x.n
		if b.op == OMod && b.k.Cmp(m) == 0 {
			return &Term{op: OMod, args: []*Term{Pow(b.args[0], n)}, k: m, lo: big0, hi: new(big.Int).Sub(m, big1)}
		}
		return &Term{op: OMod, args: []*Term{x}, k: m, lo: big0, hi: new(big.Int).Sub(m, big1)}
	}
	for i := 0; i < 3; i++ { // constants that meet in a product may need another pass
		y := stripMod(x, m, 0)
		if y == x {
			break
		}
		x = y
	}
	if x.op == OConst {
		return C(new(big.Int).Mod(x.k, m))
	}
	if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(m) < 0 {
		return x
	}
	if x.op == OIte {
		return Ite(x.args[0], Mod(x.args[1], m), Mod(x.args[2], m))
	}
	if x.op == OPow {
		return &Term{op: OMod, args: []*Term{x}, k: m, lo: big0, hi: new(big.Int).Sub(m, big1)}
	}
	return intern(&Term{op: OMod, args: []*Term{x}, k: m, lo: big0, hi: new(big.Int).Sub(m, big1)})
}

// stripMod removes inner reductions by (a multiple of) m and reduces constants.
func stripMod(x *Term, m *big.Int, depth int) *Term {
	switch x.op {
	case OMod:
		if x.k.Cmp(m) == 0 || new(big.Int).Mod(x.k, m).Sign() == 0 {
			return x.args[0]
		}
	case OConst:
		if x.k.Sign() < 0 || x.k.Cmp(m) >= 0 {
			k := new(big.Int).Mod(x.k, m)
			// keep small negatives readable
			return C(k)
		}
	case OAdd, OMul:
		if depth > 3 {
			return x
		}
		ch := false
		args := make([]*Term, len(x.args))
		for i, a := range x.args {
			args[i] = stripMod(a, m, depth+1)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			if x.op == OAdd {
				r := Add(args...)
				return r
			}
			return Mul(args...)
		}
	case OPow:
		a := x.args[0]
		if a.op == OMod && a.k.Cmp(m) == 0 {
			return intern(Pow(a.args[0], x.n))
		}
	}
	return x
}

func FMul(a, b *Term) *Term {
	// fast path for power chains modulo r
	if a.op == OMod && a.k.Cmp(rMod) == 0 && a.args[0].op == OPow {
		p := a.args[0]
		bb := b
		if bb.op == OMod && bb.k.Cmp(rMod) == 0 {
			bb = bb.args[0]
		}
		if p.args[0] == bb {
			return &Term{op: OMod, args: []*Term{{op: OPow, args: p.args, n: p.n + 1}}, k: rMod, lo: big0, hi: rMinus1}
		}
	}
	return Mod(Mul(a, b), rMod)
}
func FAdd(a, b *Term) *Term { return Mod(Add(a, b), rMod) }
func FSub(a, b *Term) *Term { return Mod(Sub(a, b), rMod) }

// Div is floor division by a positive constant.
func Div(x *Term, m *big.Int) *Term {
	if x.op == OConst {
		q := new(big.Int)
		q.Div(x.k, m)
		return C(q)
	}
	if m.Cmp(big1) == 0 {
		return x
	}
	if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(m) < 0 {
		return CI(0)
	}
	x = intern(x)
	if n := log2(m); n >= 0 && x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil {
		return Ext(x, n, x.hi.BitLen()-n)
	}
	t := &Term{op: ODiv, args: []*Term{x}, k: m}
	if x.lo != nil && x.lo.Sign() >= 0 {
		t.lo = big0
		if x.hi != nil {
			t.hi = new(big.Int).Div(x.hi, m)
		}
	}
	return intern(t)
}

func log2(m *big.Int) int {
	if m.Sign() <= 0 {
		return -1
	}
	n := m.BitLen() - 1
	if m.TrailingZeroBits() == uint(n) {
		return n
	}
	return -1
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

// Ext extracts w bits of x starting at bit lo; x must be non-negative.
func Ext(x *Term, lo, w int) *Term {
	if w <= 0 {
		return CI(0)
	}
	if x.op == OConst {
		v := new(big.Int).Rsh(x.k, uint(lo))
		return C(v.Mod(v, pow2(w)))
	}
	if x.hi != nil {
		bl := x.hi.BitLen()
		if lo >= bl {
			return CI(0)
		}
		if lo+w > bl {
			w = bl - lo
		}
		if lo == 0 && w >= bl {
			return x
		}
	}
	x = intern(x)
	switch x.op {
	case OExt:
		if lo >= x.w {
			return CI(0)
		}
		if lo+w > x.w {
			w = x.w - lo
		}
		return Ext(x.args[0], x.n+lo, w)
	case OCat:
		off := 0
		var parts []*Term
		var ws []int
		for i, p := range x.args {
			pw := x.ws[i]
			s, e := off, off+pw
			off = e
			if e <= lo || s >= lo+w {
				continue
			}
			a, b := 0, pw
			if lo > s {
				a = lo - s
			}
			if lo+w < e {
				b = lo + w - s
			}
			parts = append(parts, Ext(p, a, b-a))
			ws = append(ws, b-a)
		}
		return Cat(parts, ws)
	case OIte:
		return Ite(x.args[0], Ext(x.args[1], lo, w), Ext(x.args[2], lo, w))
	case OMul: // 2^k·y
		if len(x.args) == 2 && x.args[1].op == OConst && x.args[1].k.Sign() > 0 && x.args[0].lo != nil && x.args[0].lo.Sign() >= 0 {
			if k := log2(x.args[1].k); k > 0 {
				if lo >= k {
					return Ext(x.args[0], lo-k, w)
				}
				if lo+w <= k {
					return CI(0)
				}
				return Cat([]*Term{CI(0), Ext(x.args[0], 0, lo+w-k)}, []int{k - lo, lo + w - k})
			}
		}
	case OMod:
		if n := log2(x.k); n >= 0 && x.args[0].lo != nil && x.args[0].lo.Sign() >= 0 {
			if lo >= n {
				return CI(0)
			}
			if lo+w > n {
				w = n - lo
			}
			return Ext(x.args[0], lo, w)
		}
	}
	return intern(&Term{op: OExt, args: []*Term{x}, n: lo, w: w, lo: big0, hi: new(big.Int).Sub(pow2(w), big1)})
}

// Cat concatenates parts, least significant first; part i must be < 2^ws[i].
func Cat(parts []*Term, ws []int) *Term {
	type pt struct {
		t *Term
		w int
	}
	var ps []pt
	push := func(t *Term, w int) {
		if w == 0 {
			return
		}
		if len(ps) > 0 {
			l := &ps[len(ps)-1]
			if l.t.op == OConst && t.op == OConst {
				k := new(big.Int).Lsh(t.k, uint(l.w))
				l.t = C(k.Add(k, l.t.k))
				l.w += w
				return
			}
			if m, ok := adjacent(l.t, l.w, t, w); ok {
				l.t = m
				l.w += w
				return
			}
		}
		ps = append(ps, pt{t, w})
	}
	for i, p := range parts {
		p = intern(p)
		if n := sumInts(p.ws); p.op == OCat && n <= ws[i] {
			for j := range p.args {
				push(p.args[j], p.ws[j])
			}
			push(CI(0), ws[i]-n)
			continue
		}
		push(p, ws[i])
	}
	// drop leading zero parts
	for len(ps) > 0 && ps[len(ps)-1].t.op == OConst && ps[len(ps)-1].t.k.Sign() == 0 {
		ps = ps[:len(ps)-1]
	}
	if len(ps) == 0 {
		return CI(0)
	}
	if len(ps) == 1 {
		return ps[0].t
	}
	var a []*Term
	var w []int
	tot := 0
	for _, p := range ps {
		a = append(a, p.t)
		w = append(w, p.w)
		tot += p.w
	}
	hi := new(big.Int)
	off := 0
	for _, p := range ps {
		h := p.t.hi
		if h == nil {
			h = new(big.Int).Sub(pow2(p.w), big1)
		}
		hi.Add(hi, new(big.Int).Lsh(h, uint(off)))
		off += p.w
	}
	return intern(&Term{op: OCat, args: a, ws: w, lo: big0, hi: hi})
}

func sumInts(a []int) int {
	s := 0
	for _, x := range a {
		s += x
	}
	return s
}

// adjacent merges low part (a,aw) and next part (b,bw) when they are consecutive
// chunks of the same term.
func adjacent(a *Term, aw int, b *Term, bw int) (*Term, bool) {
	base := func(t *Term, w int) (x *Term, lo int, ok bool) {
		if t.op == OExt && t.w == w {
			return t.args[0], t.n, true
		}
		if t.op == OExt { // narrower than its slot: high bits are zero, ok only at the top of x
			x := t.args[0]
			if x.hi != nil && t.n+t.w >= x.hi.BitLen() {
				return x, t.n, true
			}
			return nil, 0, false
		}
		if t.op != OConst {
			return t, 0, true
		}
		return nil, 0, false
	}
	// zero top chunk of x
	if b.op == OConst && b.k.Sign() == 0 {
		if x, lo, ok := base(a, aw); ok && x.hi != nil && lo+aw >= x.hi.BitLen() {
			return a, true
		}
		return nil, false
	}
	xa, la, ok1 := base(a, aw)
	xb, lb, ok2 := base(b, bw)
	if !ok1 || !ok2 || xa != xb || xa.op == OConst {
		return nil, false
	}
	if la+aw != lb {
		return nil, false
	}
	return Ext(xa, la, aw+bw), true
}

func Ite(c, a, b *Term) *Term {
	if c.op == OBool {
		if c.n != 0 {
			return a
		}
		return b
	}
	a, b = intern(a), intern(b)
	if a == b {
		return a
	}
	if a.isBool {
		return Or(And(c, a), And(Not(c), b))
	}
	t := &Term{op: OIte, args: []*Term{c, a, b}}
	if a.lo != nil && b.lo != nil {
		t.lo = a.lo
		if b.lo.Cmp(a.lo) < 0 {
			t.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		t.hi = a.hi
		if b.hi.Cmp(a.hi) > 0 {
			t.hi = b.hi
		}
	}
	return intern(t)
}

func Inv(x *Term, m *big.Int) *Term {
	x = Mod(x, m)
	if x.op == OConst {
		if x.k.Sign() == 0 {
			return CI(0)
		}
		return C(new(big.Int).ModInverse(x.k, m))
	}
	return intern(&Term{op: OInv, args: []*Term{x}, k: m, lo: big0, hi: new(big.Int).Sub(m, big1)})
}

func B(b bool) *Term {
	if b {
		return trueT
	}
	return falseT
}

func Eq(a, b *Term) *Term {
	a, b = intern(a), intern(b)
	if a == b {
		return trueT
	}
	if a.isBool {
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if a.op == OConst && b.op == OConst {
		return B(a.k.Cmp(b.k) == 0)
	}
	if disjoint(a, b) {
		return falseT
	}
	// ite(c, k1, k2) == k
	for i := 0; i < 2; i++ {
		if isBitlen(a) && b.op == OConst {
			return And(Le(b, a), Le(a, b))
		}
		if a.op == OIte && b.op == OConst {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		a, b = b, a
	}
	if b.id < a.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, args: []*Term{a, b}, isBool: true})
}

func disjoint(a, b *Term) bool {
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return true
	}
	if b.hi != nil && a.lo != nil && b.hi.Cmp(a.lo) < 0 {
		return true
	}
	return false
}

func Le(a, b *Term) *Term {
	a, b = intern(a), intern(b)
	if a == b {
		return trueT
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return trueT
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return falseT
	}
	if isBitlen(a) && b.op == OConst && b.k.IsInt64() && b.k.Int64() < 4096 {
		return Not(Le(C(pow2(int(b.k.Int64()))), a.args[0]))
	}
	if isBitlen(b) && a.op == OConst && a.k.IsInt64() && a.k.Int64() < 4096 {
		return Le(C(pow2(int(a.k.Int64())-1)), b.args[0])
	}
	return intern(&Term{op: OLe, args: []*Term{a, b}, isBool: true})
}

// isBitlen: the bit length of a non-negative number.
func isBitlen(t *Term) bool { return t.op == OUF && t.name == "bitlen" && nonNeg(intern(t.args[0])) }
func Lt(a, b *Term) *Term   { return Not(Le(b, a)) }

func Not(a *Term) *Term {
	switch a.op {
	case OBool:
		return B(a.n == 0)
	case ONot:
		return a.args[0]
	}
	return intern(&Term{op: ONot, args: []*Term{a}, isBool: true})
}

func And(xs ...*Term) *Term {
	var args []*Term
	seen := map[*Term]bool{}
	var push func(x *Term) bool
	push = func(x *Term) bool {
		if x == trueT || seen[x] {
			return true
		}
		if x == falseT {
			return false
		}
		if x.op == OAnd {
			for _, a := range x.args {
				if !push(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		args = append(args, x)
		return true
	}
	for _, x := range xs {
		if !push(x) {
			return falseT
		}
	}
	if len(args) == 0 {
		return trueT
	}
	if len(args) == 1 {
		return args[0]
	}
	sortTerms(args)
	return intern(&Term{op: OAnd, args: args, isBool: true})
}

func Or(xs ...*Term) *Term {
	ys := make([]*Term, len(xs))
	for i, x := range xs {
		ys[i] = Not(x)
	}
	return Not(And(ys...))
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

// EqMod states a = b modulo m.
func EqMod(a, b *Term, m *big.Int) *Term { return Eq(Mod(a, m), Mod(b, m)) }

// Subst rewrites variables (and any interned term) by the map, to a fixpoint.
type Subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func newSubst() *Subst { return &Subst{m: map[*Term]*Term{}, memo: map[*Term]*Term{}} }

func (s *Subst) bind(v, t *Term) {
	s.m[v] = t
	s.memo = map[*Term]*Term{}
}

func (s *Subst) shallow(t *Term) *Term {
	for i := 0; i < 50; i++ {
		if t.id == 0 {
			return t
		}
		n, ok := s.m[t]
		if !ok {
			return t
		}
		t = n
	}
	return t
}

func (s *Subst) apply(t *Term) *Term {
	if len(s.m) == 0 {
		return intern(t)
	}
	t = intern(t)
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	if n, ok := s.m[t]; ok {
		r = s.apply(n)
	} else if len(t.args) == 0 && t.lc == nil {
		r = t
	} else {
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = s.apply(a)
			if args[i] != a {
				ch = true
			}
		}
		var lc *LC
		if t.lc != nil {
			lc = s.applyLC(t.lc)
			if lc != t.lc {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, args, lc)
			if n, ok := s.m[r]; ok {
				r = s.apply(n)
			}
		}
	}
	s.memo[t] = r
	return r
}

func (s *Subst) applyLC(l *LC) *LC {
	var out []LCEntry
	for _, e := range l.ents {
		out = append(out, LCEntry{s.apply(e.c), e.b.x, e.b.y, e.b})
	}
	r := newLCRaw()
	for i, e := range l.ents {
		x, y := s.apply(e.b.x), s.apply(e.b.y)
		base := pointOf(x, y)
		r = lcAdd(r, lcScale(base, out[i].c))
	}
	return r
}

func rebuild(t *Term, args []*Term, lc *LC) *Term {
	switch t.op {
	case OAdd:
		return Add(args...)
	case OMul:
		return Mul(args...)
	case OPow:
		return intern(Pow(args[0], t.n))
	case OMod:
		return intern(Mod(args[0], t.k))
	case ODiv:
		return Div(args[0], t.k)
	case OExt:
		return Ext(args[0], t.n, t.w)
	case OCat:
		return Cat(args, t.ws)
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OUF:
		if t.name == "sha256" || t.name == "keccak256" {
			return hashOf(t.name, args, t.ws)
		}
		return UF(t.name, t.lo, t.hi, args...)
	case OPX:
		return lcX(lc)
	case OPY:
		return lcY(lc)
	case OInv:
		return Inv(args[0], t.k)
	case OBVar:
		return mkPred(t.name, args)
	case OEq:
		return Eq(args[0], args[1])
	case OLe:
		return Le(args[0], args[1])
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	}
	return t
}

func mkPred(name string, args []*Term) *Term {
	if name == "oncurve" && len(args) == 2 {
		return OnCurve(args[0], args[1])
	}
	return Pred(name, args...)
}

// occurs reports whether v occurs in t.
func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		if t.lc != nil {
			for _, e := range t.lc.ents {
				if f(e.c) || f(e.b.x) || f(e.b.y) {
					return true
				}
			}
		}
		return false
	}
	return f(intern(t))
}

// vars collects the variables (and 0-ary atoms) of a term.
func collectVars(t *Term, into map[*Term]bool) {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar || (t.op == OBVar && len(t.args) == 0) {
			into[t] = true
		}
		for _, a := range t.args {
			f(a)
		}
		if t.lc != nil {
			for _, e := range t.lc.ents {
				f(e.c)
				f(e.b.x)
				f(e.b.y)
			}
		}
	}
	f(intern(t))
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t.op != OConst && t.op != OVar && d == 0 {
		return "…"
	}
	as := func() string {
		var p []string
		for i, a := range t.args {
			if i > 8 {
				p = append(p, fmt.Sprintf("…+%d", len(t.args)-i))
				break
			}
			p = append(p, a.str(d-1))
		}
		return strings.Join(p, " ")
	}
	switch t.op {
	case OConst:
		s := t.k.String()
		if len(s) > 24 {
			if new(big.Int).Sub(rMod, t.k).IsInt64() {
				return "(r-" + new(big.Int).Sub(rMod, t.k).String() + ")"
			}
			return s[:8] + ".." + s[len(s)-6:]
		}
		return s
	case OVar:
		return t.name
	case OAdd:
		return "(+ " + as() + ")"
	case OMul:
		return "(* " + as() + ")"
	case OPow:
		return fmt.Sprintf("(^ %s %d)", t.args[0].str(d-1), t.n)
	case OMod:
		m := "m"
		if t.k.Cmp(rMod) == 0 {
			m = "r"
		} else if t.k.Cmp(pMod) == 0 {
			m = "p"
		} else if len(t.k.String()) < 10 {
			m = t.k.String()
		}
		return "(mod" + m + " " + as() + ")"
	case ODiv:
		return "(div " + as() + " " + t.k.String() + ")"
	case OExt:
		return fmt.Sprintf("%s[%d+%d]", t.args[0].str(d-1), t.n, t.w)
	case OCat:
		return fmt.Sprintf("(cat%v %s)", t.ws, as())
	case OIte:
		return "(ite " + as() + ")"
	case OUF:
		return "(" + t.name + " " + as() + ")"
	case OPX:
		return "X<" + t.lc.str(d-1) + ">"
	case OPY:
		return "Y<" + t.lc.str(d-1) + ">"
	case OInv:
		return "(inv " + as() + ")"
	case OBool:
		return fmt.Sprint(t.n != 0)
	case OBVar:
		return "(" + t.name + " " + as() + ")"
	case OEq:
		return "(= " + as() + ")"
	case OLe:
		return "(<= " + as() + ")"
	case ONot:
		return "(not " + as() + ")"
	case OAnd:
		return "(and " + as() + ")"
	}
	return "?"
}
