package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// ---- point text (C30)

// txtPart is a stretch of text: literal, n symbolic hex digits (the low ones of
// a 256-bit input) or one arbitrary byte.
type txtPart struct {
	lit   string
	n     int
	upper bool
	any   bool
}

func lit(s string) txtPart  { return txtPart{lit: s} }
func digs(n int) txtPart    { return txtPart{n: n} }
func upDigs(n int) txtPart  { return txtPart{n: n, upper: true} }
func anyByte() txtPart      { return txtPart{any: true} }
func (p txtPart) size() int { return len(p.lit) + p.n + map[bool]int{true: 1}[p.any] }

func txtIns(parts []txtPart) []In {
	var ins []In
	for i, p := range parts {
		switch {
		case p.any:
			ins = append(ins, In{name: fmt.Sprintf("c%d", i), kind: KByte})
		case p.n > 0:
			ins = append(ins, In{name: fmt.Sprintf("d%d", i), kind: KU256})
		}
	}
	return ins
}

func txtChars(parts []txtPart, in []*Term) []Value {
	var ch []Value
	for _, p := range parts {
		switch {
		case p.any:
			ch = append(ch, in[0])
			in = in[1:]
		case p.n > 0:
			for i := p.n - 1; i >= 0; i-- {
				d := Ext(in[0], 4*i, 4)
				if p.upper {
					ch = append(ch, hexCharUpper(d))
				} else {
					ch = append(ch, hexChar(d))
				}
			}
			in = in[1:]
		default:
			ch = append(ch, strChars(p.lit)...)
		}
	}
	return ch
}

// txtGo is Go code setting s to the text for the inputs a.
func txtGo(parts []txtPart) string {
	c := "var s string; _ = strings.ToUpper; _ = fmt.Sprint\n"
	i := 0
	for _, p := range parts {
		switch {
		case p.any:
			c += fmt.Sprintf("s += string([]byte{byte(a[%d].Uint64())})\n", i)
			i++
		case p.n > 0:
			x := fmt.Sprintf("fmt.Sprintf(\"%%0%dx\", new(big.Int).Mod(a[%d], new(big.Int).Lsh(big.NewInt(1), %d)))", p.n, i, 4*p.n)
			if p.upper {
				x = "strings.ToUpper(" + x + ")"
			}
			c += "s += " + x + "\n"
			i++
		default:
			c += fmt.Sprintf("s += %q\n", p.lit)
		}
	}
	return c
}

// hexOf: whether a character is a hex digit, and which.
func hexOf(c Value) (*Term, *Term) {
	switch c := c.(type) {
	case uint64:
		i := strings.IndexByte("0123456789abcdef", strings.ToLower(string(rune(c)))[0])
		if i < 0 {
			return falseT, CI(0)
		}
		return trueT, CI(int64(i))
	case *Term:
		if n, ok := hexchOf[c]; ok {
			return trueT, n
		}
		if c.op == OConst {
			return hexOf(c.k.Uint64())
		}
		in := func(lo, hi int64) *Term { return And(Le(CI(lo), c), Le(c, CI(hi))) }
		d, l, u := in('0', '9'), in('a', 'f'), in('A', 'F')
		return Or(d, Or(l, u)), Ite(d, Sub(c, CI('0')), Ite(l, Sub(c, CI('a'-10)), Ite(u, Sub(c, CI('A'-10)), CI(0))))
	}
	unsup("char %T", c)
	return nil, nil
}

// plainHex is the number written by hex characters, -1 when it is none.
func plainHex(ch []Value) *Term {
	if len(ch)%2 == 1 {
		return CI(-1)
	}
	ok := trueT
	var parts []*Term
	var ws []int
	v := CI(0)
	for i := len(ch) - 1; i >= 0; i-- {
		h, n := hexOf(ch[i])
		ok = And(ok, h)
		parts, ws = append(parts, n), append(ws, 4)
	}
	if len(ch) > 0 && ok != falseT {
		flat := true
		for _, p := range parts {
			flat = flat && p.op != OIte
		}
		if flat {
			v = Cat(parts, ws)
		} else {
			for i := len(parts) - 1; i >= 0; i-- {
				v = Add(Mul(v, CI(16)), parts[i])
			}
		}
	}
	return Ite(ok, v, CI(-1))
}

func specHex(ch []Value) *Term {
	if len(ch) < 2 {
		return plainHex(ch)
	}
	return Ite(And(charIs(ch[0], '0'), charIs(ch[1], 'x')), plainHex(ch[2:]), plainHex(ch))
}

// decimalOut reads a returned string: -2 unless it is a plain decimal number.
func decimalOut(v Value) *Term {
	switch s := v.(type) {
	case string:
		n, ok := new(big.Int).SetString(s, 10)
		if !ok || n.String() != s {
			return CI(-2)
		}
		return C(n)
	case *FmtStr:
		if s.base == 10 {
			return s.t
		}
	}
	unsup("result text of %T", v)
	return nil
}

func txtVals(parts []txtPart) func(r *rand.Rand, in []In) []*big.Int {
	bytes := []byte("0x9afAFX_ ,()g/:@`G.-1bn\x00\xff")
	return func(r *rand.Rand, in []In) []*big.Int {
		var out []*big.Int
		for _, i := range in {
			if i.kind == KByte {
				out = append(out, big.NewInt(int64(bytes[r.Intn(len(bytes))])))
				continue
			}
			v := randBelow(r, pow2(256))
			switch r.Intn(4) {
			case 0: // zeros in front of every part
				v = v.Rsh(v, 250)
			case 1:
				v = v.Sub(pow2(256), big1)
			}
			out = append(out, v)
		}
		return out
	}
}

func hexTextGadget(key string, parts ...txtPart) *Gadget {
	return &Gadget{
		key: "hexToDecimalString/" + key, ins: txtIns(parts), sound: true, compl: true, traces: 4, maxP: 64,
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			r := m.mainCall("hexToDecimalString", mkStr(txtChars(parts, in))).(Tuple)
			if isErr(r[1]) {
				return []*Term{CI(-1)}, false
			}
			return []*Term{decimalOut(r[0])}, false
		},
		goCode: txtGo(parts) + `r, err := hexToDecimalString(s)
if err != nil { r = "-1" }
return []frontend.Variable{vfRaw(r)}, nil`,
		outs: func(in []*Term) []*Term { return []*Term{specHex(txtChars(parts, in))} },
		vals: txtVals(parts),
	}
}

// pointTextGadget: the text is pre, x, mid, y, post; ok says whether the
// characters around the coordinates are right.
func pointTextGadget(key string, pre, x, mid, y, post []txtPart) *Gadget {
	var parts []txtPart
	var at []int // boundaries in characters
	n := 0
	for _, p := range [][]txtPart{pre, x, mid, y, post} {
		for _, q := range p {
			parts = append(parts, q)
			n += q.size()
		}
		at = append(at, n)
	}
	return &Gadget{
		key: "extractAndConvert/" + key, ins: txtIns(parts), sound: true, compl: true, traces: 4, maxP: 64,
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			r := m.mainCall("extractAndConvert", mkStr(txtChars(parts, in))).(Tuple)
			if isErr(r[2]) {
				return []*Term{CI(-1), CI(-1)}, false
			}
			return []*Term{decimalOut(r[0]), decimalOut(r[1])}, false
		},
		goCode: txtGo(parts) + `xs, ys, err := extractAndConvert(s)
if err != nil { xs, ys = "-1", "-1" }
return []frontend.Variable{vfRaw(xs), vfRaw(ys)}, nil`,
		dom: func(in []*Term) *Term {
			// other white space between the coordinates is left open
			ch, d := txtChars(parts, in), trueT
			if c, ok := ch[at[2]-1].(*Term); ok && len(mid) > 0 {
				d = Or(Lt(c, CI(9)), Lt(CI(13), c))
			}
			// a bracket inside y ends a shorter point
			for _, c := range ch[at[2]:at[3]] {
				if t, ok := c.(*Term); ok && hexchOf[t] == nil {
					d = And(d, Not(Eq(t, CI(')'))))
				}
			}
			return d
		},
		outs: func(in []*Term) []*Term {
			ch := txtChars(parts, in)
			ok := trueT
			want := func(got []Value, s string) {
				if len(got) != len(s) {
					ok = falseT
					return
				}
				for i := range s {
					ok = And(ok, charIs(got[i], s[i]))
				}
			}
			want(ch[:at[0]], "bn256.G1(")
			want(ch[at[1]:at[2]], ", ")
			want(ch[at[3]:], ")")
			vx, vy := specHex(ch[at[0]:at[1]]), specHex(ch[at[2]:at[3]])
			ok = And(ok, And(Le(CI(0), vx), Le(CI(0), vy)))
			return []*Term{Ite(ok, vx, CI(-1)), Ite(ok, vy, CI(-1))}
		},
		vals: txtVals(parts),
	}
}

// spoil replaces the i-th character by an arbitrary one.
func spoil(s string, i int) []txtPart {
	return []txtPart{lit(s[:i]), anyByte(), lit(s[i+1:])}
}

func init() {
	prop("C30", func(ck *Check) {
		thorough := ck.tier == "thorough"
		ck.bound("hex text: every digit string of the listed lengths (quick 1-6, 31-34, 62-66, 80; thorough 1-80), lower, upper and mixed case, with and without 0x; one arbitrary byte at each of the listed positions, and every text of up to two bytes")
		ck.bound("point text: all coordinates of 64 digits, and of (2,2), (4,64), (64,2), 0x-prefixed and odd digit counts; one arbitrary byte in each fixed position and at the listed digit positions")
		ck.assumption("text around a well-formed point, white space other than one blank between the coordinates, and empty coordinates are left open")
		ck.assumption("package regexp is run as is on the text with representative digits; a match that depends on which digits there are is split by value or undecided")
		var gs []*Gadget
		lens := []int{1, 2, 3, 4, 5, 6, 31, 32, 33, 34, 62, 63, 64, 65, 66, 80}
		if thorough {
			lens = nil
			for n := 1; n <= 80; n++ {
				lens = append(lens, n)
			}
		}
		long := func(n int, up bool) []txtPart {
			var p []txtPart
			for n > 0 {
				k := n
				if k > 64 {
					k = 64
				}
				p = append(p, txtPart{n: k, upper: up})
				n -= k
			}
			return p
		}
		for _, n := range lens {
			gs = append(gs, hexTextGadget(fmt.Sprint(n, " digits"), long(n, false)...),
				hexTextGadget(fmt.Sprint("0x and ", n, " digits"), append([]txtPart{lit("0x")}, long(n, false)...)...))
			if thorough || n == 2 || n == 5 || n == 64 {
				gs = append(gs, hexTextGadget(fmt.Sprint(n, " upper-case digits"), long(n, true)...),
					hexTextGadget(fmt.Sprint("0x and ", n, " upper-case digits"), append([]txtPart{lit("0x")}, long(n, true)...)...))
			}
		}
		gs = append(gs, hexTextGadget("mixed case", digs(3), upDigs(2), digs(2), upDigs(1)),
			hexTextGadget("0X", lit("0X"), digs(4)), hexTextGadget("any byte", anyByte()), hexTextGadget("any two bytes", anyByte(), anyByte()),
			hexTextGadget("0x and any two bytes", lit("0x"), anyByte(), anyByte()), hexTextGadget("00x", lit("00x"), digs(4)), hexTextGadget("x", lit("x"), digs(3)),
			hexTextGadget("0x0x", lit("0x0x"), digs(4)))
		pos := []int{0, 1, 2, 3, 4, 5}
		n := 6
		if thorough {
			pos, n = nil, 64
			for i := 0; i < n; i++ {
				pos = append(pos, i)
			}
		}
		around := func(n, i int) []txtPart {
			var p []txtPart
			if i > 0 {
				p = append(p, digs(i))
			}
			p = append(p, anyByte())
			if i < n-1 {
				p = append(p, digs(n-1-i))
			}
			return p
		}
		for _, i := range pos {
			gs = append(gs, hexTextGadget(fmt.Sprintf("%d digits, byte %d arbitrary", n, i), around(n, i)...),
				hexTextGadget(fmt.Sprintf("%d digits after 0x, byte %d arbitrary", n, i), append([]txtPart{lit("0x")}, around(n, i)...)...))
		}
		const pre, mid, post = "bn256.G1(", ", ", ")"
		l := func(s string) []txtPart { return []txtPart{lit(s)} }
		d := func(n int) []txtPart { return []txtPart{digs(n)} }
		pt := func(key string, x, y []txtPart) {
			gs = append(gs, pointTextGadget(key, l(pre), x, l(mid), y, l(post)))
		}
		for _, s := range [][2]int{{64, 64}, {2, 2}, {4, 64}, {64, 2}, {3, 4}, {4, 3}, {63, 64}, {64, 63}, {66, 66}} {
			pt(fmt.Sprintf("%d and %d digits", s[0], s[1]), long(s[0], false), long(s[1], false))
		}
		pt("upper case", []txtPart{upDigs(64)}, []txtPart{upDigs(64)})
		pt("0x both", []txtPart{lit("0x"), digs(64)}, []txtPart{lit("0x"), digs(64)})
		pt("0x first", []txtPart{lit("0x"), digs(8)}, d(8))
		pt("0x second", d(8), []txtPart{lit("0x"), digs(8)})
		w := 64
		for i := 0; i < w; i++ {
			if thorough || i < 3 || i == 31 || i > 61 {
				pt(fmt.Sprintf("byte %d of x arbitrary", i), around(w, i), d(w))
				pt(fmt.Sprintf("byte %d of y arbitrary", i), d(w), around(w, i))
			}
		}
		for i := range pre {
			gs = append(gs, pointTextGadget(fmt.Sprintf("byte %d before the coordinates", i), spoil(pre, i), d(64), l(mid), d(64), l(post)))
		}
		for i := range mid {
			gs = append(gs, pointTextGadget(fmt.Sprintf("byte %d between the coordinates", i), l(pre), d(64), spoil(mid, i), d(64), l(post)))
		}
		gs = append(gs, pointTextGadget("last byte arbitrary", l(pre), d(64), l(mid), d(64), []txtPart{anyByte()}),
			pointTextGadget("no closing bracket", l(pre), d(64), l(mid), d(64), nil),
			pointTextGadget("no opening", nil, d(64), l(mid), d(64), l(post)),
			pointTextGadget("one coordinate", l(pre), d(64), nil, nil, l(post)))
		ck.Gadgets(gs...)
	})
}
