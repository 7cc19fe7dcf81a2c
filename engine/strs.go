package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
)

// Symbolic strings.

var (
	hexchOf = map[*Term]*Term{} // char term -> nibble term
	hexchUp = map[*Term]bool{}  // the ones written in upper case
)

func hexCharUpper(n *Term) Value {
	if n.op == OConst {
		return uint64("0123456789ABCDEF"[n.k.Int64()])
	}
	t := Ite(Le(n, CI(9)), Add(n, CI(48)), Add(n, CI(55)))
	hexchOf[t], hexchUp[t] = n, true
	return t
}

// hexChar is the lower-case hex digit of a 4-bit term.
func hexChar(n *Term) Value {
	if n.op == OConst {
		return uint64("0123456789abcdef"[n.k.Int64()])
	}
	t := Ite(Le(n, CI(9)), Add(n, CI(48)), Add(n, CI(87)))
	hexchOf[t] = n
	return t
}

func hexDigits(x *Term, digits int) []Value {
	out := make([]Value, digits)
	for i := 0; i < digits; i++ {
		out[digits-1-i] = hexChar(Ext(x, 4*i, 4))
	}
	return out
}

func strChars(x Value) []Value {
	switch x := x.(type) {
	case string:
		out := make([]Value, len(x))
		for i := range out {
			out[i] = uint64(x[i])
		}
		return out
	case *SymStr:
		return x.ch
	}
	unsup("characters of %T", x)
	return nil
}

func mkStr(ch []Value) Value {
	b := make([]byte, len(ch))
	for i, c := range ch {
		u, ok := c.(uint64)
		if !ok {
			if t, ok := c.(*Term); ok && t.op == OConst {
				u = t.k.Uint64()
			} else {
				return &SymStr{ch}
			}
		}
		b[i] = byte(u)
	}
	return string(b)
}

func strCat(x, y Value) Value {
	if s, ok := x.(string); ok && s == "" {
		return y
	}
	if s, ok := y.(string); ok && s == "" {
		return x
	}
	a := append([]Value(nil), strChars(x)...)
	return mkStr(append(a, strChars(y)...))
}

func charTerm(c Value) *Term {
	switch c := c.(type) {
	case uint64:
		return CI(int64(c))
	case *Term:
		return c
	}
	unsup("char %T", c)
	return nil
}

func (m *Machine) strEqual(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	fx, ok1 := x.(*FmtStr)
	fy, ok2 := y.(*FmtStr)
	if ok1 && ok2 && fx.base == fy.base {
		return normBool(Eq(fx.t, fy.t))
	}
	if ok2 {
		x, y = y, x
		fx, ok1 = fy, true
	}
	if ok1 {
		if s, ok := y.(string); ok {
			v, good := new(big.Int).SetString(s, fx.base)
			if !good || v.Text(fx.base) != s {
				return false
			}
			return normBool(Eq(fx.t, C(v)))
		}
		return unsup("comparison with formatted number")
	}
	a, b := strChars(x), strChars(y)
	if len(a) != len(b) {
		return false
	}
	r := trueT
	for i := range a {
		r = And(r, Eq(charTerm(a[i]), charTerm(b[i])))
	}
	return normBool(r)
}

// sketch renders a symbolic string: every symbolic hex digit as rep, every
// other symbolic character (at most one, reported in free) as other.
func sketch(x Value, rep, other byte) (text string, free *Term) {
	switch x := x.(type) {
	case string:
		return x, nil
	case *SymStr:
		b := make([]byte, len(x.ch))
		for i, c := range x.ch {
			switch c := c.(type) {
			case uint64:
				b[i] = byte(c)
			case *Term:
				if _, ok := hexchOf[c]; ok {
					b[i] = rep
					if hexchUp[c] {
						b[i] = strings.ToUpper(string(rep))[0]
					}
					continue
				}
				if free != nil && free != c {
					unsup("text with several arbitrary characters")
				}
				free = c
				b[i] = other
			}
		}
		return string(b), free
	}
	unsup("text of %T", x)
	return "", nil
}

const hexReps = "09afe15c"

// textCase applies a function of concrete text to symbolic text whose digits do
// not matter to it; one arbitrary character is split by the results it leads to.
func textCase[T any](m *Machine, s Value, f func(string) T) T {
	if c, ok := s.(string); ok {
		return f(c)
	}
	eval := func(other byte) (T, string, bool) {
		t, _ := sketch(s, hexReps[0], other)
		r := f(t)
		for i := range hexReps {
			t, _ := sketch(s, hexReps[i], other)
			if q := f(t); fmt.Sprint(q) != fmt.Sprint(r) {
				return r, "", false
			}
		}
		return r, fmt.Sprint(r), true
	}
	_, free := sketch(s, hexReps[0], 0)
	if free == nil {
		r, _, ok := eval(0)
		if ok {
			return r
		}
		// it depends on the digits: follow texts with all digits alike
		for i := range hexReps {
			all := trueT
			for _, c := range s.(*SymStr).ch {
				if t, ok := c.(*Term); ok {
					all = And(all, charIs(t, hexReps[i]))
				}
			}
			if m.decide(normBool(all), nil, nil) {
				t, _ := sketch(s, hexReps[i], 0)
				return f(t)
			}
		}
		unsup("text operation depends on digit values")
	}
	if v := m.simp(free); v.op == OConst {
		r, _, ok := eval(byte(v.k.Int64()))
		if !ok {
			unsup("text operation depends on digit values")
		}
		return r
	}
	group := map[string]*Term{}
	val := map[string]T{}
	var order []string
	for o := 0; o < 256; o++ {
		r, k, ok := eval(byte(o))
		if !ok {
			unsup("text operation depends on digit values")
		}
		if group[k] == nil {
			group[k], val[k] = falseT, r
			order = append(order, k)
		}
		group[k] = Or(group[k], Eq(free, CI(int64(o))))
	}
	for _, k := range order[:len(order)-1] {
		if m.decide(normBool(group[k]), nil, nil) {
			return val[k]
		}
	}
	return val[order[len(order)-1]]
}

// charIs: character c is the byte b.
func charIs(c Value, b byte) *Term {
	switch c := c.(type) {
	case uint64:
		return B(byte(c) == b)
	case *Term:
		if n, ok := hexchOf[c]; ok {
			set := "0123456789abcdef"
			if hexchUp[c] {
				set = "0123456789ABCDEF"
			}
			i := strings.IndexByte(set, b)
			if i < 0 {
				return falseT
			}
			return Eq(n, CI(int64(i)))
		}
		return Eq(c, CI(int64(b)))
	}
	unsup("char %T", c)
	return nil
}

func (m *Machine) charIn(c Value, set string) bool {
	r := falseT
	for i := 0; i < len(set); i++ {
		r = Or(r, charIs(c, set[i]))
	}
	return m.decide(normBool(r), nil, nil)
}

// textAt: s has x at position i.
func (m *Machine) textAt(ch []Value, i int, x string) bool {
	if i < 0 || i+len(x) > len(ch) {
		return false
	}
	r := trueT
	for j := 0; j < len(x); j++ {
		r = And(r, charIs(ch[i+j], x[j]))
	}
	return m.decide(normBool(r), nil, nil)
}

func (m *Machine) textIndex(s Value, x string, from int) int {
	ch := strChars(s)
	for i := from; i+len(x) <= len(ch); i++ {
		if m.textAt(ch, i, x) {
			return i
		}
	}
	return -1
}

// regexIndex finds submatch positions.
func regexIndex(m *Machine, re *regexp.Regexp, s Value) []int {
	return textCase(m, s, re.FindStringSubmatchIndex)
}

func strSlice(s Value, lo, hi int) Value {
	if c, ok := s.(string); ok {
		return c[lo:hi]
	}
	return mkStr(strChars(s)[lo:hi])
}

// parseInt reads a digit string as a non-negative integer; ok=false when malformed.
func (m *Machine) parseInt(s Value, base int) (*Term, bool) {
	switch s := s.(type) {
	case string:
		v, ok := new(big.Int).SetString(s, base)
		if !ok {
			return nil, false
		}
		return C(v), true
	case *FmtStr:
		if s.base == base || (base == 0 && s.base == 10) {
			return s.t, true
		}
		// decimal digits read in another base and the like
		return unsupTerm("number formatted in base %d parsed in base %d", s.base, base), true
	case *SymStr:
		ch := s.ch
		if base == 0 || base == 16 {
			if base == 0 {
				if len(ch) < 2 || ch[0] != Value(uint64('0')) || (ch[1] != Value(uint64('x')) && ch[1] != Value(uint64('X'))) {
					unsup("base-0 parse of symbolic text")
				}
				ch = ch[2:]
			}
			var parts []*Term
			var ws []int
			for i := len(ch) - 1; i >= 0; i-- {
				n := m.nibble(ch[i])
				if n == nil {
					return nil, false
				}
				parts = append(parts, n)
				ws = append(ws, 4)
			}
			if len(ch) == 0 {
				return nil, false
			}
			return Cat(parts, ws), true
		}
		if base == 10 {
			// hex digits read as decimal: valid only if every digit is below ten
			ok := trueT
			for _, c := range ch {
				n := m.nibble(c)
				if n == nil {
					return nil, false
				}
				ok = And(ok, Le(n, CI(9)))
			}
			if !m.decide(normBool(ok), nil, nil) {
				return nil, false
			}
			acc := CI(0)
			for _, c := range ch {
				acc = Add(Mul(acc, CI(10)), m.nibble(c))
			}
			return acc, true
		}
	}
	unsup("parse of %T in base %d", s, base)
	return nil, false
}

func unsupTerm(f string, a ...interface{}) *Term {
	unsup(f, a...)
	return nil
}

// nibble returns the value of a hex digit character, nil if it is not one.
func (m *Machine) nibble(c Value) *Term {
	switch c := c.(type) {
	case uint64:
		i := strings.IndexByte("0123456789abcdef", byte(c))
		if i < 0 {
			i = strings.IndexByte("0123456789ABCDEF", byte(c))
		}
		if i < 0 {
			return nil
		}
		return CI(int64(i))
	case *Term:
		if n, ok := hexchOf[c]; ok {
			return n
		}
		if c = m.simp(c); c.op == OConst {
			return m.nibble(c.k.Uint64())
		}
		in := func(lo, hi int64) bool {
			return m.decide(normBool(And(Le(CI(lo), c), Le(c, CI(hi)))), nil, nil)
		}
		switch {
		case in('0', '9'):
			return Ext(c, 0, 4)
		case in('a', 'f'):
			return Ext(Add(Ext(c, 0, 4), CI(9)), 0, 4)
		case in('A', 'F'):
			return Ext(Add(Ext(c, 0, 4), CI(9)), 0, 4)
		}
		return nil
	}
	unsup("hex digit of arbitrary symbolic character")
	return nil
}
