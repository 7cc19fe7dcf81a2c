package main

import (
	"flag"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

type propCheck struct {
	id  string
	run func(ck *Check)
}

var propChecks = map[string]func(ck *Check){}

func prop(id string, f func(ck *Check)) { propChecks[id] = f }

func main() {
	repo := flag.String("repo", "/repo", "target repository")
	verif := flag.String("verif", "", "verification directory")
	tier := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	if *verif == "" {
		wd, _ := os.Getwd()
		*verif = wd
	}
	*verif, _ = filepath.Abs(*verif)
	t := *tier
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t != "thorough" {
		t = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	if flag.NArg() == 0 {
		fmt.Fprintln(os.Stderr, "usage: engine [-tier t] <property>…")
		os.Exit(2)
	}
	ids := flag.Args()
	if ids[0] == "all" {
		ids = nil
		for id := range propChecks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			go func() { // long runs: keep what there is
				time.Sleep(100 * time.Second)
				pprof.StopCPUProfile()
			}()
			defer pprof.StopCPUProfile()
		}
	}
	rc := 0
	for _, id := range ids {
		f, ok := propChecks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "no such property", id)
			os.Exit(2)
		}
		ck := &Check{id: id, tier: t, seed: seed, repo: *repo, verif: *verif, stats: newStats(), tmo: 20 * time.Second,
			start: time.Now(), notes: map[string]int{}, codes: map[string]string{}, rng: rand.New(rand.NewSource(seed)), kfs: loadKnown(*verif)}
		if t == "thorough" {
			ck.tmo = 120 * time.Second
		}
		engineDeadline = ck.start.Add(650 * time.Second)
		if t == "thorough" {
			engineDeadline = ck.start.Add(50 * time.Minute)
		}
		ck.run(f)
		if c := ck.finish(); c != 0 {
			rc = c
		}
	}
	os.Exit(rc)
}

// run executes one property check; engine trouble is never an alarm.
func (ck *Check) run(f func(ck *Check)) {
	extra := map[string]string{}
	if ck.id == "C32" {
		for i, e := range compileEntries() {
			extra[fmt.Sprintf("zz_verif_circuit_%d.go", i)] = e.file()
		}
	}
	p, err := LoadProgram(ck.repo, extra)
	if err != nil {
		ck.inconclusive("the target could not be loaded: %v", err)
		return
	}
	ck.prog = p
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(x)
			}
			if u, ok := x.(unsupported); ok {
				ck.inconclusive("not encodable: %s", u.why)
				return
			}
			ck.inconclusive("engine error: %v", x)
		}
	}()
	f(ck)
}

// ---- helpers used by the property checks

// fn finds a function of the target, giving up the check when it is gone.
func (m *Machine) mainCall(name string, args ...Value) Value {
	fn := m.prog.Fn(name)
	if fn == nil {
		unsup("function %s not found", name)
	}
	if len(fn.Params) != len(args) {
		unsup("function %s has %d parameters", name, len(fn.Params))
	}
	for i := range args {
		if i == 2 && len(args) == 3 && fn.Params[0].Type().String() == "*math/big.Int" {
			continue // where a hint puts its results
		}
		args[i] = m.watch(fmt.Sprintf("%s's argument %s", name, fn.Params[i].Name()), args[i])
	}
	return m.callSSA(fn, args, nil)
}

func (m *Machine) v(t *Term) Value {
	v := m.bigVar(t)
	if w := m.run.watched; w != nil {
		w.cells = append(w.cells, watchedCell{v.v.(Ptr), t})
	}
	return v
}

func isErr(v Value) bool {
	e, ok := v.(Iface)
	return ok && e.t != nil
}

// varOut reads a circuit variable result, canonically.
func (m *Machine) varOut(v Value) *Term {
	i, ok := v.(Iface)
	if ok && i.v != nil {
		if _, is := i.v.(*ErrObj); is { // an error value travelling as a variable
			m.goPanic("error used as a variable")
		}
	}
	return m.fcan(v)
}

func bi(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad number " + s)
	}
	return v
}

// method finds a method of a package-level type of the target (or of an
// instance of a generic one).
func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, x := range []types.Type{types.NewPointer(t), t} {
		ms := p.ssa.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.ssa.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Program) mainType(name string) types.Type {
	if t := p.main.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// newStruct makes a value of the named type with some fields set.
func (m *Machine) newStruct(t types.Type, set map[string]Value) Ptr {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("%s is not a struct", t)
	}
	v := m.zero(t).(Struct)
	for k, x := range set {
		hit := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == k {
				v[i] = x
				hit = true
			}
		}
		if !hit {
			unsup("%s has no field %s", t, k)
		}
	}
	p := new(Value)
	*p = v
	return p
}

func fieldIndex(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
	}
	unsup("%s has no field %s", t, name)
	return -1
}

// defineCall runs the Define method of a circuit type on given field values.
func (m *Machine) defineCall(typ string, set map[string]Value) Value {
	t := m.prog.mainType(typ)
	if t == nil {
		unsup("type %s not found", typ)
	}
	for _, k := range sortedKeys(set) {
		set[k] = m.watch(typ+"."+k, set[k])
	}
	return m.methodCall(t, "Define", m.newStruct(t, set), m.apiVal())
}

func (m *Machine) methodCall(t types.Type, name string, recv Ptr, args ...Value) Value {
	f := m.prog.method(t, name)
	if f == nil {
		unsup("%s has no method %s", t, name)
	}
	var r Value = recv
	if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); !ok {
		r = copyVal(*recv)
	}
	return m.callSSA(f, append([]Value{r}, args...), nil)
}
