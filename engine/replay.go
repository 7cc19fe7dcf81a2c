package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Harness runs the real code on concrete cases through an overlay test.
type Harness struct {
	ck    *Check
	dir   string
	built map[string]string // key -> binary ("" when it failed)
	err   string
}

type HintOverride struct {
	Index int      `json:"index"` // n-th NewHint call
	Out   []string `json:"out"`
	Fail  bool     `json:"fail,omitempty"`
}

type Case struct {
	Target string         `json:"target"`
	Args   []string       `json:"args"`
	Hints  []HintOverride `json:"hints,omitempty"`
	Record bool           `json:"record,omitempty"`
}

type HintRec struct {
	Name string   `json:"name"`
	In   []string `json:"in"`
	Out  []string `json:"out"`
}

type Result struct {
	Status  string      `json:"status"` // ok, error, rejected, panic
	Err     string      `json:"err"`
	Outs    []string    `json:"outs"`
	Calls   []HintRec   `json:"calls,omitempty"`
	Info    []string    `json:"info,omitempty"`
	Mutated []string    `json:"mutated,omitempty"` // inputs the call changed
	Asserts [][2]string `json:"asserts,omitempty"` // operands of AssertIsEqual, in order
}

func newHarness(ck *Check) *Harness {
	d, err := os.MkdirTemp("", "verif-"+ck.id+"-")
	if err != nil {
		d = "/tmp"
	}
	return &Harness{ck: ck, dir: d, built: map[string]string{}}
}

func (h *Harness) close() {
	if strings.HasPrefix(filepath.Base(h.dir), "verif-") {
		os.RemoveAll(h.dir)
	}
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
}

func (h *Harness) build(codes map[string]string) string {
	var ks []string
	for k := range codes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "\x00" + codes[k] + "\x00")
	}
	key := sb.String()
	if b, ok := h.built[key]; ok {
		return b
	}
	h.built[key] = ""
	n := len(h.built)
	tmpl, err := os.ReadFile(filepath.Join(h.ck.verif, "replay", "harness.go.tmpl"))
	if err != nil {
		h.err = err.Error()
		return ""
	}
	var reg strings.Builder
	imports := map[string]bool{}
	var stages []string
	for i, k := range ks {
		code := codes[k]
		for strings.HasPrefix(code, "//import ") {
			nl := strings.IndexByte(code, '\n')
			imports[strings.TrimSpace(code[len("//import "):nl])] = true
			code = code[nl+1:]
		}
		if strings.HasPrefix(code, "//stages") { // "//stages [FUNC…]": these may be intercepted
			nl := strings.IndexByte(code, '\n')
			stages = append(append(stages, hookedStages...), strings.Fields(code[len("//stages"):nl])...)
			code = code[nl+1:]
		}
		if strings.HasPrefix(code, "//top\n") { // top-level declarations first
			e := strings.Index(code, "//end\n")
			reg.WriteString(strings.ReplaceAll(code[len("//top\n"):e], "§", fmt.Sprint(i)))
			code = code[e+len("//end\n"):]
		}
		fmt.Fprintf(&reg, "\nfunc init() { vfReg[%q] = vfCall%d }\nfunc vfCall%d(api frontend.API, a []*big.Int, x *vfCtx) (outs []frontend.Variable, err error) {\n%s\n}\n", k, i, i, strings.ReplaceAll(code, "§", fmt.Sprint(i)))
	}
	var im strings.Builder
	for _, i := range func() []string { return sortedKeys(imports) }() {
		im.WriteString("\t" + i + "\n")
	}
	src := strings.Replace(string(tmpl), "//IMPORTS", im.String(), 1) + reg.String()
	file := filepath.Join(h.dir, fmt.Sprintf("zz_verif_%d_test.go", n))
	os.WriteFile(file, []byte(src), 0644)
	ov := filepath.Join(h.dir, fmt.Sprintf("overlay%d.json", n))
	rep := map[string]string{filepath.Join(h.ck.repo, "zz_verif_replay_test.go"): file}
	// the repository's own tests are not needed in this binary
	ents, _ := filepath.Glob(filepath.Join(h.ck.repo, "*_test.go"))
	for _, e := range ents {
		rep[e] = ""
	}
	if stages != nil {
		if err := h.stageHooks(n, stages, rep); err != nil {
			h.err = err.Error()
			return ""
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ov, b, 0644)
	bin := filepath.Join(h.dir, fmt.Sprintf("replay%d.test", n))
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-overlay", ov, "-o", bin, ".")
	cmd.Dir = h.ck.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		h.err = "replay build: " + firstLines(string(out), 6)
		return ""
	}
	h.built[key] = bin
	return bin
}

// stageHooks renames the verifier's stage functions in an overlay of the real
// source and puts in their place wrappers a case can intercept.
func (h *Harness) stageHooks(n int, stages []string, rep map[string]string) error {
	want := map[string]bool{}
	for _, s := range stages {
		want[s] = true
	}
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(h.ck.repo, "*.go"))
	var sb strings.Builder
	imports := map[string]bool{}
	for fi, path := range files {
		if strings.HasSuffix(path, "_test.go") {
			continue
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return err
		}
		out := string(src)
		shift := 0
		text := func(a, b token.Pos) string { return string(src[fset.Position(a).Offset:fset.Position(b).Offset]) }
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Recv != nil || fn.Type.TypeParams != nil || !want[fn.Name.Name] {
				continue
			}
			name := fn.Name.Name
			at := fset.Position(fn.Name.End()).Offset + shift
			out = out[:at] + "__real" + out[at:]
			shift += len("__real")
			var ps, names, res, got []string
			for _, p := range fn.Type.Params.List {
				for i := 0; i < max(1, len(p.Names)); i++ {
					id := fmt.Sprintf("p%d", len(ps))
					t := text(p.Type.Pos(), p.Type.End())
					ps = append(ps, id+" "+t)
					if strings.HasPrefix(t, "...") {
						id += "..."
					}
					names = append(names, id)
				}
			}
			if fn.Type.Results != nil {
				for _, p := range fn.Type.Results.List {
					for i := 0; i < max(1, len(p.Names)); i++ {
						t := text(p.Type.Pos(), p.Type.End())
						got = append(got, fmt.Sprintf("vfAs[%s](o[%d])", t, len(res)))
						res = append(res, t)
					}
				}
			}
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				base := filepath.Base(p)
				if im.Name != nil {
					base = im.Name.Name
				}
				if regexp.MustCompile(`\b` + base + `\.`).MatchString(strings.Join(append(ps, res...), " ")) {
					imports[base+" "+im.Path.Value] = true
				}
			}
			var plain []string
			for i := range names {
				plain = append(plain, fmt.Sprintf("p%d", i))
			}
			fmt.Fprintf(&sb, "\nfunc %s(%s) (%s) {\n", name, strings.Join(ps, ", "), strings.Join(res, ", "))
			fmt.Fprintf(&sb, "\tif h := vfStage[%q]; h != nil {\n\t\to := h([]interface{}{%s})\n\t\tif o != nil { return %s }\n\t}\n", name, strings.Join(plain, ", "), strings.Join(got, ", "))
			call := fmt.Sprintf("%s__real(%s)", name, strings.Join(names, ", "))
			if len(res) == 0 {
				fmt.Fprintf(&sb, "\t%s\n}\n", call)
				continue
			}
			// a stage may also be told to fail after doing its work
			var rs []string
			for i := range res {
				rs = append(rs, fmt.Sprintf("r%d", i))
			}
			fmt.Fprintf(&sb, "\t%s := %s\n", strings.Join(rs, ", "), call)
			if res[len(res)-1] == "error" {
				fmt.Fprintf(&sb, "\tif %s == nil { %s = vfStageErr(%q) }\n", rs[len(rs)-1], rs[len(rs)-1], name)
			}
			fmt.Fprintf(&sb, "\treturn %s\n}\n", strings.Join(rs, ", "))
		}
		if shift > 0 {
			p := filepath.Join(h.dir, fmt.Sprintf("src_%d_%d.go", n, fi))
			if err := os.WriteFile(p, []byte(out), 0644); err != nil {
				return err
			}
			rep[path] = p
		}
	}
	head := "package main\n\nimport (\n\t\"errors\"\n"
	for _, i := range sortedKeys(imports) {
		head += "\t" + i + "\n"
	}
	head += `)

var vfStage map[string]func([]interface{}) []interface{}
var vfFail = map[string]int{} // stage -> which call fails (1 = first)
var vfFailed []string

func vfStageErr(name string) error {
	if vfFail[name] > 0 {
		vfFail[name]--
		if vfFail[name] == 0 {
			vfFailed = append(vfFailed, name)
			return errors.New("injected: " + name + " failed")
		}
	}
	return nil
}

func vfAs[T any](v interface{}) (t T) {
	if v != nil { t = v.(T) }
	return
}
`
	p := filepath.Join(h.dir, fmt.Sprintf("stages_%d_test.go", n))
	rep[filepath.Join(h.ck.repo, "zz_verif_stages_test.go")] = p
	return os.WriteFile(p, []byte(head+sb.String()), 0644)
}

var hookedStages = []string{"VerifyInstanceHash", "CalcVerifyCircuitLagrange", "GetChallengesShPlonkCircuit", "VerifyProof1", "VerifyProof2", "VerifyProof3", "VerifyNotZero", "VerifyBN256Pairing"}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func (h *Harness) run(codes map[string]string, cases []*Case) []*Result {
	if len(cases) == 0 {
		return []*Result{}
	}
	bin := ""
	all1 := true
	for k, c := range codes {
		if h.ck.codes[k] != c {
			all1 = false
		}
	}
	if all1 {
		bin = h.build(h.ck.codes)
	}
	if bin == "" {
		bin = h.build(codes)
	}
	if bin == "" {
		return nil
	}
	inF, outF := filepath.Join(h.dir, "cases.json"), filepath.Join(h.dir, "results.json")
	var all []*Result
	rest := cases
	for tries := 0; len(rest) > 0 && tries < 20; tries++ {
		b, _ := json.Marshal(rest)
		os.WriteFile(inF, b, 0644)
		os.Remove(outF)
		ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
		cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "390s")
		cmd.Dir = h.dir
		cmd.Env = append(goEnv(), "VERIF_CASES="+inF, "VERIF_RESULTS="+outF)
		out, _ := cmd.CombinedOutput()
		cancel()
		var res []*Result
		if rb, err := os.ReadFile(outF); err == nil {
			dec := json.NewDecoder(strings.NewReader(string(rb)))
			for {
				r := &Result{}
				if dec.Decode(r) != nil {
					break
				}
				res = append(res, r)
			}
		}
		if len(res) > len(rest) {
			res = res[:len(rest)]
		}
		all = append(all, res...)
		if len(res) == len(rest) {
			return all
		}
		// the process died in the middle of a case
		all = append(all, &Result{Status: "panic", Err: "process died: " + firstLines(tail(string(out), 600), 8)})
		rest = rest[len(res)+1:]
	}
	return all
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
