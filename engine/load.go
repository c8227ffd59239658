package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	name string
	pkg  string
	fn   *ssa.Function
	want []string // covers named in the harness
}

var redirectNames = map[string]string{
	"context.WithCancel":                           "WithCancel",
	"context.WithCancelCause":                      "WithCancelCause",
	"context.Cause":                                "Cause",
	"context.WithTimeoutCause":                     "WithTimeoutCause",
	"context.WithDeadlineCause":                    "WithDeadlineCause",
	"context.WithTimeout":                          "WithTimeout",
	"context.WithDeadline":                         "WithDeadline",
	"context.WithValue":                            "WithValue",
	"time.After":                                   "After",
	"time.NewTimer":                                "NewTimer",
	"time.AfterFunc":                               "AfterFunc",
	"(*time.Timer).Stop":                           "TimerStop",
	"(*time.Timer).Reset":                          "TimerReset",
	"time.Now":                                     "Now",
	"(time.Time).Add":                              "TimeAdd",
	"time.Since":                                   "Since",
	"time.Until":                                   "Until",
	"github.com/panjf2000/ants/v2.NewPool":         "NewPool",
	"(*github.com/panjf2000/ants/v2.Pool).Submit":  "PoolSubmit",
	"(*github.com/panjf2000/ants/v2.Pool).Release": "PoolRelease",
	"(*github.com/panjf2000/ants/v2.Pool).Reboot":  "PoolReboot",
	"(*sync.Pool).Get":                             "SyncPoolGet",
	"(*sync.Map).Load":                             "SyncMapLoad",
	"(*sync.Map).Store":                            "SyncMapStore",
	"(*sync.Map).LoadOrStore":                      "SyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":                    "SyncMapLoadAndDelete",
	"(*sync.Map).Delete":                           "SyncMapDelete",
	"(*sync.Map).Range":                            "SyncMapRange",
	"fmt.Sprintf":                                  "Sprintf",
	"fmt.Sprintln":                                 "Sprintln",
	"fmt.Fprintf":                                  "Fprintf",
	"fmt.Fprint":                                   "Fprint",
	"fmt.Fprintln":                                 "Fprintln",
	"fmt.Sprint":                                   "Sprint",
	"fmt.Errorf":                                   "Errorf",
	"fmt.Println":                                  "Discard",
	"fmt.Print":                                    "Discard",
	"fmt.Printf":                                   "Discardf",
	"errors.Is":                                    "ErrorsIs",
	"sort.Slice":                                   "SortSlice",
	"sort.SliceStable":                             "SortSlice",
	"sort.SliceIsSorted":                           "SortSliceIsSorted",
	"math/rand.Shuffle":                            "RandShuffle",
	"math/rand.Perm":                               "RandPerm",
}

type Env struct {
	verif, repo, work string
	files             map[string]string // virtual path -> real path
}

func newEnv() (*Env, error) {
	e := &Env{verif: envOr("VERIF_DIR", "/verif"), repo: envOr("VERIF_REPO", "/repo")}
	d, err := os.MkdirTemp("", "verif-work-")
	if err != nil {
		return nil, err
	}
	e.work = d
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(e.repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(d, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	e.files = map[string]string{}
	zz := filepath.Join(e.repo, "internal/zzverif")
	e.files[filepath.Join(zz, "sym/sym.go")] = filepath.Join(e.verif, "engine/go/sym/sym.go")
	e.files[filepath.Join(zz, "lin/lin.go")] = filepath.Join(e.verif, "engine/go/lin/lin.go")
	e.files[filepath.Join(zz, "lin/spans.go")] = filepath.Join(e.verif, "engine/go/lin/spans.go")
	e.files[filepath.Join(zz, "lin/odd.go")] = filepath.Join(e.verif, "engine/go/lin/odd.go")
	e.files[filepath.Join(zz, "stubs/stubs.go")] = filepath.Join(e.verif, "engine/go/stubs/stubs.go")
	return e, nil
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func (e *Env) close() { os.RemoveAll(e.work) }

func (e *Env) goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(e.work, "go.mod"), "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
}

var harnessRe = regexp.MustCompile(`(?m)^func (P\d\d_\w+)\(\)`)

// findHarnesses maps harness packages that mention the property to their names.
func (e *Env) findHarnesses(pid string) (map[string][]string, error) {
	out := map[string][]string{}
	files, _ := filepath.Glob(filepath.Join(e.verif, "harness/*/*.go"))
	sort.Strings(files)
	pk := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p := filepath.Base(filepath.Dir(f))
		for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
			if strings.HasPrefix(m[1], pid+"_") {
				out[p] = append(out[p], m[1])
				pk[p] = true
			}
		}
	}
	for _, f := range files {
		p := filepath.Base(filepath.Dir(f))
		if pk[p] {
			e.files[filepath.Join(e.repo, "internal/zzverif", p, filepath.Base(f))] = f
		}
	}
	return out, nil
}

func (e *Env) load(hs map[string][]string) (*Engine, []*Harness, error) {
	ov := map[string][]byte{}
	for v, r := range e.files {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, nil, err
		}
		ov[v] = b
	}
	pats := []string{"./internal/zzverif/stubs", "./internal/zzverif/sym"}
	for p := range hs {
		pats = append(pats, "./internal/zzverif/"+p)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Overlay: ov, Env: e.goEnv()}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, x := range p.Errors {
				errs = append(errs, x.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	eng := &Engine{prog: prog, modPath: modPath, redirects: map[string]*ssa.Function{}, incompl: map[string]int{}, covers: map[string]int{}, fnHits: map[string]*FnHit{}, nworkers: 8, maxViol: 3, race: true}
	sp := prog.ImportedPackage(stubPkg)
	if sp == nil {
		return nil, nil, fmt.Errorf("stubs not loaded")
	}
	for n, s := range redirectNames {
		f := sp.Func(s)
		if f == nil {
			return nil, nil, fmt.Errorf("no stub %s", s)
		}
		eng.redirects[n] = f
	}
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		eng.rtErrType = rp.Type("errorString").Type()
	}
	if rp := prog.ImportedPackage("errors"); rp != nil {
		eng.errStrType = rp.Type("errorString").Type()
	}
	if eng.rtErrType == nil || eng.errStrType == nil {
		return nil, nil, fmt.Errorf("runtime types not found")
	}
	var out []*Harness
	for p, names := range hs {
		hp := prog.ImportedPackage(modPath + "/internal/zzverif/" + p)
		for _, n := range names {
			f := hp.Func(n)
			if f == nil {
				return nil, nil, fmt.Errorf("no harness %s", n)
			}
			out = append(out, &Harness{name: n, pkg: p, fn: f, want: wantCovers(f)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return eng, out, nil
}

func wantCovers(f *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	set := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if s, ok := c.Call.Value.(*ssa.Function); ok {
						if s.String() == symPkg+".Cover" {
							if k, ok := c.Call.Args[0].(*ssa.Const); ok {
								set[constOp(k).strval()] = true
							}
						} else if s.Pkg == f.Pkg && s.Pkg != nil {
							walk(s)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func (o Opnd) strval() string {
	s, _ := concStr(o.v)
	return s
}

// buildNative compiles the harness package natively (same sources, real code).
func (e *Env) buildNative(hs map[string][]string, race bool) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + symPkg + "\"\n")
	var pk []string
	for p := range hs {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		fmt.Fprintf(&sb, "\t%s %q\n", p, modPath+"/internal/zzverif/"+p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, p := range pk {
		for _, n := range hs[p] {
			fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", n, p, n)
		}
	}
	sb.WriteString("\t})\n}\n")
	mainGo := filepath.Join(e.work, "main.go")
	if err := os.WriteFile(mainGo, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(e.repo, "internal/zzverif/native/main.go"): mainGo}
	for v, r := range e.files {
		rep[v] = r
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(e.work, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(e.work, "native")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin}
	}
	args = append(args, "./internal/zzverif/native")
	c := exec.Command("go", args...)
	c.Dir = e.repo
	c.Env = e.goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

var _ = types.Typ
