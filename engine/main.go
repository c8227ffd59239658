package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type runSpec struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Inputs  []InVal `json:"inputs"`
}

type runRes struct {
	I   int      `json:"i"`
	Res string   `json:"res"`
	Out []string `json:"out"`
	Cov []string `json:"cov"`
}

// runNative replays assignments against the real code.
func (e *Env) runNative(bin string, specs []runSpec, limit time.Duration) (map[int]runRes, string) {
	f := filepath.Join(e.work, "runs.json")
	b, _ := json.Marshal(specs)
	os.WriteFile(f, b, 0o644)
	c := exec.Command(bin, f)
	c.Dir = e.work
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	res := map[int]runRes{}
	if err := c.Start(); err != nil {
		return res, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	note := ""
	select {
	case err := <-done:
		if err != nil {
			note = err.Error() + " " + tailStr(errb.String(), 1500)
		}
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		note = "time limit"
	}
	if strings.Contains(errb.String(), "DATA RACE") {
		note += " DATA RACE"
	}
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if s := sc.Text(); strings.HasPrefix(s, "RUN ") {
			var r runRes
			if json.Unmarshal([]byte(s[4:]), &r) == nil {
				res[r.I] = r
			}
		}
	}
	return res, note
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type hReport struct {
	Name      string         `json:"harness"`
	Stats     Stats          `json:"stats"`
	Covers    map[string]int `json:"covers_reached"`
	Missing   []string       `json:"covers_not_reached,omitempty"`
	Incompl   map[string]int `json:"incomplete,omitempty"`
	TimedOut  bool           `json:"timed_out"`
	Exhausted bool           `json:"exhausted_within_bounds"`
	Secs      float64        `json:"seconds"`
	Bounds    string         `json:"bounds,omitempty"`
	Skipped   bool           `json:"skipped,omitempty"`
}

func main() {
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(8 << 30)
	initTables()
	if f := os.Getenv("VERIF_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check PID [-tier quick|thorough] | engine replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		c := cmdCheck(os.Args[2:])
		pprof.StopCPUProfile()
		os.Exit(c)
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	only := fs.String("only", "", "run only harnesses whose name contains this")
	trace := fs.Bool("trace", false, "")
	budget := fs.Float64("budget", 0, "seconds")
	verbose := fs.Bool("v", false, "")
	nw := fs.Int("j", 8, "workers")
	noNative := fs.Bool("no-native", false, "")
	if len(args) < 1 {
		return 2
	}
	pid := args[0]
	fs.Parse(args[1:])
	start := time.Now()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	env, err := newEnv()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	defer env.close()
	hs, err := env.findHarnesses(pid)
	if err != nil || len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "error: no harness for", pid, err)
		return 2
	}
	eng, list, err := env.load(hs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	if *only != "" {
		var l []*Harness
		for _, h := range list {
			if strings.Contains(h.name, *only) {
				l = append(l, h)
			}
		}
		list = l
	}
	loadSecs := time.Since(start).Seconds()
	eng.tier = *tier
	eng.seed = seed
	eng.tracing = *trace
	eng.nworkers = *nw
	total := 75.0
	if *tier == "thorough" {
		total = 780
	}
	if *budget > 0 {
		total = *budget
	}
	type bres struct {
		bin string
		err error
	}
	nat := make(chan bres, 1)
	if !*noNative {
		go func() {
			b, err := env.buildNative(hs, false)
			nat <- bres{b, err}
		}()
	}
	var reps []*hReport
	var viols []*Violation
	var samples []*Sample
	for i, h := range list {
		left := total - time.Since(start).Seconds()
		share := left / float64(len(list)-i)
		if i < len(list)-1 && share < left*0.6 {
			share = minF(left*0.6, share*2)
		}
		if share < 1 {
			share = 1
		}
		t0 := time.Now()
		eng.viol, eng.incompl, eng.covers, eng.samples, eng.timedOut = nil, map[string]int{}, map[string]int{}, nil, false
		eng.stuck = nil
		st := eng.explore(h, time.Now().Add(time.Duration(share*float64(time.Second))))
		r := &hReport{Name: h.name, Stats: st, Covers: eng.covers, Incompl: eng.incompl, TimedOut: eng.timedOut, Secs: time.Since(t0).Seconds()}
		for _, c := range h.want {
			if eng.covers[c] == 0 {
				r.Missing = append(r.Missing, c)
			}
		}
		r.Exhausted = !eng.timedOut && len(eng.incompl) == 0 && len(eng.viol) == 0 && st.UnknownBranches == 0
		reps = append(reps, r)
		seen := map[string]bool{}
		for _, v := range eng.viol {
			k := v.Kind + v.Msg
			if !seen[k] {
				seen[k] = true
				viols = append(viols, v)
			}
		}
		for k, s := range eng.stuck {
			if k < 2 {
				s := s
				viols = append(viols, s)
			}
		}
		samples = append(samples, eng.samples...)
		fmt.Printf("%-38s paths=%d ok=%d infeas=%d redund=%d asserts=%d proved=%d branches=%d incompl=%d viol=%d %.1fs%s\n", h.name, st.Paths, st.Completed, st.Infeasible, st.Redundant, st.Asserts, st.AssertProved, st.Branches, st.StepLimit+st.Unsupported, len(eng.viol), r.Secs, mark(r))
		if *verbose {
			var ks []string
			for k, n := range eng.incompl {
				ks = append(ks, fmt.Sprintf("   incomplete x%d: %s", n, k))
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println(k)
			}
			fmt.Println("   covers:", eng.covers, "missing:", r.Missing)
		}
	}
	// native side
	var bin string
	var natErr error
	if !*noNative {
		b := <-nat
		bin, natErr = b.bin, b.err
		if natErr != nil {
			fmt.Fprintln(os.Stderr, "error:", natErr)
			return 2
		}
	}
	tierN := 0
	if *tier == "thorough" {
		tierN = 1
	}
	validated, disagree := 0, 0
	var disList []string
	if bin != "" {
		validated, disagree, disList = env.validate(eng, bin, samples, tierN, &viols)
		for _, d := range disList {
			fmt.Println("TRANSLATION-DISAGREEMENT", d)
		}
	}
	kf := loadKnown(env.verif)
	code := 0
	var confirmed []string
	var unconfirmed []string
	nviol := 0
	os.MkdirAll(filepath.Join(env.verif, "replay"), 0o755)
	for i, v := range viols {
		conf := ""
		if bin != "" {
			conf = env.confirm(eng, bin, hs, v, tierN)
		} else {
			conf = "not replayed"
		}
		if conf == "" {
			unconfirmed = append(unconfirmed, v.Harness+": "+v.Kind+": "+v.Msg)
			fmt.Printf("UNCONFIRMED %s %s: %s (did not reproduce natively)\n", v.Harness, v.Kind, v.Msg)
			if *verbose {
				fmt.Println("   inputs:", v.Inputs)
			}
			continue
		}
		p := filepath.Join(env.verif, "replay", fmt.Sprintf("%s-%d.json", pid, i))
		data, _ := json.MarshalIndent(map[string]interface{}{"property": pid, "harness": v.Harness, "tier": tierN, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs, "schedule": v.Trace, "where": v.Where, "confirmed": conf}, "", " ")
		os.WriteFile(p, data, 0o644)
		if k := kf.match(pid, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pid, k)
			continue
		}
		nviol++
		code = 1
		fmt.Printf("  %s: %s: %s\n  at %s\n  inputs: %s\n  %s\n", v.Harness, v.Kind, v.Msg, v.Where, inStr(v.Inputs), conf)
		if len(v.Trace) > 0 && *verbose {
			fmt.Println("  schedule:\n    " + strings.Join(v.Trace, "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pid, p)
		confirmed = append(confirmed, v.Harness+": "+v.Msg+" ["+conf+"]")
	}
	writeEvidence(env, eng, pid, *tier, seed, reps, samples, validated, disagree, disList, confirmed, unconfirmed, nviol, loadSecs, time.Since(start).Seconds())
	inc := 0
	for _, r := range reps {
		if !r.Exhausted {
			inc++
		}
	}
	fmt.Printf("%s: %d harnesses, %d not exhausted within bounds, %d native traces agreed (%d disagreed), %.1fs\n", pid, len(reps), inc, validated, disagree, time.Since(start).Seconds())
	return code
}

func mark(r *hReport) string {
	s := ""
	if r.TimedOut {
		s += " TIMEOUT"
	}
	if len(r.Incompl) > 0 {
		s += " INCOMPLETE"
	}
	if len(r.Missing) > 0 {
		s += " MISSING-COVER"
	}
	if r.Stats.UnknownBranches > 0 {
		s += fmt.Sprintf(" UNKNOWN=%d", r.Stats.UnknownBranches)
	}
	return s
}

func minF(a, b float64) float64 {
	if a < b {
		return a
	}
	return b
}

func inStr(in []InVal) string {
	var p []string
	for _, x := range in {
		switch {
		case x.K == "byte" && x.V >= 32 && x.V < 127:
			p = append(p, fmt.Sprintf("byte=%q", rune(x.V)))
		case x.K == "rune":
			p = append(p, fmt.Sprintf("rune=%q", rune(x.V)))
		case strings.HasPrefix(x.K, "Int"):
			p = append(p, fmt.Sprintf("%s=%d", x.K, int64(x.V)))
		default:
			p = append(p, fmt.Sprintf("%s=%d", x.K, x.V))
		}
	}
	s := strings.Join(p, " ")
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

// validate replays sampled paths natively and compares what both observed.
func (e *Env) validate(eng *Engine, bin string, samples []*Sample, tier int, viols *[]*Violation) (ok, bad int, list []string) {
	var specs []runSpec
	var ss []*Sample
	for _, s := range samples {
		if s.EnvND || s.Threads > 1 {
			continue
		}
		specs = append(specs, runSpec{s.Harness, tier, s.Inputs})
		ss = append(ss, s)
		if len(ss) >= 400 {
			break
		}
	}
	if len(ss) == 0 {
		return
	}
	res, note := e.runNative(bin, specs, 60*time.Second)
	for i, s := range ss {
		r, have := res[i]
		if !have {
			if i == 0 || strings.Contains(note, "fatal") {
				list = append(list, fmt.Sprintf("%s: no native result: %s", s.Harness, note))
			}
			if i < len(res)+1 && strings.Contains(note, "exit") {
				// the process died in this run: a crash of the real code
				*viols = append(*viols, &Violation{Harness: s.Harness, Kind: "crash", Msg: "native run of a path the model passed ended the process: " + tailStr(note, 300), Inputs: s.Inputs, Native: true})
			}
			bad++
			break
		}
		var obs []string
		for _, o := range r.Out {
			if strings.HasPrefix(o, "OBS ") {
				obs = append(obs, o[4:])
			}
		}
		switch {
		case r.Res == "OK" && strings.Join(obs, "\n") == strings.Join(s.Obs, "\n") && strings.Join(r.Cov, ",") == strings.Join(s.Covers, ","):
			ok++
		case strings.HasPrefix(r.Res, "ASSERTFAIL") || strings.HasPrefix(r.Res, "PANIC") || r.Res == "TIMEOUT":
			bad++
			list = append(list, fmt.Sprintf("%s: model passed, native: %s inputs %s", s.Harness, r.Res, inStr(s.Inputs)))
			*viols = append(*viols, &Violation{Harness: s.Harness, Kind: "native", Msg: r.Res, Inputs: s.Inputs, Native: true})
		default:
			bad++
			if len(list) < 5 {
				list = append(list, fmt.Sprintf("%s: native %s obs=%v cov=%v; model obs=%v cov=%v inputs %s", s.Harness, r.Res, obs, r.Cov, s.Obs, s.Covers, inStr(s.Inputs)))
			}
		}
	}
	return
}

// confirm replays a counterexample against the real code; it returns how the
// violation was confirmed, or "" if it must not be reported.
func (e *Env) confirm(eng *Engine, bin string, hs map[string][]string, v *Violation, tier int) string {
	if v.Native {
		return "observed in the native run"
	}
	spec := runSpec{v.Harness, tier, v.Inputs}
	fails := func(r runRes, ok bool, note string) bool {
		if !ok {
			return note != "" && note != "time limit"
		}
		return strings.HasPrefix(r.Res, "ASSERTFAIL") || strings.HasPrefix(r.Res, "PANIC") || r.Res == "TIMEOUT"
	}
	res, note := e.runNative(bin, []runSpec{spec}, 40*time.Second)
	r, ok := res[0]
	if v.Kind == "nonterm" {
		if ok && r.Res == "TIMEOUT" || !ok && note == "time limit" {
			return "reproduced natively: does not terminate within 20 s"
		}
		return ""
	}
	if fails(r, ok, note) {
		return "reproduced natively: " + r.Res + tailStr(note, 200)
	}
	if v.Kind == "unsafe" {
		return "memory-safety violation in the executed path (no native trap expected)"
	}
	if !v.EnvND {
		return ""
	}
	// scheduling / environment choices: try to hit it natively, otherwise the
	// schedule itself, re-executed deterministically by the interpreter, stands
	var many []runSpec
	for i := 0; i < 60; i++ {
		many = append(many, spec)
	}
	lim := 15 * time.Second
	res, note = e.runNative(bin, many, lim)
	for i := 0; i < len(many); i++ {
		if r, ok := res[i]; ok && fails(r, true, "") {
			return "reproduced natively under stress: " + r.Res
		}
	}
	if len(res) < len(many) && note != "" && note != "time limit" {
		return "reproduced natively under stress: " + tailStr(note, 200)
	}
	return "counterexample schedule/environment choice found by the executor over the real code (not hit by the native stress run)"
}

type known struct{ pid, match, what string }
type knownList []known

func loadKnown(dir string) knownList {
	var out knownList
	b, err := os.ReadFile(filepath.Join(dir, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(l[len("finding: "):], " | ", 3)
		if len(f) == 3 {
			out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "match="), f[2]})
		}
	}
	return out
}

func (k knownList) match(pid string, v *Violation) string {
	s := v.Harness + ": " + v.Kind + ": " + v.Msg
	for _, x := range k {
		if x.pid == pid && strings.Contains(s, x.match) {
			return x.what
		}
	}
	return ""
}

func cmdReplay(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Property, Harness string
		Tier              int
		Inputs            []InVal
	}
	json.Unmarshal(b, &v)
	env, err := newEnv()
	if err != nil {
		return 2
	}
	defer env.close()
	hs, _ := env.findHarnesses(v.Property)
	bin, err := env.buildNative(hs, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	res, note := env.runNative(bin, []runSpec{{v.Harness, v.Tier, v.Inputs}}, time.Minute)
	fmt.Println(res[0], note)
	return 0
}
