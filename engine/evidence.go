package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func writeEvidence(env *Env, eng *Engine, pid, tier string, seed int, reps []*hReport, samples []*Sample, validated, disagree int, disList, confirmed, unconfirmed []string, nviol int, loadSecs, wall float64) {
	var tot Stats
	exh := true
	for _, r := range reps {
		tot.add(r.Stats)
		if !r.Exhausted {
			exh = false
		}
	}
	q, sat, unsat, unk, fb, ch := 0, 0, 0, 0, 0, 0
	var st, mx float64
	for _, w := range eng.workers {
		q += w.sol.Queries
		sat += w.sol.SatN
		unsat += w.sol.UnsatN
		unk += w.sol.UnknownN
		fb += w.sol.Fallback
		ch += w.sol.CacheN
		st += w.sol.Time.Seconds()
		if x := w.sol.MaxQ.Seconds(); x > mx {
			mx = x
		}
	}
	var fns []string
	other := 0
	for _, h := range eng.fnHits {
		if h.Module {
			fns = append(fns, fmt.Sprintf("%s (%d calls)", h.Name, h.Calls))
		} else {
			other++
		}
	}
	sort.Strings(fns)
	var ss []interface{}
	for _, s := range samples {
		if len(ss) >= 6 {
			break
		}
		ss = append(ss, map[string]interface{}{"harness": s.Harness, "inputs": inStr(s.Inputs), "observed": s.Obs, "covers": s.Covers, "goroutines": s.Threads})
	}
	if len(ss) == 0 {
		ss = append(ss, map[string]interface{}{"note": "no path completed before the first violation", "violations": confirmed})
	}
	cov := map[string]interface{}{
		"states":                          tot.Branches + tot.Choices + tot.Paths,
		"transitions":                     tot.Steps,
		"traces_validated_against_impl":   validated,
		"samples":                         ss,
		"exhaustive":                      exh,
		"explanation":                     "states = symbolic states created (path starts + branch decisions + structural/environment/schedule choices); transitions = SSA instructions executed symbolically; moments of concurrent calls are order variables constrained by the dependencies of the explored schedule, so an assertion over them is decided for every ordering of independent steps; assertions_trivial = decided by term rewriting before a query was needed; traces_validated = sampled path models replayed natively against the compiled real code with identical observations",
		"paths_completed":                 tot.Completed,
		"paths_infeasible":                tot.Infeasible,
		"interleavings_redundant":         tot.Redundant,
		"assertions_reached":              tot.Asserts,
		"assertions_discharged_by_solver": tot.AssertProved,
		"assertions_trivial":              tot.AssertTrivial,
		"branch_queries":                  tot.Branches,
		"branches_forced":                 tot.Forced,
		"visible_concurrency_steps":       tot.VisSteps,
		"solver":                          map[string]interface{}{"bin": solverBin(), "queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "fallbacks": fb, "answered_from_unsat_cache": ch, "seconds": round3(st), "max_query_seconds": round3(mx)},
		"functions_encoded":               fns,
		"library_functions_encoded":       other,
		"harnesses":                       reps,
		"bounds":                          boundsOf(env, pid),
		"native_disagreements":            disagree,
		"load_and_ssa_seconds":            round3(loadSecs),
	}
	if len(disList) > 0 {
		cov["disagreement_list"] = disList
	}
	if len(confirmed) > 0 {
		cov["violations_reported"] = confirmed
	}
	if len(unconfirmed) > 0 {
		cov["counterexamples_not_reproduced"] = unconfirmed
	}
	ev := map[string]interface{}{
		"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round3(wall), "violations": nviol,
		"assumptions": []string{
			"the go/ssa form built from /repo's working tree is what the compiler implements; the interpreter's instruction semantics are cross-checked natively on every run (traces_validated_against_impl)",
			"sequentially consistent interleavings at synchronisation operations; happens-before data races are reported as violations",
			"sync.Pool, math/rand, select, map iteration order and timers are nondeterministic; context, ants.Pool, fmt and sort.Slice are modelled (engine/go/stubs)",
			"nothing is claimed outside the stated bounds",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(env.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(env.verif, "evidence", pid+".json"), b, 0o644)
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

// boundsOf collects the "bounds:" comments of the property's harnesses.
func boundsOf(env *Env, pid string) []string {
	var out []string
	var files []string
	for v, r := range env.files {
		if strings.Contains(v, "/zzverif/") {
			files = append(files, r)
		}
	}
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		var cur []string
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//") {
				cur = append(cur, strings.TrimSpace(l[2:]))
				continue
			}
			if strings.HasPrefix(l, "func "+pid+"_") {
				txt := strings.Join(cur, " ")
				if i := strings.Index(txt, "Bounds:"); i >= 0 {
					out = append(out, l[5:strings.IndexByte(l, '(')]+": "+txt[i+8:])
				}
			}
			cur = nil
		}
	}
	return out
}
