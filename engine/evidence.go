package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	prop, tier                      string
	seed                            int
	pc                              PropCfg
	cfg                             *Config
	harness                         []map[string]any
	stats                           *Stats
	violations, validated, diverged int
	notes, reduced                  []string
	exploreTime, loadTime           time.Duration
	buildTime, wall                 time.Duration
}

func harnessEvidence(n string, st *Stats, timedOut bool, dur time.Duration) map[string]any {
	return map[string]any{
		"harness": n, "paths": st.Paths, "paths_complete": st.PathsOK, "paths_infeasible_assumption": st.PathsAssume,
		"schedules_pruned_equivalent": st.PathsPruned, "paths_outside_encoding": st.PathsUnsupported, "paths_over_bound": st.PathsBounded,
		"assertions_decided": st.Asserts, "queries": st.Queries, "query_cache_hits": st.CacheHits, "sat": st.NSat, "unsat": st.NUnsat, "unknown": st.NUnknown,
		"solver_s": round(st.SolverTime.Seconds()), "max_query_s": round(st.MaxQuery.Seconds()), "wall_s": round(dur.Seconds()),
		"exhausted_within_bounds": !timedOut && st.PathsUnsupported == 0 && st.NUnknown == 0, "reach_witnesses": st.Reach, "steps": st.Steps,
		"max_path_decisions": st.MaxDecisions, "sync_operations": st.SyncOps,
	}
}

func round(x float64) float64 { return float64(int64(x*1000+0.5)) / 1000 }

func keys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (e *evidence) write(path string) error {
	st := e.stats
	exh := len(e.reduced) == 0 && st.PathsUnsupported == 0 && st.NUnknown == 0 && e.violations == 0
	unreach := []string{}
	for _, h := range e.harness {
		if r, ok := h["reach_witnesses"].(map[string]int64); !ok || len(r) == 0 {
			unreach = append(unreach, h["harness"].(string))
		}
	}
	cov := map[string]any{
		"states":                        st.Paths,
		"transitions":                   st.Decisions + st.Choices,
		"traces_validated_against_impl": e.validated,
		"samples":                       st.Samples,
		"exhaustive":                    exh,
		"explanation":                   "states = symbolic paths of the real code (each a set of inputs given by its path condition); transitions = symbolic branch, map-order and scheduling decisions; traces_validated = complete paths whose solver model was executed natively against the real code with the same assertions",
		"bounds":                        e.pc.Bounds,
		"functions_encoded":             keys(st.Funcs),
		"functions_encoded_count":       len(st.Funcs),
		"std_functions_encoded_count":   len(st.StdFuncs),
		"stand_ins_used":                keys(st.Intrinsics),
		"harnesses":                     e.harness,
		"solver":                        map[string]any{"name": e.cfg.Solver, "queries": st.Queries, "cache_hits": st.CacheHits, "sat": st.NSat, "unsat": st.NUnsat, "unknown": st.NUnknown, "time_s": round(st.SolverTime.Seconds()), "longest_query_s": round(st.MaxQuery.Seconds()), "cross_checked_with_cvc5": st.CrossChecked, "cross_check_disagreements": st.CrossDisagree},
		"assertions":                    map[string]any{"evaluated": st.Asserts, "folded_by_simplification": st.AssertsFolded, "decided_by_solver": st.AssertsSolver, "labels": st.Labels},
		"outside_bounds":                map[string]any{"reduced": e.reduced, "unsupported": st.Unsupported, "over_bound": st.Bounded},
		"harnesses_without_witness":     unreach,
		"native_divergences":            e.diverged,
		"notes":                         e.notes,
		"time_s":                        map[string]any{"load_and_encode": round(e.loadTime.Seconds()), "explore": round(e.exploreTime.Seconds()), "native_build": round(e.buildTime.Seconds())},
	}
	if len(st.Samples) == 0 {
		cov["samples"] = []string{"(no complete path with inputs)"}
	}
	out := map[string]any{
		"property": e.prop, "tier": e.tier, "seed": e.seed, "level": e.pc.Level, "coverage": cov, "wall_s": round(e.wall.Seconds()), "violations": e.violations,
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(path[:strings.LastIndexByte(path, '/')], 0755)
	return os.WriteFile(path, append(b, '\n'), 0644)
}

var assumptions = []string{
	"the Go SSA form built by golang.org/x/tools/go/ssa from /repo's current source has the semantics of the compiled program (sampled paths are replayed natively)",
	"stand-ins: the clock is a harness-controlled number of whole seconds; logging, printing and the log file have no effect; sync primitives, channels and goroutines are modelled by the engine; map iteration order is arbitrary where the harness says so and insertion order otherwise",
	"memory is unbounded up to 64 GiB single allocations; stack overflow is reached at call depth 3000",
	"z3 verdicts are trusted (a sample of queries is cross-checked with cvc5)",
}

// ---- known findings ----

type knownSet struct{ ents []knownEnt }
type knownEnt struct {
	Status   string `json:"status"` // "known" suppresses, "fixed" does not
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Match    string `json:"match"` // substring of the readable inputs
	What     string `json:"what"`
}

func loadKnown(path, prop string) *knownSet {
	ks := &knownSet{}
	f, err := os.Open(path)
	if err != nil {
		return ks
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var k knownEnt
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Status == "known" && k.Property == prop {
			ks.ents = append(ks.ents, k)
		}
	}
	return ks
}

func (ks *knownSet) match(rf *ReplayFile, r replayOut) string {
	for _, k := range ks.ents {
		if k.Harness == rf.Harness && k.Label == rf.Label && k.Match != "" && strings.Contains(rf.Readable, k.Match) {
			return fmt.Sprintf("%s [%s]", k.What, rf.Readable)
		}
	}
	return ""
}

func (r *Run) pickSamples(seed, n int) []*ReplayFile {
	if len(r.samples) <= n {
		return r.samples
	}
	// deterministic spread
	var out []*ReplayFile
	step := float64(len(r.samples)) / float64(n)
	for i := 0; i < n; i++ {
		out = append(out, r.samples[(int(float64(i)*step)+seed)%len(r.samples)])
	}
	return out
}
