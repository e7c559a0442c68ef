package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PropCfg struct {
	Quick    int   // seconds for exploration
	Thorough int   // seconds
	Steps    int64 // step limit per path
	Bounds   string
	Level    string
}

func fatal(code int, format string, a ...any) {
	fmt.Printf(format+"\n", a...)
	if hsrc != "" {
		os.RemoveAll(hsrc)
	}
	os.Exit(code)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "only harnesses containing this")
	replay := flag.String("replay", "", "replay a counterexample file")
	budget := flag.Int("budget", 0, "seconds")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	list := flag.Bool("list", false, "list harnesses")
	noValidate := flag.Bool("novalidate", false, "")
	maxViol := flag.Int("maxviol", 12, "")
	verbose := flag.Bool("v", false, "")
	flag.BoolVar(&debugFlag, "debug", false, "print engine errors")
	flag.Parse()

	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	hdir := filepath.Join(*verif, "harness")
	t0 := time.Now()

	hsrc, _ = os.MkdirTemp("", "gredis-verif-")
	if err := prefixed(hdir, hsrc); err != nil {
		os.RemoveAll(hsrc)
		fatal(2, "error: %v", err)
	}
	ovf, err := overlayFiles(*repo, hdir)
	if err != nil {
		fatal(2, "error: %v", err)
	}
	ov := map[string][]byte{}
	for k, f := range ovf {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal(2, "error: %v", err)
		}
		ov[k] = b
	}
	os.Setenv("CGO_ENABLED", "0")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOSUMDB", "off")
	prog, err := loadProgram(*repo, ov, "gRedis")
	if err != nil {
		fatal(2, "error: cannot load %s with the harness: %v", *repo, err)
	}
	var all []string
	hs := map[string]*ssa.Function{}
	for n, m := range prog.mainPkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
			all = append(all, n)
			hs[n] = f
		}
	}
	sort.Strings(all)
	if *list {
		for _, n := range all {
			fmt.Println(n)
		}
		return
	}
	nat, err := newNative(*repo, hdir, all)
	if err != nil {
		fatal(2, "error: %v", err)
	}
	defer nat.close()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(2, "error: %v", err)
		}
		var rf ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fatal(2, "error: %v", err)
		}
		r, _ := confirm(nat, &rf)
		fmt.Printf("replay of %s (%s): reproduced=%v observed=%s\n%s\n", rf.Harness, rf.Label, r.fail, r.kind, r.text)
		nat.close()
		if r.fail {
			os.Exit(1)
		}
		return
	}

	pc, ok := props[*prop]
	if !ok {
		fatal(2, "error: unknown property %q", *prop)
	}
	var sel []string
	for _, n := range all {
		if strings.HasPrefix(n, "H_"+*prop+"_") && strings.Contains(n, *only) {
			sel = append(sel, n)
		}
	}
	if len(sel) == 0 {
		fatal(2, "error: no harness for %s", *prop)
	}
	cfg := &Config{MaxDecisions: 4000, MaxConcretize: 300, MaxAlloc: 1 << 16, SymAlloc: 64, MaxSteps: 400_000, Solver: "z3-new", SolverTimeout: 20000, TermLimit: 6_000_000}
	if pc.Steps > 0 {
		cfg.MaxSteps = pc.Steps
	}
	total := time.Duration(pc.Quick) * time.Second
	if tier == "thorough" {
		cfg.Tier = 1
		total = time.Duration(pc.Thorough) * time.Second
	}
	if *budget > 0 {
		total = time.Duration(*budget) * time.Second
	}
	cfg.All = *verbose
	cfg.Cross = "cvc5"
	cfg.CrossEvery = 200
	var ws []*Worker
	for i := 0; i < *nw; i++ {
		ws = append(ws, newWorker(prog, cfg, i))
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"), *prop)

	ev := &evidence{prop: *prop, tier: tier, seed: seed, pc: pc, cfg: cfg}
	violations := 0
	validated, validateDiv := 0, 0
	var notes []string
	explDeadline := time.Now().Add(total)
	rdir := filepath.Join(*verif, "replays")
	os.MkdirAll(rdir, 0755)
	var firstReplay string
	total0 := newStats()
	reduced := []string{}
	exploreTime := time.Duration(0)

	// judge confirms the candidates of a harness on the real code and, where
	// there are none, runs a sample of its paths natively.
	judge := func(h *hrun) bool {
		n, run := h.name, h.run
		stop := false
		seen := map[string]bool{}
		viols := run.viols[h.judged:]
		h.judged = len(run.viols)
		sort.SliceStable(viols, func(a, b int) bool { return viols[a].PathLen < viols[b].PathLen })
		tried := 0
		for _, vi := range viols {
			key := vi.Kind + vi.Label + vi.Detail
			if seen[key] || tried > 12 || (tier == "quick" && time.Since(t0) > 780*time.Second) {
				continue
			}
			tried++
			rf := &ReplayFile{Property: *prop, Harness: n, Kind: vi.Kind, Label: vi.Label, Detail: vi.Detail, Tier: cfg.Tier, Inputs: vi.Inputs, Schedule: vi.Sched, Readable: readable(vi.Inputs)}
			if rf.Inputs == nil {
				rf.Inputs = []Input{}
			}
			r, conf := confirm(nat, rf)
			if *verbose {
				fmt.Printf("  candidate %s %s [%s] %s -> reproduced=%v (%s) %s\n", vi.Kind, vi.Label, vi.Detail, rf.Readable, r.fail, r.kind, conf)
				if !r.fail {
					fmt.Println(r.text)
				}
			}
			if !r.fail {
				notes = append(notes, fmt.Sprintf("candidate %s/%s in %s did not reproduce on the real code (%s): not reported", vi.Kind, vi.Label, n, firstLine(r.text)))
				continue
			}
			seen[key] = true
			if k := known.match(rf, r); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
				continue
			}
			violations++
			rf.Observed = r.kind
			path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", *prop, strings.TrimPrefix(n, "H_"), violations))
			bb, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, bb, 0644)
			if firstReplay == "" {
				firstReplay = path
			}
			fmt.Printf("violation: harness %s, %s %s %s\n  inputs: %s\n  observed on the real code: %s\n", n, vi.Kind, vi.Label, vi.Detail, rf.Readable, r.kind)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			stop = true
			if !*verbose {
				break
			}
		}
		if !stop && !*noValidate && len(run.viols) == 0 && !h.sampled {
			h.sampled = true
			cases := run.pickSamples(seed, 24)
			ran, div, bad, r := nat.validate(cases, 60*time.Second)
			validated += ran
			validateDiv += div
			if *verbose && (div > 0 || ran < len(cases)) {
				fmt.Printf("    validation: %d/%d ran, %d diverged: %s\n", ran, len(cases), div, r.text)
			}
			if r.diverged && div == 0 && bad == nil {
				notes = append(notes, "native validation unavailable: "+firstLine(r.text))
			}
			if bad != nil {
				violations++
				bad.Property = *prop
				bad.Observed = r.kind
				path := filepath.Join(rdir, fmt.Sprintf("%s-%s-native.json", *prop, strings.TrimPrefix(n, "H_")))
				bb, _ := json.MarshalIndent(bad, "", " ")
				os.WriteFile(path, bb, 0644)
				fmt.Printf("violation: harness %s fails on the real code for a path the encoding passes: %s\n", n, r.kind)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
				stop = true
			}
		}
		return stop
	}
	var runs []*hrun
	for _, n := range sel {
		runs = append(runs, newHrun(hs[n], *maxViol))
	}
	// Every harness gets an equal share of what is left; those with paths left
	// are taken up again with the time the others did not need.
	pending := runs
	stopped := false
	for round := 0; len(pending) > 0 && !stopped; round++ {
		var next []*hrun
		for i, h := range pending {
			left := time.Until(explDeadline)
			b := left / time.Duration(len(pending)-i)
			if round == 0 {
				if b < 2*time.Second {
					b = 2 * time.Second
				}
			} else if left < 2*time.Second {
				next = append(next, h)
				continue
			}
			seenViols := len(h.run.viols)
			h.explore(ws, b)
			if (h.finished || round == 0 || len(h.run.viols) > seenViols) && judge(h) {
				stopped = true
				if !*verbose {
					break
				}
				h.finished = true
			}
			if !h.finished {
				next = append(next, h)
			}
			if *verbose {
				h.print()
			}
		}
		pending = next
		if time.Until(explDeadline) < 2*time.Second {
			break
		}
	}
	for _, h := range runs {
		exploreTime += h.dur
		total0.add(h.st)
		ev.harness = append(ev.harness, harnessEvidence(h.name, h.st, !h.finished || h.q.halted, h.dur))
		if h.q.halted {
			reduced = append(reduced, fmt.Sprintf("%s: exploration stopped at %d candidate violations", h.name, len(h.run.viols)))
		}
		if !h.finished {
			reduced = append(reduced, fmt.Sprintf("%s: exploration stopped after %.0fs with paths left", h.name, h.dur.Seconds()))
		}
	}
	for _, w := range ws {
		w.solver.Close()
	}
	ev.stats = total0
	ev.violations = violations
	ev.validated = validated
	ev.diverged = validateDiv
	ev.notes = notes
	ev.reduced = reduced
	ev.exploreTime = exploreTime
	ev.loadTime = prog.LoadTime
	ev.buildTime = nat.buildTime
	ev.wall = time.Since(t0)
	if *only == "" {
		if err := ev.write(filepath.Join(*verif, "evidence", *prop+".json")); err != nil {
			fmt.Println("error writing evidence:", err)
			nat.close()
			os.Exit(2)
		}
	}
	nat.close()
	fmt.Printf("%s %s: harnesses=%d paths=%d (complete %d) branch decisions=%d solver queries=%d (cached %d) solver time=%.1fs assertions=%d native traces=%d violations=%d wall=%.1fs\n",
		*prop, tier, len(ev.harness), total0.Paths, total0.PathsOK, total0.Decisions+total0.Choices, total0.Queries, total0.CacheHits, total0.SolverTime.Seconds(), total0.Asserts, validated, violations, time.Since(t0).Seconds())
	for _, r := range reduced {
		fmt.Println("reduced bound:", r)
	}
	if violations > 0 {
		os.Exit(1)
	}
}

func (h *hrun) print() {
	st := h.st
	fmt.Printf("%-40s paths=%d ok=%d assume=%d pruned=%d unsup=%d bounded=%d viol=%d q=%d cache=%d solver=%.1fs steps=%dk %.1fs timeout=%v\n", h.name, st.Paths, st.PathsOK, st.PathsAssume, st.PathsPruned, st.PathsUnsupported, st.PathsBounded, len(h.run.viols), st.Queries, st.CacheHits, st.SolverTime.Seconds(), st.Steps/1000, h.dur.Seconds(), !h.finished)
	for k, c := range st.Unsupported {
		fmt.Printf("    unsupported %dx %s\n", c, k)
	}
	for k, c := range st.Bounded {
		fmt.Printf("    bounded %dx %s\n", c, k)
	}
	for k, c := range st.Reach {
		fmt.Printf("    reach %s %d\n", k, c)
	}
}

func readable(ins []Input) string {
	var sb strings.Builder
	for i, in := range ins {
		if i > 0 {
			sb.WriteByte(' ')
		}
		switch in.Kind {
		case "bytes":
			b := make([]byte, len(in.B))
			for i, x := range in.B {
				b[i] = byte(x)
			}
			fmt.Fprintf(&sb, "%s=%q", in.Name, b)
		default:
			fmt.Fprintf(&sb, "%s=%d", in.Name, in.I)
		}
	}
	return sb.String()
}

// confirm replays a candidate against the real code.
func confirm(n *Native, rf *ReplayFile) (replayOut, string) {
	switch rf.Kind {
	case "race":
		r := n.runCase(rf, "race", 3000, 60*time.Second)
		return r, "race stress"
	case "hang":
		return n.runCase(rf, "sched", 1, 20*time.Second), "timeout"
	}
	r := n.runCase(rf, "sched", 1, 30*time.Second)
	if r.fail {
		return r, "first run"
	}
	r = n.runCase(rf, "sched", 400, 60*time.Second)
	if r.fail {
		return r, "repeated"
	}
	return r, "not reproduced"
}
