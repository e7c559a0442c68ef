package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ReplayFile is one concrete case, as run against the real code.
type ReplayFile struct {
	Property string  `json:"property,omitempty"`
	Harness  string  `json:"harness"`
	Kind     string  `json:"kind"`
	Label    string  `json:"label"`
	Detail   string  `json:"detail,omitempty"`
	Tier     int     `json:"tier"`
	Inputs   []Input `json:"inputs"`
	Schedule []int   `json:"schedule,omitempty"`
	Readable string  `json:"readable,omitempty"`
	Observed string  `json:"observed,omitempty"`
}

type Native struct {
	repo, hdir string
	scratch    string
	bin        map[string]string // mode -> binary
	err        map[string]error
	harnesses  []string
	buildTime  time.Duration
}

// hsrc holds the prefixed copies of the harness files.
var hsrc string

func overlayFiles(repo, hdir string) (map[string]string, error) {
	m := map[string]string{}
	fs, err := filepath.Glob(filepath.Join(hsrc, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		m[filepath.Join(repo, "zzh_"+filepath.Base(f))] = f
	}
	m[filepath.Join(repo, "zzverif", "zzverif.go")] = filepath.Join(hdir, "zzverif", "zzverif.go")
	return m, nil
}

func newNative(repo, hdir string, harnesses []string) (*Native, error) {
	d, err := os.MkdirTemp("", "gredis-verif-")
	if err != nil {
		return nil, err
	}
	return &Native{repo: repo, hdir: hdir, scratch: d, bin: map[string]string{}, err: map[string]error{}, harnesses: harnesses}, nil
}

func (n *Native) close() { os.RemoveAll(n.scratch); os.RemoveAll(hsrc) }

// rewrite replaces the clock (and, if asked, sync) by the controlled stand-ins.
func rewrite(src []byte, fname string, syncToo bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, fname, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	type edit struct {
		lo, hi int
		s      string
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// package path -> function -> its stand-in
	standIns := map[string]map[string]string{
		"time":      {"Now": "zzverif.Now", "Since": "zzverif.Now().Sub"},
		"net":       {"Listen": "zzverif.Listen"},
		"os/signal": {"Notify": "zzverif.Notify", "NotifyContext": "zzverif.NotifyContext", "Stop": "zzverif.StopNotify"},
		"os":        {"Exit": "zzverif.Exit"},
	}
	keep := map[string]string{"time": "var _ %s.Duration", "net": "var _ %s.Addr", "os/signal": "var _ = %s.Ignored", "os": "var _ %s.Signal"}
	names := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "time", "net", "os/signal", "os":
			nm := filepath.Base(path)
			if im.Name != nil {
				nm = im.Name.Name
			}
			if nm != "_" && nm != "." {
				names[nm] = path
			}
		case "sync", "sync/atomic":
			if !syncToo {
				continue
			}
			to := map[string]string{"sync": `sync "gRedis/zzverif/vsync"`, "sync/atomic": `atomic "gRedis/zzverif/vatomic"`}[path]
			if im.Name != nil {
				to = im.Name.Name + to[strings.IndexByte(to, ' '):]
			}
			eds = append(eds, edit{off(im.Pos()), off(im.End()), to})
		}
	}
	used := map[string]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		se, ok := nd.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		if to := standIns[names[id.Name]][se.Sel.Name]; to != "" {
			eds = append(eds, edit{off(se.Pos()), off(se.End()), to})
			used[id.Name] = true
		}
		return true
	})
	if len(eds) == 0 {
		return nil, false
	}
	if len(used) > 0 {
		p := off(f.Name.End())
		eds = append(eds, edit{p, p, "; import zzverif \"gRedis/zzverif\""})
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].lo > eds[j].lo })
	out := append([]byte(nil), src...)
	for _, e := range eds {
		out = append(out[:e.lo:e.lo], append([]byte(e.s), out[e.hi:]...)...)
	}
	for nm := range used {
		out = append(out, []byte("\n"+fmt.Sprintf(keep[names[nm]], nm)+"\n")...)
	}
	return out, true
}

func (n *Native) build(mode string) (string, error) {
	if b, ok := n.bin[mode]; ok {
		return b, n.err[mode]
	}
	t0 := time.Now()
	defer func() { n.buildTime += time.Since(t0) }()
	ov, err := overlayFiles(n.repo, n.hdir)
	if err != nil {
		return "", err
	}
	ov[filepath.Join(n.repo, "zzverif", "vsync", "vsync.go")] = filepath.Join(n.hdir, "vsync", "vsync.go")
	ov[filepath.Join(n.repo, "zzverif", "vatomic", "vatomic.go")] = filepath.Join(n.hdir, "vatomic", "vatomic.go")
	dir := filepath.Join(n.scratch, mode)
	os.MkdirAll(dir, 0755)
	k := 0
	filepath.Walk(n.repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && path != n.repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		if out, ok := rewrite(src, path, mode == "sched"); ok {
			k++
			dst := filepath.Join(dir, fmt.Sprintf("r%d_%s", k, filepath.Base(path)))
			os.WriteFile(dst, out, 0644)
			ov[path] = dst
		}
		return nil
	})
	var sb strings.Builder
	sb.WriteString("package main\n\nvar zzHarnesses = map[string]func(){\n")
	for _, h := range n.harnesses {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h, h)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(dir, "zz_reg_test.go")
	os.WriteFile(reg, []byte(sb.String()), 0644)
	ov[filepath.Join(n.repo, "zz_reg_test.go")] = reg
	ov[filepath.Join(n.repo, "zz_replay_test.go")] = filepath.Join(n.hdir, "replay", "zz_replay_test.go.txt")
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	ojf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ojf, oj, 0644)
	bin := filepath.Join(dir, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ojf, "-o", bin}
	if mode == "race" {
		args = append(args, "-race")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cg := "0"
	if mode == "race" {
		cg = "1"
	}
	cmd.Env = append(os.Environ(), "CGO_ENABLED="+cg, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		s := string(out)
		if len(s) > 2000 {
			s = s[:2000]
		}
		err = fmt.Errorf("building replay binary (%s): %v\n%s", mode, err, s)
	}
	n.bin[mode], n.err[mode] = bin, err
	return bin, err
}

type replayOut struct {
	fail     bool
	kind     string
	text     string
	diverged bool
	ran      int
}

// runBatch runs concrete cases; each case is repeated iters times.
func (n *Native) runCase(rf *ReplayFile, mode string, iters int, timeout time.Duration) replayOut {
	bin, err := n.build(mode)
	if err != nil {
		return replayOut{text: err.Error(), diverged: true}
	}
	f := filepath.Join(n.scratch, "case.json")
	b, _ := json.Marshal(map[string]any{"cases": []*ReplayFile{rf}, "iters": iters, "stress": mode == "race"})
	os.WriteFile(f, b, 0644)
	return n.exec(bin, f, timeout)
}

func (n *Native) exec(bin, f string, timeout time.Duration) replayOut {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZZReplay$", "-test.timeout", "0", "-test.v")
	wd := filepath.Join(n.scratch, "wd")
	os.MkdirAll(wd, 0755)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f, "TMPDIR="+wd, "GOMEMLIMIT=6GiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1")
	var out bytes.Buffer
	cmd.Stdout = &limitWriter{b: &out, n: 1 << 20}
	cmd.Stderr = &limitWriter{b: &out, n: 1 << 20}
	err := cmd.Run()
	s := out.String()
	r := replayOut{text: tail(s, 1500)}
	if i := strings.LastIndex(s, "ZZRAN "); i >= 0 {
		fmt.Sscanf(s[i:], "ZZRAN %d", &r.ran)
	}
	switch {
	case strings.Contains(s, "ZZFAIL "):
		r.fail = true
		l := s[strings.Index(s, "ZZFAIL "):]
		if i := strings.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		r.kind = strings.TrimPrefix(l, "ZZFAIL ")
	case strings.Contains(s, "DATA RACE"):
		r.fail = true
		r.kind = "data race (race detector)"
	case ctx.Err() != nil:
		r.fail = true
		r.kind = "hang (no result within " + timeout.String() + ")"
	case strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:"):
		r.fail = true
		r.kind = "crash"
		if i := strings.Index(s, "panic:"); i >= 0 {
			r.kind = "crash: " + firstLine(s[i:])
		} else if i := strings.Index(s, "fatal error:"); i >= 0 {
			r.kind = "crash: " + firstLine(s[i:])
		}
	case err != nil && !strings.Contains(s, "ZZDIVERGED"):
		r.fail = true
		r.kind = "process ended: " + err.Error()
	}
	if strings.Contains(s, "ZZDIVERGED") {
		r.diverged = true
	}
	return r
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// validate runs sampled complete paths natively: the real code must satisfy the
// same assertions on them. It returns the number confirmed and a failing case.
func (n *Native) validate(cases []*ReplayFile, timeout time.Duration) (int, int, *ReplayFile, replayOut) {
	if len(cases) == 0 {
		return 0, 0, nil, replayOut{}
	}
	bin, err := n.build("sched")
	if err != nil {
		return 0, 0, nil, replayOut{text: err.Error(), diverged: true}
	}
	f := filepath.Join(n.scratch, "cases.json")
	b, _ := json.Marshal(map[string]any{"cases": cases, "iters": 1, "stress": false})
	os.WriteFile(f, b, 0644)
	r := n.exec(bin, f, timeout)
	if r.fail {
		// find the failing case by itself
		for _, c := range cases {
			if r1 := n.runCase(c, "sched", 1, 20*time.Second); r1.fail {
				// a genuine failure is stable; a slow machine is not a violation
				if n.runCase(c, "sched", 1, 60*time.Second).fail && n.runCase(c, "sched", 1, 60*time.Second).fail {
					return r.ran, 0, c, r1
				}
			}
		}
	}
	div := strings.Count(r.text, "ZZDIVERGED")
	return r.ran, div, nil, r
}
