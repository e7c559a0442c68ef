package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type cacheEnt struct {
	res   Result
	model []uint64 // parallel to vars of the query
	vars  []int32
}

type Solver struct {
	tf       *TF
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared int
	cache    map[string]*cacheEnt
	bin      string
	timeout  int // ms
	// stats
	Queries, CacheHits, NSat, NUnsat, NUnknown int64
	Time                                       time.Duration
	MaxTime                                    time.Duration
	nproc                                      int
	cross                                      *Solver // second solver used to cross-check a sample of verdicts
	crossEvery                                 int64
	CrossChecked, CrossDisagree                int64
}

func NewSolver(tf *TF, bin string, timeoutMs int) *Solver {
	return &Solver{tf: tf, bin: bin, timeout: timeoutMs, cache: map[string]*cacheEnt{}}
}

func (s *Solver) start() error {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	} else {
		args = []string{"-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = 0
	s.nproc = 0
	if strings.Contains(s.bin, "cvc5") {
		io.WriteString(s.in, "(set-logic QF_BVFP)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.cross != nil {
		s.cross.Close()
	}
}

// Check decides the conjunction of cs (already sliced by the caller).
func (s *Solver) Check(cs []*Term) (Result, []int32, []uint64) {
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		ids = append(ids, int(c.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.CacheHits++
		return e.res, e.vars, e.model
	}
	var vars []int32
	for _, c := range cs {
		vars = mergeVars(vars, c.vars)
	}
	res, vals := s.raw(cs, vars)
	e := &cacheEnt{res: res, model: vals, vars: vars}
	s.cache[key] = e
	if s.cross != nil && res != Unknown && s.Queries%s.crossEvery == 0 {
		r2, _ := s.cross.raw(cs, nil)
		if r2 != Unknown {
			s.CrossChecked++
			if r2 != res {
				s.CrossDisagree++
			}
		}
	}
	return res, vars, vals
}

func (s *Solver) raw(cs []*Term, vars []int32) (Result, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	if s.cmd != nil && s.nproc > 20000 {
		s.Close0()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.NUnknown++
			return Unknown, nil
		}
	}
	s.nproc++
	var sb strings.Builder
	for ; s.declared < len(s.tf.varlist); s.declared++ {
		v := s.tf.varlist[s.declared]
		if v.w == 0 {
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", v.name)
		} else {
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", v.name, v.w)
		}
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		printTerm(&sb, c)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Close0()
		s.NUnknown++
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.Close0()
		s.NUnknown++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.NUnsat++
		io.WriteString(s.in, "(pop 1)\n")
		return Unsat, nil
	case "sat":
		s.NSat++
		vals := make([]uint64, len(vars))
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(s.tf.varlist[v].name)
				q.WriteByte(' ')
			}
			q.WriteString("))\n(pop 1)\n")
			io.WriteString(s.in, q.String())
			txt, err := s.readSexp()
			if err != nil || strings.Contains(txt, "error") {
				s.Close0()
				s.NUnknown++
				return Unknown, nil
			}
			m := parseValues(txt)
			for i, v := range vars {
				vals[i] = m[s.tf.varlist[v].name]
			}
		} else {
			io.WriteString(s.in, "(pop 1)\n")
		}
		return Sat, vals
	default:
		// unknown, timeout, (error ...
		s.Close0()
		s.NUnknown++
		return Unknown, nil
	}
}

func (s *Solver) Close0() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		if started && depth <= 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string) map[string]uint64 {
	m := map[string]uint64{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	for i := 0; i < len(toks); i++ {
		if toks[i] == "(" || toks[i] == ")" {
			continue
		}
		name := toks[i]
		if i+1 >= len(toks) {
			break
		}
		v := toks[i+1]
		switch {
		case v == "true":
			m[name] = 1
			i++
		case v == "false":
			m[name] = 0
			i++
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = u
			i++
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = u
			i++
		case v == "(" && i+3 < len(toks) && toks[i+2] == "_":
			u, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
			m[name] = u
			i += 5
		}
	}
	return m
}
