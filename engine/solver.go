package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one z3 process fed incrementally over a pipe.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Errors   int64
	Time     time.Duration
	bin      string
}

func newSolver(bin string) *Solver {
	s := &Solver{declared: map[string]bool{}, bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		panic(engineErr("cannot start solver: " + err.Error()))
	}
	io.WriteString(s.in, "(set-option :print-success false)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
	s.declared = map[string]bool{}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

type Verdict int

const (
	VUnsat Verdict = iota
	VSat
	VUnknown
)

// check decides the conjunction of the given terms; when sat and wantModel, returns values of vars.
func (s *Solver) check(tt *TermTable, cs []*Term, wantModel bool) (Verdict, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	sb := &strings.Builder{}
	var vars []int32
	for _, c := range cs {
		vars = mergeVars(vars, c.vars)
	}
	for _, v := range vars {
		n := tt.varName(v)
		if !s.declared[n] {
			fmt.Fprintf(sb, "(declare-const %s (_ BitVec %d))\n", n, tt.vars[v].w)
			s.declared[n] = true
		}
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		tt.smtAssert(c, sb)
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		panic(engineErr("solver pipe: " + err.Error()))
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineErr("solver died: " + err.Error()))
	}
	line = strings.TrimSpace(line)
	res := VUnknown
	var model map[int32]uint64
	switch line {
	case "sat":
		res = VSat
		s.Sat++
		if wantModel && len(vars) > 0 {
			q := &strings.Builder{}
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(tt.varName(v) + " ")
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			txt := s.readSexp()
			model = parseModel(txt)
		}
	case "unsat":
		res = VUnsat
		s.Unsat++
	case "unknown":
		s.Unknown++
	default:
		s.Errors++
		if strings.HasPrefix(line, "(error") {
			panic(engineErr("solver error: " + line))
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, model
}

func (s *Solver) readSexp() string {
	depth := 0
	sb := &strings.Builder{}
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(engineErr("solver died"))
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return sb.String()
			}
		}
	}
}

func parseModel(txt string) map[int32]uint64 {
	m := map[int32]uint64{}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); i += 2 {
		name, val := f[i], f[i+1]
		u := strings.IndexByte(name, '_')
		id, _ := strconv.Atoi(name[1:u])
		var v uint64
		switch {
		case strings.HasPrefix(val, "#x"):
			v, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, _ = strconv.ParseUint(val[2:], 2, 64)
		default:
			panic(engineErr("model: " + txt))
		}
		m[int32(id)] = v
	}
	return m
}

// raw decides a self-contained script fragment inside its own scope.
func (s *Solver) raw(script string) Verdict {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if _, err := io.WriteString(s.in, "(push 1)\n"+script+"(check-sat)\n(pop 1)\n"); err != nil {
		panic(engineErr("solver pipe: " + err.Error()))
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineErr("solver died: " + err.Error()))
	}
	switch strings.TrimSpace(line) {
	case "sat":
		s.Sat++
		return VSat
	case "unsat":
		s.Unsat++
		return VUnsat
	case "unknown":
		s.Unknown++
		return VUnknown
	}
	panic(engineErr("solver error: " + line))
}
