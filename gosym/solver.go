package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// A solver is one z3 process fed incrementally. Each path lives in its own push scope.
type solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	vars    []*Term // declared in the current path scope
	inPath  bool
	stats   *solverStats
	bin     string
	log     *strings.Builder // current path's script (for cross-checking with a second solver)
	dead    bool
}

type solverStats struct {
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
}

type solverError struct{ msg string }

func newSolver(bin string) (*solver, error) {
	s := &solver{bin: bin, stats: &solverStats{}}
	return s, s.start()
}

func (s *solver) start() error {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "-q"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.raw("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin, "z3") {
		s.raw("(set-option :timeout 60000)\n")
	}
	s.raw("(set-logic QF_BV)\n")
	return nil
}

func (s *solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *solver) raw(str string) {
	if s.log != nil {
		s.log.WriteString(str)
	}
	s.in.WriteString(str)
}

func (s *solver) beginPath() {
	if s.inPath {
		s.raw("(pop 1)\n")
	}
	if s.log != nil {
		s.log.Reset()
	}
	s.raw("(push 1)\n")
	s.defined = make(map[int]bool)
	s.vars = s.vars[:0]
	s.inPath = true
}

func (s *solver) define(t *Term) {
	if s.defined[t.id] || t.op == tConst {
		return
	}
	if t.op == tVar {
		s.defined[t.id] = true
		s.vars = append(s.vars, t)
		s.raw("(declare-const " + t.leafString() + " " + sortName(t.w) + ")\n")
		return
	}
	for _, x := range t.a {
		s.define(x)
	}
	s.defined[t.id] = true
	s.raw("(define-fun t" + strconv.Itoa(t.id) + " () " + sortName(t.w) + " " + t.body() + ")\n")
}

func (s *solver) assert(t *Term) {
	s.define(t)
	s.raw("(assert " + t.leafString() + ")\n")
}

func (s *solver) readLine() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		panic(solverError{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(line)
}

// check decides pc and extra; on sat it returns a model.
func (s *solver) check(extra *Term, wantModel bool) (string, model) {
	t0 := time.Now()
	if extra != nil {
		s.define(extra)
		s.raw("(push 1)\n(assert " + extra.leafString() + ")\n")
	}
	s.raw("(check-sat)\n")
	s.in.Flush()
	res := s.readLine()
	s.stats.Queries++
	var md model
	switch res {
	case "sat":
		s.stats.Sat++
		if wantModel && len(s.vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range s.vars {
				sb.WriteString(v.leafString())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.raw(sb.String())
			s.in.Flush()
			md = s.readModel()
		} else {
			md = model{}
		}
	case "unsat":
		s.stats.Unsat++
	default:
		if strings.Contains(res, "error") {
			panic(solverError{res})
		}
		s.stats.Unknown++
		res = "unknown"
	}
	if extra != nil {
		s.raw("(pop 1)\n")
	}
	s.stats.Time += time.Since(t0)
	return res, md
}

func (s *solver) readModel() model {
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(solverError{"solver died reading a model"})
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic(solverError{txt})
	}
	md := model{}
	i := 1
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t') {
			i++
		}
	}
	tok := func() string {
		skip()
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|') + i + 1
			r := txt[i+1 : j]
			i = j + 1
			return r
		}
		j := i
		for j < len(txt) && !strings.ContainsRune(" \n\t()", rune(txt[j])) {
			j++
		}
		r := txt[i:j]
		i = j
		return r
	}
	for {
		skip()
		if i >= len(txt) || txt[i] == ')' {
			break
		}
		if txt[i] != '(' {
			panic(solverError{"bad model: " + txt})
		}
		i++
		name := tok()
		skip()
		var v uint64
		if txt[i] == '(' { // (_ bvN w)
			i++
			tok()
			x := tok()
			tok()
			skip()
			i++
			n, err := strconv.ParseUint(strings.TrimPrefix(x, "bv"), 10, 64)
			if err != nil {
				panic(solverError{"bad model value: " + x})
			}
			v = n
		} else {
			x := tok()
			switch {
			case x == "true":
				v = 1
			case x == "false":
				v = 0
			case strings.HasPrefix(x, "#x"):
				n, err := strconv.ParseUint(x[2:], 16, 64)
				if err != nil {
					panic(solverError{"bad model value: " + x})
				}
				v = n
			case strings.HasPrefix(x, "#b"):
				n, err := strconv.ParseUint(x[2:], 2, 64)
				if err != nil {
					panic(solverError{"bad model value: " + x})
				}
				v = n
			default:
				panic(solverError{fmt.Sprintf("bad model value %q", x)})
			}
		}
		skip()
		if txt[i] != ')' {
			panic(solverError{"bad model: " + txt})
		}
		i++
		md[name] = v
	}
	return md
}
