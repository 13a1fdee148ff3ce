package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental SMT solver process. Assertions are kept on a stack, one push level
// each, so consecutive paths share their common prefix.
type Solver struct {
	name     string
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	stack    []*Term
	defined  map[*Term]bool
	declared map[string]uint8
	vars     []*Term
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	dead     error
	log      io.Writer
}

func solverCmd(name string) []string {
	switch name {
	case "z3-new", "z3":
		return []string{name, "-in", "-smt2"}
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models", "--tlimit-per=20000"}
	}
	panic("unknown solver " + name)
}

func NewSolver(name string, timeoutMS int) (*Solver, error) {
	args := solverCmd(name)
	if name == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit-per=%d", timeoutMS))
	}
	cmd := exec.Command(args[0], args[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &Solver{name: name, cmd: cmd, in: bufio.NewWriterSize(in, 1<<16), out: bufio.NewReaderSize(out, 1<<16),
		defined: map[*Term]bool{}, declared: map[string]uint8{}}
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if name != "cvc5" {
		s.send(fmt.Sprintf("(set-option :timeout %d)", timeoutMS))
	}
	s.send("(set-logic QF_BVFP)")
	return s, nil
}

func (s *Solver) send(line string) {
	if s.log != nil {
		fmt.Fprintln(s.log, line)
	}
	s.in.WriteString(line)
	s.in.WriteByte('\n')
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref makes sure t is defined in the solver and returns its name.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OTrue, OFalse, OConst:
		return t.render(nil)
	case OVar:
		if w, ok := s.declared[t.name]; !ok {
			s.declared[t.name] = t.w
			s.vars = append(s.vars, t)
			s.send(fmt.Sprintf("(declare-const |%s| %s)", t.name, sortName(t.w)))
		} else if w != t.w {
			panic("variable redeclared with another sort: " + t.name)
		}
		return "|" + t.name + "|"
	}
	if !s.defined[t] {
		body := t.render(s.ref)
		s.defined[t] = true
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, sortName(t.w), body))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		r := s.ref(pc[k])
		s.send("(push 1)")
		s.send("(assert " + r + ")")
		s.stack = append(s.stack, pc[k])
	}
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check decides pc ∧ extra. On Sat it returns a model of the variables in vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model, error) {
	if s.dead != nil {
		return Unknown, nil, s.dead
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.sync(pc)
	s.Queries++
	if extra != nil {
		r := s.ref(extra)
		for _, v := range vars {
			s.ref(v)
		}
		s.send("(push 1)")
		s.send("(assert " + r + ")")
	} else {
		for _, v := range vars {
			s.ref(v)
		}
	}
	s.send("(check-sat)")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.dead = err
		return Unknown, nil, err
	}
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		s.Sat++
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString("|" + v.name + "| ")
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.dead = err
				return Unknown, nil, err
			}
			m, err = parseModel(txt)
			if err != nil {
				s.dead = err
				return Unknown, nil, err
			}
		} else {
			m = Model{}
		}
	case "unsat":
		res = Unsat
		s.Unsat++
	case "unknown", "timeout":
		res = Unknown
		s.Unknown++
	default:
		s.dead = fmt.Errorf("solver said %q", line)
		return Unknown, nil, s.dead
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	return res, m, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" || l == "success" {
			continue
		}
		return l, nil
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth, started, bar := 0, false, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string) (Model, error) {
	m := Model{}
	i := 0
	for i < len(txt) {
		if txt[i] != '|' && !(txt[i] >= 'a' && txt[i] <= 'z') && !(txt[i] >= 'A' && txt[i] <= 'Z') {
			i++
			continue
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for j < len(txt) && txt[j] != ' ' && txt[j] != ')' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := i
		if txt[i] == '(' {
			j = i + strings.IndexByte(txt[i:], ')') + 1
		} else {
			for txt[j] != ')' && txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
		}
		v := txt[i:j]
		i = j
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			m[name] = u
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v)
			u, err := strconv.ParseUint(f[1][2:], 10, 64)
			if err != nil {
				return nil, err
			}
			m[name] = u
		default:
			return nil, fmt.Errorf("model value %q for %s", v, name)
		}
	}
	return m, nil
}
