package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one SMT solver process over SMT-LIB2 text.
type Solver struct {
	ctx   *Ctx
	cmd   *exec.Cmd
	in    *bufio.Writer
	inRaw io.WriteCloser
	out   *bufio.Reader
	gen   int32
	stack []*Term
	bin   string
	args  []string
	dead  bool
	alt   bool
	ndefs int

	Queries  int64
	NSat     int64
	NUnsat   int64
	NUnknown int64
	Time     time.Duration
	Errors   []string
	Dump     io.Writer
}

var solverGen int32

func NewSolver(ctx *Ctx, bin string, args []string) (*Solver, error) {
	s := &Solver{ctx: ctx, bin: bin, args: args}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.gen++
	s.stack = nil
	s.ndefs = 0
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin, "z3") {
		s.send("(set-option :timeout 60000)\n")
	}
	s.send("(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Flush()
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(t string) {
	if s.Dump != nil {
		io.WriteString(s.Dump, t)
	}
	s.in.WriteString(t)
}

// define emits definitions for t and its subterms.
func (s *Solver) define(t *Term) {
	if t.op == OConst {
		return
	}
	if s.alt {
		if t.emGen2 == s.gen {
			return
		}
		t.emGen2 = s.gen
	} else {
		if t.emGen == s.gen {
			return
		}
		t.emGen = s.gen
	}
	if t.op == OVar {
		s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, smtSort(t.w)))
		return
	}
	if t.a != nil {
		s.define(t.a)
	}
	if t.b != nil {
		s.define(t.b)
	}
	if t.c != nil {
		s.define(t.c)
	}
	s.ndefs++
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), t.body()))
}

func (s *Solver) sync(pc []*Term) {
	if s.ndefs > 400000 {
		s.Close()
		s.start()
	}
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.define(pc[i])
		s.send("(push 1)\n(assert " + pc[i].ref() + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

func collectVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// Check decides pc ∧ extra and returns a model when satisfiable.
func (s *Solver) Check(pc []*Term, extra *Term) (SatRes, Model) {
	if extra != nil && extra.isConst() && extra.val == 0 {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.dead {
		s.Close()
		s.start()
	}
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return s.fail(err)
	}
	line, err := s.readLine()
	if err != nil {
		return s.fail(err)
	}
	var res SatRes
	switch line {
	case "sat":
		res = Sat
		s.NSat++
	case "unsat":
		res = Unsat
		s.NUnsat++
	case "unknown", "timeout":
		res = Unknown
		s.NUnknown++
	default:
		return s.fail(fmt.Errorf("solver said %q", line))
	}
	var m Model
	if res == Sat {
		all := pc
		if extra != nil {
			all = append(append([]*Term{}, pc...), extra)
		}
		vars := collectVars(all)
		m = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				return s.fail(err)
			}
			if err := parseValues(txt, m); err != nil {
				return s.fail(err)
			}
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) fail(err error) (SatRes, Model) {
	s.Errors = append(s.Errors, err.Error())
	s.dead = true
	s.NUnknown++
	return Unknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" || l == "success" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("%s", l)
		}
		return l, nil
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, m Model) error {
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return fmt.Errorf("%s", txt)
	}
	i := 0
	n := len(txt)
	for i < n {
		// find "(" name value ")"
		for i < n && txt[i] != '|' && !(txt[i] >= 'a' && txt[i] <= 'z') {
			i++
		}
		if i >= n {
			break
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i = i + j + 2
		} else {
			j := i
			for j < n && txt[j] != ' ' && txt[j] != ')' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for i < n && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		j := i
		for j < n && txt[j] != ')' {
			j++
		}
		v := strings.TrimSpace(txt[i:j])
		i = j
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			m[name] = x
		default:
			return fmt.Errorf("cannot parse value %q for %s", v, name)
		}
	}
	return nil
}
