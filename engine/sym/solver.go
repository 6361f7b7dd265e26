package sym

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Verdict of a query.
type Verdict int

// Verdicts.
const (
	Unsat Verdict = iota
	Sat
	Unknown
)

// SolverStats counts solver work.
type SolverStats struct {
	Queries   int64
	Sat       int64
	Unsat     int64
	Unknown   int64
	Errors    int64
	CacheHits int64
	ByteDec   int64 // groups decided by exhaustive evaluation of one byte variable
	Nanos     int64
	Cross     int64 // unsat verdicts repeated with a second solver
	CrossBad  int64
	Linear    int64 // queries encoded over bounded integers
	Abstract  int64 // solutions found with bit-level terms abstracted
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Errors += o.Errors
	s.CacheHits += o.CacheHits
	s.ByteDec += o.ByteDec
	s.Nanos += o.Nanos
	s.Cross += o.Cross
	s.CrossBad += o.CrossBad
	s.Linear += o.Linear
	s.Abstract += o.Abstract
}

// Solver is an SMT solver process.
type Solver struct {
	cmd     []string
	proc    *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout time.Duration
	n       int
	Ints    bool // encode purely linear queries over the integers
	Stats   SolverStats
}

// NewSolver starts lazily.
func NewSolver(cmd []string, timeout time.Duration) *Solver {
	return &Solver{cmd: cmd, timeout: timeout}
}

func (s *Solver) start() error {
	s.proc = exec.Command(s.cmd[0], s.cmd[1:]...)
	var err error
	if s.in, err = s.proc.StdinPipe(); err != nil {
		return err
	}
	o, err := s.proc.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.proc.Start(); err != nil {
		return err
	}
	s.n = 0
	return nil
}

// Close stops the process.
func (s *Solver) Close() {
	if s.proc != nil {
		_ = s.in.Close()
		_ = s.proc.Process.Kill()
		_ = s.proc.Wait()
		s.proc = nil
	}
}

// Check decides the conjunction of asserts.
func (s *Solver) Check(c *TermCtx, asserts []*Term, m Model) (Verdict, Model) {
	t0 := time.Now()
	s.Stats.Queries++
	v, mm := Unknown, Model(nil)
	if opaque, ok := c.abstractable(asserts); ok && s.Ints {
		v, mm = s.checkAbstract(c, asserts, opaque)
	}
	if v == Unknown {
		v, mm = s.check(c, asserts, nil, nil)
	}
	s.Stats.Nanos += int64(time.Since(t0))
	switch v {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return v, mm
}

// checkAbstract first decides the query with bit-level subterms replaced by
// unknown integers. No solution then means none at all; a solution is completed
// to the bits by a second query, and counts only if that succeeds.
func (s *Solver) checkAbstract(c *TermCtx, asserts []*Term, opaque map[*Term]bool) (Verdict, Model) {
	vals := map[*Term]uint64{}
	v, m := s.check(c, asserts, opaque, vals)
	if v != Sat {
		return v, nil
	}
	s.Stats.Abstract++
	inside := map[int64]bool{}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OVar {
			inside[int64(t.K)] = true
		}
		visit(t.A)
		visit(t.B)
		visit(t.C)
	}
	for t := range opaque {
		visit(t)
	}
	var as []*Term
	for t := range opaque {
		as = append(as, c.Eq(t, c.Const(t.W, vals[t])))
	}
	for k := range inside {
		vi := c.vinfo[k]
		if x, ok := m[vi.Seq]; ok {
			vt := c.vterm[k]
			if vi.W == 0 {
				if x == 0 {
					vt = c.Not(vt)
				}
				as = append(as, vt)
			} else {
				as = append(as, c.Eq(vt, c.Const(vi.W, x)))
			}
		}
	}
	v, m2 := s.check(c, as, nil, nil)
	if v != Sat {
		return Unknown, nil
	}
	for k, x := range m2 {
		m[k] = x
	}
	return Sat, m
}

func (s *Solver) check(c *TermCtx, asserts []*Term, opaque map[*Term]bool, vals map[*Term]uint64) (Verdict, Model) {
	if s.proc != nil && s.n > 5000 {
		s.Close()
	}
	if s.proc == nil {
		if err := s.start(); err != nil {
			s.Stats.Errors++
			return Unknown, nil
		}
	}
	s.n++
	var sb strings.Builder
	isZ3 := strings.Contains(s.cmd[0], "z3")
	sb.WriteString("(reset)\n")
	if isZ3 {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", s.timeout.Milliseconds())
	} else {
		sb.WriteString("(set-option :produce-models true)\n(set-option :incremental true)\n")
	}
	ints := opaque != nil || s.Ints && c.linear(asserts)
	if ints {
		s.Stats.Linear++
		sb.WriteString("(set-logic QF_LIA)\n")
	} else {
		sb.WriteString("(set-logic QF_BV)\n")
	}
	vars, ops := c.writeSMT(&sb, asserts, ints, opaque)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	t0 := time.Now()
	line, err := s.readLine()
	if f := os.Getenv("VERIF_SLOWQ"); f != "" && time.Since(t0) > time.Second {
		_ = os.WriteFile(f, []byte(sb.String()), 0o644)
	}
	if err != nil {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
	case "unknown", "timeout":
		return Unknown, nil
	default: // includes (error ...)
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	m := Model{}
	if len(vars) == 0 && len(ops) == 0 {
		return Sat, m
	}
	sb.Reset()
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(c.varName(v))
		sb.WriteByte(' ')
	}
	byID := map[string]*Term{}
	for _, t := range ops {
		n := fmt.Sprintf("o%d", t.id)
		byID[n] = t
		sb.WriteString(n + " ")
	}
	sb.WriteString("))\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	text, err := s.readSexp()
	if err != nil || strings.HasPrefix(text, "(error") {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	toks := tokenize(text)
	for i := 0; i+1 < len(toks); i++ {
		if t := byID[toks[i]]; t != nil {
			val, ok := parseBV(toks[i+1])
			if !ok {
				s.Stats.Errors++
				return Unknown, nil
			}
			vals[t] = val
			continue
		}
		if len(toks[i]) > 1 && toks[i][0] == 'v' {
			idx, err := strconv.Atoi(toks[i][1:])
			if err != nil || idx >= len(c.vinfo) {
				continue
			}
			val, ok := parseBV(toks[i+1])
			if !ok && toks[i+1] == "_" && i+3 < len(toks) { // (_ bvN w)
				val, ok = parseBV(toks[i+2])
			}
			if !ok {
				s.Stats.Errors++
				return Unknown, nil
			}
			m[c.vinfo[idx].Seq] = val
		}
	}
	return Sat, m
}

func parseBV(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case s != "" && s[0] >= '0' && s[0] <= '9':
		v, err := strconv.ParseUint(s, 10, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	case strings.HasPrefix(s, "bv"):
		v, err := strconv.ParseUint(s[2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}

func tokenize(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool {
		return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t'
	})
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}
