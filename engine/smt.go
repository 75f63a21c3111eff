package main

// SMT solver driver: one incremental process per worker, fed over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	Time                            time.Duration
	MaxQuery                        time.Duration
	Restarts                        int64
}

type Solver struct {
	ctx     *Ctx
	argv    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool // var idx declared
	defs    map[int32]string
	stack   []*Expr
	divs    map[divKey]*divDef
	noDiv   map[int32]bool
	sb      strings.Builder
	timeout int // ms
	Stats   SolverStats
	nsent   int
}

func NewSolver(ctx *Ctx, argv []string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, argv: argv, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.defs = map[int32]string{}
	s.divs = map[divKey]*divDef{}
	s.noDiv = map[int32]bool{}
	s.stack = nil
	s.nsent = 0
	isZ3 := strings.Contains(s.argv[0], "z3")
	if isZ3 {
		fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :model.completion true)\n(set-logic QF_BV)\n", s.timeout)
	} else {
		fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :tlimit-per %d)\n(set-logic QF_BV)\n", s.timeout)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.Stats.Restarts++
	s.start()
}

// Reset is called when the expression context is replaced.
func (s *Solver) Reset(ctx *Ctx) {
	s.ctx = ctx
	s.restart()
	s.Stats.Restarts--
}

const defSize = 24

// term returns a textual reference to e, emitting declarations as needed.
func (s *Solver) term(e *Expr) string {
	var sb strings.Builder
	s.write(&sb, e)
	return sb.String()
}

func (s *Solver) write(sb *strings.Builder, e *Expr) {
	switch e.op {
	case OConst:
		sb.WriteString(e.constStr())
		return
	case OVar:
		if !s.defined[e.vidx] {
			s.defined[e.vidx] = true
			fmt.Fprintf(s.in, "(declare-fun %s () %s)\n", smtVar(e), sortStr(e.w))
		}
		sb.WriteString(smtVar(e))
		return
	}
	if n, ok := s.defs[e.id]; ok {
		sb.WriteString(n)
		return
	}
	if e.size > defSize {
		var b2 strings.Builder
		s.writeOp(&b2, e)
		n := fmt.Sprintf("t%d", e.id)
		fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sortStr(e.w), b2.String())
		s.defs[e.id] = n
		sb.WriteString(n)
		return
	}
	s.writeOp(sb, e)
}

// divVars introduces the quotient and remainder of x by a constant; their
// defining constraint is asserted together with every formula using them.
func (s *Solver) divVars(e *Expr) (string, string) {
	d, ok := s.divs[divKey{e.a.id, e.b.val}]
	if !ok {
		n := len(s.divs)
		q, r := fmt.Sprintf("dq%d", n), fmt.Sprintf("dr%d", n)
		w := e.w
		fmt.Fprintf(s.in, "(declare-fun %s () %s)\n(declare-fun %s () %s)\n", q, sortStr(w), r, sortStr(w))
		x := s.term(e.a)
		k := e.b.val
		d = &divDef{q, r, fmt.Sprintf("(and (= %s (bvadd (bvmul %s %s) %s)) (bvult %s %s) (bvule %s %s) (bvuge %s %s))", x, e.b.constStr(), q, r, r, e.b.constStr(), q, s.ctx.Const(w, mask(w)/k).constStr(), x, r)}
		s.divs[divKey{e.a.id, e.b.val}] = d
	}
	return d.q, d.r
}

type divKey struct {
	id int32
	k  uint64
}
type divDef struct{ q, r, side string }

// sides collects the defining constraints of the divisions below e.
func (s *Solver) sides(e *Expr, seen map[int32]bool, out *[]string) bool {
	if e.size < 3 {
		s.noDiv[e.id] = true
		return false
	}
	if s.noDiv[e.id] || seen[e.id] {
		return false
	}
	seen[e.id] = true
	found := false
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			if s.sides(x, seen, out) || !s.noDiv[x.id] {
				found = true
			}
		}
	}
	if bigDiv(e) {
		found = true
		s.divVars(e)
		*out = append(*out, s.divs[divKey{e.a.id, e.b.val}].side)
	}
	if !found {
		s.noDiv[e.id] = true
	}
	return found
}

func bigDiv(e *Expr) bool {
	return (e.op == OURem || e.op == OUDiv) && e.w >= 16 && e.b.isConst() && e.b.val > 1
}

// assertion renders e together with the constraints of its divisions.
func (s *Solver) assertion(e *Expr) string {
	var out []string
	s.sides(e, map[int32]bool{}, &out)
	t := s.term(e)
	if len(out) == 0 {
		return t
	}
	return "(and " + t + " " + strings.Join(out, " ") + ")"
}

func (s *Solver) writeOp(sb *strings.Builder, e *Expr) {
	if bigDiv(e) {
		q, r := s.divVars(e)
		if e.op == OURem {
			sb.WriteString(r)
		} else {
			sb.WriteString(q)
		}
		return
	}
	switch e.op {
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", e.w-e.a.w)
		s.write(sb, e.a)
		sb.WriteByte(')')
		return
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", e.w-e.a.w)
		s.write(sb, e.a)
		sb.WriteByte(')')
		return
	case OTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", e.w-1)
		s.write(sb, e.a)
		sb.WriteByte(')')
		return
	}
	sb.WriteByte('(')
	sb.WriteString(opNames[e.op])
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			sb.WriteByte(' ')
			s.write(sb, x)
		}
	}
	sb.WriteByte(')')
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Expr) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		t := s.assertion(pc[n])
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", t)
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc ∧ extra.  On Sat it returns a model over the variables
// listed in want.
func (s *Solver) Check(pc []*Expr, extra *Expr, want []*Expr) (Res, Model) {
	t0 := time.Now()
	if s.nsent > 40000 {
		s.restart()
	}
	s.nsent++
	s.sync(pc)
	if extra != nil {
		t := s.assertion(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", t)
	}
	for _, v := range want { // make sure they are declared
		if !s.defined[v.vidx] {
			s.defined[v.vidx] = true
			fmt.Fprintf(s.in, "(declare-fun %s () %s)\n", smtVar(v), sortStr(v.w))
		}
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	proc := s.cmd.Process
	wd := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+5*time.Second, func() { proc.Kill() })
	defer wd.Stop()
	res := Unknown
	var model Model
	line, err := s.readLine()
	bad := err != nil
	if !bad {
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case line == "unknown" || line == "timeout":
			res = Unknown
		default: // (error ... : inconclusive
			bad = true
		}
	}
	if !bad && res == Sat && len(want) > 0 {
		fmt.Fprintf(s.in, "(get-value (")
		for _, v := range want {
			fmt.Fprintf(s.in, "%s ", smtVar(v))
		}
		fmt.Fprintf(s.in, "))\n")
		s.in.Flush()
		model, err = s.readModel(want)
		if err != nil {
			bad = true
			res = Unknown
		}
	} else if res == Sat {
		model = Model{}
	}
	if bad {
		debugf("solver error: %q %v", line, err)
		s.restart()
		res = Unknown
	} else if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	switch res {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return res, model
}

func (s *Solver) readModel(want []*Expr) (Model, error) {
	depth := 0
	var sb strings.Builder
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("%s", txt)
	}
	m := Model{}
	byName := map[string]*Expr{}
	for _, v := range want {
		byName[smtVar(v)] = v
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(f); i += 2 {
		v := byName[f[i]]
		if v == nil {
			return nil, fmt.Errorf("model parse: %q", txt)
		}
		x := f[i+1]
		var n uint64
		var err error
		switch {
		case x == "true":
			n = 1
		case x == "false":
			n = 0
		case strings.HasPrefix(x, "#x"):
			n, err = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			n, err = strconv.ParseUint(x[2:], 2, 64)
		default:
			err = fmt.Errorf("model value %q", x)
		}
		if err != nil {
			return nil, err
		}
		m[v.vidx] = n
	}
	return m, nil
}
