package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental SMT solver process.
type Solver struct {
	b       *Bank
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	nvars   int
	ufs     map[string]bool
	emitted map[int]bool
	bin     []string

	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	log                          io.Writer
}

func newSolver(b *Bank, bin []string) (*Solver, error) {
	s := &Solver{b: b, bin: bin}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.nvars, s.ufs, s.emitted = 0, map[string]bool{}, map[int]bool{}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.buf.Reset()
	if strings.Contains(s.bin[0], "z3") {
		s.buf.WriteString("(set-option :timeout 8000)\n")
	}
	s.buf.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sort_(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func bv(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return bv(t.w, t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.emitted[t.id] {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	for _, v := range t.vars {
		for s.nvars <= v {
			fmt.Fprintf(&s.buf, "(declare-const b%d (_ BitVec 8))\n", s.nvars)
			s.nvars++
		}
	}
	s.emitted[t.id] = true
	var body string
	bin := func(n string) string { return "(" + n + " " + s.ref(t.args[0]) + " " + s.ref(t.args[1]) + ")" }
	nary := func(n string) string {
		p := []string{n}
		for _, a := range t.args {
			p = append(p, s.ref(a))
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	switch t.op {
	case OTab:
		body = tabBody(t)
	case OIn:
		var parts []string
		for i := 0; i < 256; {
			if t.at(i) == 0 {
				i++
				continue
			}
			j := i
			for j+1 < 256 && t.at(j+1) == 1 {
				j++
			}
			if i == j {
				parts = append(parts, fmt.Sprintf("(= b%d %s)", t.v, bv(8, uint64(i))))
			} else {
				parts = append(parts, fmt.Sprintf("(and (bvule %s b%d) (bvule b%d %s))", bv(8, uint64(i)), t.v, t.v, bv(8, uint64(j))))
			}
			i = j + 1
		}
		if len(parts) == 1 {
			body = parts[0]
		} else {
			body = "(or " + strings.Join(parts, " ") + ")"
		}
	case OAdd:
		p := []string{}
		if t.val != 0 {
			p = append(p, bv(t.w, t.val))
		}
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				p = append(p, s.ref(a))
			} else {
				p = append(p, fmt.Sprintf("(bvmul %s %s)", bv(t.w, t.coefs[i]), s.ref(a)))
			}
		}
		if len(p) == 1 {
			body = p[0]
		} else {
			body = "(bvadd " + strings.Join(p, " ") + ")"
		}
	case OMul:
		body = bin("bvmul")
	case OUDiv:
		body = bin("bvudiv")
	case OURem:
		body = bin("bvurem")
	case OSDiv:
		body = bin("bvsdiv")
	case OSRem:
		body = bin("bvsrem")
	case OAnd:
		body = bin("bvand")
	case OOr:
		body = bin("bvor")
	case OXor:
		body = bin("bvxor")
	case OShl:
		body = bin("bvshl")
	case OLshr:
		body = bin("bvlshr")
	case OAshr:
		body = bin("bvashr")
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", uint8(t.val)+t.w-1, t.val, s.ref(t.args[0]))
	case OIte:
		body = nary("ite")
	case OEq:
		body = bin("=")
	case OUlt:
		body = bin("bvult")
	case OSlt:
		body = bin("bvslt")
	case ONot:
		body = nary("not")
	case OBand:
		body = nary("and")
	case OBor:
		body = nary("or")
	case OUF:
		n := fmt.Sprintf("%s_%d", t.name, len(t.args))
		var sorts []string
		for _, a := range t.args {
			sorts = append(sorts, sort_(a.w))
			n += fmt.Sprintf("_%d", a.w)
		}
		n += fmt.Sprintf("_r%d", t.w)
		if !s.ufs[n] {
			s.ufs[n] = true
			fmt.Fprintf(&s.buf, "(declare-fun %s (%s) %s)\n", n, strings.Join(sorts, " "), sort_(t.w))
		}
		if len(t.args) == 0 {
			body = n
		} else {
			body = nary(n)
		}
	}
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, sort_(t.w), body)
}

func tabBody(t *Term) string {
	type seg struct {
		hi      int
		base    uint64 // value at segment start minus slope*start
		slope   uint64
		isConst bool
	}
	m := mask(t.w)
	var segs []seg
	for i := 0; i < 256; {
		j := i
		var slope uint64
		if i+1 < 256 {
			slope = (t.vec[i+1] - t.vec[i]) & m
			j = i + 1
			for j+1 < 256 && (t.vec[j+1]-t.vec[j])&m == slope {
				j++
			}
			if j == i+1 && slope != 0 { // avoid spurious 2-point segments
				j = i
				slope = 0
			}
		}
		segs = append(segs, seg{hi: j, slope: slope, base: (t.vec[i] - slope*uint64(i)) & m})
		i = j + 1
	}
	x := fmt.Sprintf("b%d", t.v)
	if t.w > 8 {
		x = fmt.Sprintf("((_ zero_extend %d) b%d)", t.w-8, t.v)
	} else if t.w < 8 {
		x = fmt.Sprintf("((_ extract %d 0) b%d)", t.w-1, t.v)
	}
	expr := func(g seg) string {
		if g.slope == 0 {
			return bv(t.w, g.base)
		}
		e := x
		if g.slope != 1 {
			e = fmt.Sprintf("(bvmul %s %s)", bv(t.w, g.slope), x)
		}
		if g.base != 0 {
			e = fmt.Sprintf("(bvadd %s %s)", bv(t.w, g.base), e)
		}
		return e
	}
	out := expr(segs[len(segs)-1])
	for i := len(segs) - 2; i >= 0; i-- {
		out = fmt.Sprintf("(ite (bvule b%d %s) %s %s)", t.v, bv(8, uint64(segs[i].hi)), expr(segs[i]), out)
	}
	return out
}

type Result int

const (
	RUnknown Result = iota
	RSat
	RUnsat
)

// Check decides the conjunction; on sat returns values of vars.
func (s *Solver) Check(conds []*Term, vars []int) (Result, map[int]byte) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for _, c := range conds {
		s.define(c)
	}
	for _, v := range vars {
		for s.nvars <= v {
			fmt.Fprintf(&s.buf, "(declare-const b%d (_ BitVec 8))\n", s.nvars)
			s.nvars++
		}
	}
	s.buf.WriteString("(push 1)\n")
	for _, c := range conds {
		fmt.Fprintf(&s.buf, "(assert %s)\n", s.ref(c))
	}
	s.buf.WriteString("(check-sat)\n(echo \"done\")\n")
	if err := s.flush(); err != nil {
		s.restart()
		s.Unknown++
		return RUnknown, nil
	}
	res := RUnknown
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			s.Unknown++
			return RUnknown, nil
		}
		l = strings.TrimSpace(l)
		if l == "done" || l == "\"done\"" {
			break
		}
		switch {
		case l == "sat":
			res = RSat
		case l == "unsat":
			res = RUnsat
		case strings.HasPrefix(l, "(error"):
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.restart()
			s.Unknown++
			return RUnknown, nil
		}
	}
	var model map[int]byte
	if res == RSat && len(vars) > 0 {
		s.buf.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&s.buf, "b%d ", v)
		}
		s.buf.WriteString("))\n(echo \"done\")\n")
		s.flush()
		model = map[int]byte{}
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				s.restart()
				s.Unknown++
				return RUnknown, nil
			}
			l = strings.TrimSpace(l)
			if l == "done" || l == "\"done\"" {
				break
			}
			parseModel(l, model)
		}
	}
	s.buf.WriteString("(pop 1)\n")
	switch res {
	case RSat:
		s.Sat++
	case RUnsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, model
}

func parseModel(l string, m map[int]byte) {
	f := strings.FieldsFunc(l, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(f); i += 2 {
		if f[i][0] != 'b' {
			i--
			continue
		}
		v, err := strconv.Atoi(f[i][1:])
		if err != nil {
			continue
		}
		val := f[i+1]
		var x uint64
		if strings.HasPrefix(val, "#x") {
			x, _ = strconv.ParseUint(val[2:], 16, 64)
		} else if strings.HasPrefix(val, "#b") {
			x, _ = strconv.ParseUint(val[2:], 2, 64)
		}
		m[v] = byte(x)
	}
}

func (s *Solver) flush() error {
	if s.log != nil {
		io.WriteString(s.log, s.buf.String())
	}
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}
