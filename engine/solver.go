package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT solver process (z3 -in).
type Solver struct {
	c         *TermCtx
	timeout   int // ms
	bv, li    *proc
	lia       *liaTr
	NLia      int
	TLia, TBv time.Duration
	NBv, NOne int

	// statistics
	Queries   int
	CacheHits int
	NSat      int
	NUnsat    int
	NUnknown  int
	Time      time.Duration
	MaxTime   time.Duration
	Restarts  int

	cache map[string]*cacheEnt
	log   io.Writer
}

type cacheEnt struct {
	r SatRes
	m *Model // only the variables of the query
}

// proc is one solver process: bit-vector logic, or linear integer arithmetic.
type proc struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	inb     *bufio.Writer
	out     *bufio.Reader
	defined map[*Term]bool
	decl    map[string]bool
	lia     *liaTr
}

func NewSolver(c *TermCtx, timeoutMs int) *Solver {
	return &Solver{c: c, timeout: timeoutMs, cache: map[string]*cacheEnt{}, lia: &liaTr{memo: map[*Term]*liaT{}}}
}

func (s *Solver) start(logic string) *proc {
	bin := os.Getenv("GOSYM_Z3")
	if bin == "" {
		bin = "z3-new"
	}
	p := &proc{}
	p.cmd = exec.Command(bin, "-in", "-smt2")
	w, err := p.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.in = w
	p.inb = bufio.NewWriterSize(w, 1<<16)
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		f, _ := os.CreateTemp(d, logic+"*.smt2")
		p.inb = bufio.NewWriterSize(io.MultiWriter(w, f), 1<<16)
	}
	p.out = bufio.NewReaderSize(r, 1<<16)
	p.defined = map[*Term]bool{}
	p.decl = map[string]bool{}
	to := s.timeout
	if logic != "QF_UFBV" {
		p.lia = s.lia
		to = s.timeout / 2
	}
	fmt.Fprintf(p.inb, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic %s)\n", to, logic)
	return p
}

func (p *proc) Close() {
	if p != nil && p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

func (s *Solver) Close() {
	s.bv.Close()
	s.li.Close()
	s.bv, s.li = nil, nil
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.k, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func bvlit(k uint64, w uint8) string {
	return "(_ bv" + strconv.FormatUint(k, 10) + " " + strconv.Itoa(int(w)) + ")"
}

var smtOp = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case OApp:
		sb.WriteString("(|@" + t.name + "| " + ref(t.a[0]) + ")")
	case OSum:
		n := len(t.a)
		if t.k != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(bvadd")
		}
		if t.k != 0 {
			sb.WriteString(" " + bvlit(t.k, t.w))
		}
		for i, x := range t.a {
			sb.WriteString(" ")
			switch {
			case t.coef[i] == 1:
				sb.WriteString(ref(x))
			case t.coef[i] == mask(t.w):
				sb.WriteString("(bvneg " + ref(x) + ")")
			default:
				sb.WriteString("(bvmul " + bvlit(t.coef[i], t.w) + " " + ref(x) + ")")
			}
		}
		if n > 1 {
			sb.WriteString(")")
		}
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.k>>8, t.k&0xff, ref(t.a[0]))
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a[0].w, ref(t.a[0]))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, ref(t.a[0]))
	default:
		sb.WriteString("(" + smtOp[t.op])
		for _, x := range t.a {
			sb.WriteString(" " + ref(x))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// emit declares t's symbols and defines its sub-terms, in dependency order.
func emit(t *Term, defined map[*Term]bool, decl map[string]bool, w io.Writer, leaves *[]*Term, seen map[*Term]bool) {
	if t.op == OConst {
		return
	}
	if seen != nil {
		if seen[t] {
			return
		}
		seen[t] = true
	} else if defined[t] {
		return
	}
	for _, x := range t.a {
		emit(x, defined, decl, w, leaves, seen)
	}
	switch t.op {
	case OVar:
		if !decl[t.name] {
			decl[t.name] = true
			fmt.Fprintf(w, "(declare-const |%s| %s)\n", t.name, sortName(t.w))
		}
		if leaves != nil {
			*leaves = append(*leaves, t)
		}
	case OApp:
		if !decl["@"+t.name] {
			decl["@"+t.name] = true
			fmt.Fprintf(w, "(declare-fun |@%s| ((_ BitVec 64)) (_ BitVec 8))\n", t.name)
		}
		if leaves != nil {
			*leaves = append(*leaves, t)
		}
	}
	if !defined[t] {
		defined[t] = true
		if t.op != OVar {
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body(t))
		}
	}
}

func (p *proc) readLine() (string, error) {
	l, err := p.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the conjunction of cs. On Sat it returns values for every
// variable and memory cell occurring in cs.
func (s *Solver) Check(cs []*Term) (SatRes, *Model) {
	ids := make([]int, 0, len(cs))
	for _, t := range cs {
		if t.isConst() {
			if t.k == 0 {
				return Unsat, nil
			}
			continue
		}
		ids = append(ids, t.id)
	}
	if len(ids) == 0 {
		return Sat, newModel()
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.CacheHits++
		return e.r, e.m
	}
	r, m := s.check1(cs)
	s.cache[key] = &cacheEnt{r, m}
	return r, m
}

func (s *Solver) check1(cs []*Term) (SatRes, *Model) {
	t0 := time.Now()
	s.Queries++
	done := func(r SatRes, m *Model) (SatRes, *Model) {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
		switch r {
		case Sat:
			s.NSat++
		case Unsat:
			s.NUnsat++
		default:
			s.NUnknown++
		}
		if s.log != nil && d > 300*time.Millisecond {
			fmt.Fprintf(s.log, "slow query %v %v lia=%v\n", d, r, s.lia.ok(cs))
			if len(cs) < 30 {
				for _, c := range cs {
					fmt.Fprintln(s.log, "   ", firstN(c.String(), 400))
				}
			}
		}
		return r, m
	}
	if s.lia.ok(cs) {
		s.NLia++
		r, m := s.query(&s.li, "QF_UFLIA", cs)
		s.TLia += time.Since(t0)
		if r != Unknown {
			return done(r, m)
		}
	}
	t1 := time.Now()
	s.NBv++
	r, m := s.query(&s.bv, "QF_UFBV", cs)
	s.TBv += time.Since(t1)
	if r == Unknown {
		s.NOne++
		r, m = s.oneShot(cs)
	}
	return done(r, m)
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// query runs one check-sat in a solver process.
func (s *Solver) query(pp **proc, logic string, cs []*Term) (SatRes, *Model) {
	p := *pp
	if p != nil && len(p.defined) > 400000 {
		p.Close()
		p = nil
	}
	if p == nil {
		p = s.start(logic)
		*pp = p
	}
	var leaves []*Term
	seen := map[*Term]bool{}
	for _, t := range cs {
		p.emit(t, p.inb, &leaves, seen)
	}
	fmt.Fprint(p.inb, "(push 1)\n")
	if p.lia != nil {
		for _, t := range leaves {
			p.lia.bounds(p.inb, t)
		}
	}
	for _, t := range cs {
		fmt.Fprintf(p.inb, "(assert %s)\n", p.ref(t))
	}
	fmt.Fprint(p.inb, "(check-sat)\n")
	p.inb.Flush()
	cmd := p.cmd
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*2+5*time.Second, func() { cmd.Process.Kill() })
	line, err := p.readLine()
	timer.Stop()
	if err != nil || strings.HasPrefix(line, "(error") {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", line, err)
		}
		s.Restarts++
		p.Close()
		*pp = nil
		return Unknown, nil
	}
	if line == "sat" {
		m, ok := p.getModel(leaves)
		if !ok {
			s.Restarts++
			p.Close()
			*pp = nil
			return Unknown, nil
		}
		fmt.Fprint(p.inb, "(pop 1)\n")
		return Sat, m
	}
	fmt.Fprint(p.inb, "(pop 1)\n")
	if line == "unsat" {
		return Unsat, nil
	}
	return Unknown, nil
}

func (p *proc) ref(t *Term) string {
	if p.lia != nil {
		return p.lia.get(t).ref
	}
	return ref(t)
}

func (p *proc) emit(t *Term, w io.Writer, leaves *[]*Term, seen map[*Term]bool) {
	if p.lia == nil {
		emit(t, p.defined, p.decl, w, leaves, seen)
		return
	}
	if t.op == OConst || seen[t] {
		return
	}
	seen[t] = true
	for _, x := range t.a {
		p.emit(x, w, leaves, seen)
	}
	if t.op == OVar || t.op == OApp {
		*leaves = append(*leaves, t)
	}
	if p.defined[t] {
		return
	}
	p.defined[t] = true
	switch t.op {
	case OVar:
		if !p.decl[t.name] {
			p.decl[t.name] = true
			fmt.Fprintf(w, "(declare-const |%s| %s)\n", t.name, liaSort(t))
		}
		return
	case OApp:
		if !p.decl["@"+t.name] {
			p.decl["@"+t.name] = true
			fmt.Fprintf(w, "(declare-fun |@%s| (Int) Int)\n", t.name)
		}
	}
	r := p.lia.get(t)
	if r.body != "" {
		fmt.Fprintf(w, "(define-fun %s () %s %s)\n", r.ref, liaSort(t), r.body)
	}
}

func (p *proc) getModel(leaves []*Term) (*Model, bool) {
	m := newModel()
	if len(leaves) == 0 {
		return m, true
	}
	fmt.Fprint(p.inb, "(get-value (")
	var want []*Term
	for _, t := range leaves {
		fmt.Fprint(p.inb, p.ref(t), " ")
		want = append(want, t)
		if t.op == OApp {
			ix := t.a[0]
			if !ix.isConst() {
				fmt.Fprint(p.inb, p.ref(ix), " ")
				want = append(want, ix)
			}
		}
	}
	fmt.Fprint(p.inb, "))\n")
	p.inb.Flush()
	txt, err := p.readSexp()
	if err != nil || strings.HasPrefix(txt, "(error") {
		return nil, false
	}
	vals, ok := parseValues(txt)
	if !ok || len(vals) != len(want) {
		return nil, false
	}
	fillModel(m, want, vals)
	return m, true
}

func fillModel(m *Model, want []*Term, vals []uint64) {
	for i := 0; i < len(want); i++ {
		t := want[i]
		switch t.op {
		case OApp:
			var idx uint64
			v := vals[i]
			if t.a[0].isConst() {
				idx = t.a[0].k
			} else {
				i++
				idx = vals[i]
				if t.a[0].op == OVar {
					m.v[t.a[0].name] = idx
				}
			}
			if m.m[t.name] == nil {
				m.m[t.name] = map[uint64]uint64{}
			}
			m.m[t.name][idx] = v
		case OVar:
			m.v[t.name] = vals[i]
		}
	}
}

func (p *proc) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		inq := false
		for i := 0; i < len(l); i++ {
			switch l[i] {
			case '|':
				inq = !inq
			case '(':
				if !inq {
					depth++
				}
			case ')':
				if !inq {
					depth--
				}
			}
		}
		if depth <= 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

// parseValues extracts the value of each (name value) pair.
func parseValues(txt string) ([]uint64, bool) {
	var out []uint64
	// tokenise
	var toks []string
	for i := 0; i < len(txt); {
		switch ch := txt[i]; {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '(' || ch == ')':
			toks = append(toks, string(ch))
			i++
		case ch == '|':
			j := strings.IndexByte(txt[i+1:], '|')
			if j < 0 {
				return nil, false
			}
			toks = append(toks, txt[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(txt) && !strings.ContainsRune(" \n\t\r()", rune(txt[j])) {
				j++
			}
			toks = append(toks, txt[i:j])
			i = j
		}
	}
	// ( (name val) (name val) ... ); val may be (_ bvN w)
	depth := 0
	for i := 0; i < len(toks); i++ {
		switch toks[i] {
		case "(":
			depth++
			if depth == 2 {
				// name: single token, or a parenthesised expression for numerals
				i++
				if toks[i] == "(" {
					d := 1
					for d > 0 {
						i++
						if toks[i] == "(" {
							d++
						} else if toks[i] == ")" {
							d--
						}
					}
				}
				i++
				v := toks[i]
				switch {
				case v == "true":
					out = append(out, 1)
				case v == "false":
					out = append(out, 0)
				case strings.HasPrefix(v, "#x"):
					n, err := strconv.ParseUint(v[2:], 16, 64)
					if err != nil {
						return nil, false
					}
					out = append(out, n)
				case strings.HasPrefix(v, "#b"):
					n, err := strconv.ParseUint(v[2:], 2, 64)
					if err != nil {
						return nil, false
					}
					out = append(out, n)
				case v == "(" && toks[i+1] == "-":
					n, err := strconv.ParseUint(toks[i+2], 10, 64)
					if err != nil {
						return nil, false
					}
					out = append(out, -n)
					i += 3
				case v[0] >= '0' && v[0] <= '9':
					n, err := strconv.ParseUint(v, 10, 64)
					if err != nil {
						return nil, false
					}
					out = append(out, n)
				case v == "(" && toks[i+1] == "_":
					n, err := strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
					if err != nil {
						return nil, false
					}
					out = append(out, n)
					i += 4
				default:
					return nil, false
				}
			}
		case ")":
			depth--
		}
	}
	return out, true
}

// oneShot re-decides a query with a fresh non-incremental solver.
func (s *Solver) oneShot(cs []*Term) (SatRes, *Model) {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_UFBV)\n")
	defined, decl, seen := map[*Term]bool{}, map[string]bool{}, map[*Term]bool{}
	var leaves []*Term
	for _, t := range cs {
		emit(t, defined, decl, &sb, &leaves, seen)
	}
	for _, t := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	var want []*Term
	if len(leaves) > 0 {
		sb.WriteString("(get-value (")
		for _, t := range leaves {
			sb.WriteString(ref(t) + " ")
			want = append(want, t)
			if t.op == OApp && !t.a[0].isConst() {
				sb.WriteString(ref(t.a[0]) + " ")
				want = append(want, t.a[0])
			}
		}
		sb.WriteString("))\n")
	}
	secs := s.timeout*3/1000 + 1
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", d, os.Getpid(), s.Queries), []byte(sb.String()), 0o644)
	}
	cmd := exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs))
	cmd.Stdin = strings.NewReader(sb.String())
	o, _ := cmd.Output()
	txt := strings.TrimSpace(string(o))
	if strings.HasPrefix(txt, "unsat") {
		return Unsat, nil
	}
	if strings.HasPrefix(txt, "sat") {
		m := newModel()
		vals, ok := parseValues(strings.TrimSpace(txt[3:]))
		if ok && len(vals) == len(want) {
			fillModel(m, want, vals)
			return Sat, m
		}
	}
	return Unknown, nil
}
