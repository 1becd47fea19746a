package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Sat uint8

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

// SolverStats counts the work of one worker's solver.
type SolverStats struct {
	Z3Queries   int64
	Z3Sat       int64
	Z3Unsat     int64
	Z3Unknown   int64
	Z3Errors    int64
	Z3Time      time.Duration
	CacheHits   int64
	ModelHits   int64
	DomainHits  int64
	EnumHits    int64 // decided over a small finite domain
	Audited     int64 // byte-domain verdicts confirmed by z3
	AssertQ     int64 // assertion queries decided by z3
	AssertConst int64 // assertions whose condition simplified to true
}

func (a *SolverStats) add(b *SolverStats) {
	a.Z3Queries += b.Z3Queries
	a.Z3Sat += b.Z3Sat
	a.Z3Unsat += b.Z3Unsat
	a.Z3Unknown += b.Z3Unknown
	a.Z3Errors += b.Z3Errors
	a.Z3Time += b.Z3Time
	a.CacheHits += b.CacheHits
	a.ModelHits += b.ModelHits
	a.DomainHits += b.DomainHits
	a.Audited += b.Audited
	a.EnumHits += b.EnumHits
	a.AssertQ += b.AssertQ
	a.AssertConst += b.AssertConst
}

type cacheEntry struct {
	res   Sat
	vars  []int32
	model []uint64
}

// Solver drives one z3 process.
type Solver struct {
	tc      *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	session uint32
	ndefs   int
	vardecl map[int32]bool
	cache   map[string]*cacheEntry
	stats   SolverStats
	timeout int // ms
	heights map[*Term]int
	logw    io.Writer
}

func NewSolver(tc *TermCtx, timeoutMS int) *Solver {
	return &Solver{tc: tc, cache: map[string]*cacheEntry{}, timeout: timeoutMS}
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.session++
	s.ndefs = 0
	s.vardecl = map[int32]bool{}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(sb *strings.Builder, t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		v := int32(t.val)
		if !s.vardecl[v] {
			s.vardecl[v] = true
			fmt.Fprintf(sb, "(declare-const v%d %s)\n", v, t.sort())
		}
		return
	}
	if t.z3def == s.session {
		return
	}
	if t.a != nil {
		s.define(sb, t.a)
	}
	if t.b != nil {
		s.define(sb, t.b)
	}
	if t.c != nil {
		s.define(sb, t.c)
	}
	t.z3def = s.session
	s.ndefs++
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, t.sort(), t.body())
}

// z3check asks z3 about the conjunction of cs. On sat, values of vars are returned.
func (s *Solver) z3check(cs []*Term) (Sat, []int32, []uint64) {
	t0 := time.Now()
	defer func() { s.stats.Z3Time += time.Since(t0) }()
	s.stats.Z3Queries++
	if s.cmd != nil && s.ndefs > 60000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.stats.Z3Errors++
			return Unknown, nil, nil
		}
	}
	var sb strings.Builder
	var vs []int32
	for _, c := range cs {
		s.define(&sb, c)
		vs = mergeVars(vs, c.vs)
	}
	sb.WriteString("(push)\n")
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	if s.logw != nil {
		io.WriteString(s.logw, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.fail()
		return Unknown, nil, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.fail()
		return Unknown, nil, nil
	}
	switch line {
	case "unsat":
		io.WriteString(s.in, "(pop)\n")
		s.stats.Z3Unsat++
		return Unsat, nil, nil
	case "sat":
		s.stats.Z3Sat++
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vs {
			fmt.Fprintf(&q, "v%d ", v)
		}
		q.WriteString("))\n(pop)\n")
		if len(vs) == 0 {
			io.WriteString(s.in, "(pop)\n")
			return SatYes, nil, nil
		}
		io.WriteString(s.in, q.String())
		m, err := s.readValues(vs)
		if err != nil {
			s.fail()
			return Unknown, nil, nil
		}
		return SatYes, vs, m
	case "unknown":
		s.stats.Z3Unknown++
		io.WriteString(s.in, "(pop)\n")
		return Unknown, nil, nil
	}
	s.fail()
	return Unknown, nil, nil
}

func (s *Solver) fail() {
	s.stats.Z3Errors++
	s.Close()
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readValues(vs []int32) ([]uint64, error) {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("z3: %s", txt)
	}
	r := make([]uint64, len(vs))
	pos := map[string]int{}
	for i, v := range vs {
		pos[fmt.Sprintf("v%d", v)] = i
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); i += 2 {
		k, ok := pos[f[i]]
		if !ok {
			return nil, fmt.Errorf("z3 value for %q", f[i])
		}
		val := f[i+1]
		var n uint64
		var err error
		switch {
		case strings.HasPrefix(val, "#x"):
			n, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			n, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("z3 value %q", val)
		}
		if err != nil {
			return nil, err
		}
		r[k] = n
	}
	return r, nil
}

func cacheKey(cs []*Term) string {
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	b := make([]byte, 0, len(ids)*4)
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

// Cached reports whether the verdict on cs is known.
func (s *Solver) Cached(cs []*Term) bool {
	_, ok := s.cache[cacheKey(cs)]
	return ok
}

// Check decides the conjunction cs using the cache, then z3.
// slowQuery makes solver queries that take longer visible (VSYM_SLOW, a duration).
var slowQuery, _ = time.ParseDuration(os.Getenv("VSYM_SLOW"))

func (s *Solver) Check(cs []*Term) (Sat, []int32, []uint64) {
	k := cacheKey(cs)
	if e, ok := s.cache[k]; ok {
		s.stats.CacheHits++
		return e.res, e.vars, e.model
	}
	t0 := time.Now()
	if s.unsatAbove(cs) {
		s.cache[k] = &cacheEntry{Unsat, nil, nil}
		return Unsat, nil, nil
	}
	r, vs, m := s.z3check(cs)
	if slowQuery > 0 && time.Since(t0) > slowQuery {
		for _, c := range cs {
			fmt.Fprintf(os.Stderr, "SLOW %v %v: %s\n", time.Since(t0), r, c.String())
		}
	}
	if r != Unknown {
		if len(s.cache) > 400000 {
			s.cache = map[string]*cacheEntry{}
		}
		s.cache[k] = &cacheEntry{r, vs, m}
	}
	return r, vs, m
}

// remHeight is the largest number of remainders by constants nested in t.
func (s *Solver) remHeight(t *Term) int {
	if t == nil || t.op == OVar || t.op == OConst {
		return 0
	}
	if h, ok := s.heights[t]; ok {
		return h
	}
	h := max(s.remHeight(t.a), s.remHeight(t.b), s.remHeight(t.c))
	if t.op == OUrem && t.b.op == OConst && t.b.val > 0 {
		h++
	}
	s.heights[t] = h
	return h
}

// unsatAbove tries to show that cs cannot hold even if long chains of remainders below the last
// few are replaced by arbitrary numbers in their range. That is sound for unsatisfiability only.
func (s *Solver) unsatAbove(cs []*Term) bool {
	if s.heights == nil || len(s.heights) > 1<<20 {
		s.heights = map[*Term]int{}
	}
	top := 0
	for _, c := range cs {
		top = max(top, s.remHeight(c))
	}
	if top < 5 {
		return false
	}
	for _, keep := range []int{2, 3, 5} {
		if top-keep < 2 {
			break
		}
		memo := map[*Term]*Term{}
		var bounds []*Term
		var cut func(t *Term) *Term
		cut = func(t *Term) *Term {
			if t == nil || s.remHeight(t) == 0 {
				return t
			}
			if r, ok := memo[t]; ok {
				return r
			}
			var r *Term
			if t.op == OUrem && t.b.op == OConst && t.b.val > 0 && s.remHeight(t) <= top-keep {
				r = s.tc.Var(fmt.Sprintf("cut#%d", t.id), t.w)
				bounds = append(bounds, s.tc.Ult(r, t.b))
			} else {
				r = s.tc.mk(t.op, t.w, t.val, cut(t.a), cut(t.b), cut(t.c))
			}
			memo[t] = r
			return r
		}
		var out []*Term
		for _, c := range cs {
			out = append(out, cut(c))
		}
		if s.cmd != nil {
			fmt.Fprintf(s.in, "(set-option :timeout 2000)\n")
		}
		r, _, _ := s.z3check(append(out, bounds...))
		if s.cmd != nil {
			fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
		}
		if r == Unsat {
			return true
		}
	}
	return false
}

// slice returns the constraints of pc transitively sharing variables with q.
func slicePC(pc []*Term, q *Term) []*Term {
	if len(q.vs) == 0 {
		return []*Term{q}
	}
	vs := q.vs
	used := make([]bool, len(pc))
	res := []*Term{q}
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			if intersects(c.vs, vs) {
				used[i] = true
				res = append(res, c)
				n := mergeVars(vs, c.vs)
				if len(n) != len(vs) {
					vs = n
					changed = true
				}
			}
		}
	}
	return res
}

func intersects(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			return true
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return false
}
