package main

// Abstract states: memory cells, facts about values, and the trace of effects so far.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iv struct{ lo, hi int64 }

type State struct {
	heap  map[*Term]*Term
	lits  map[*Term]bool
	ivs   map[*Term]iv
	smash map[string]int  // field summaries modified by a loop through iteration-dependent addresses
	esc   map[*Term]*Term // objects handed to unknown code -> unknown marker
	ev    *Ev
	beq   bool // some fact is an equality of conditions
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, lits: map[*Term]bool{}, ivs: map[*Term]iv{}, smash: map[string]int{}, esc: map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{
		heap:  make(map[*Term]*Term, len(s.heap)+4),
		lits:  make(map[*Term]bool, len(s.lits)+2),
		ivs:   make(map[*Term]iv, len(s.ivs)+2),
		smash: make(map[string]int, len(s.smash)),
		esc:   make(map[*Term]*Term, len(s.esc)),
		ev:    s.ev,
		beq:   s.beq,
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	for k, v := range s.ivs {
		n.ivs[k] = v
	}
	for k, v := range s.smash {
		n.smash[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	return n
}

// Ev is one effect of a path (a persistent list, newest first).
type Ev struct {
	Prev  *Ev
	N     int
	Kind  string // call, send, recv, go, close, loop, store, ...
	Name  string
	Args  []*Term
	Ret   *Term
	Pos   token.Pos
	In    *ssa.Function
	Loop  *LoopInfo
	Snap  *State // for go: memory at the start of the goroutine
	Fn    *ssa.Function
	Stack string
	key   string
}

func (s *State) emit(e *Ev) *Ev {
	e.Prev = s.ev
	if s.ev != nil {
		e.N = s.ev.N + 1
	} else {
		e.N = 1
	}
	var b strings.Builder
	if s.ev != nil {
		b.WriteString(s.ev.key)
	}
	fmt.Fprintf(&b, ";%s:%s:%d", e.Kind, e.Name, e.Pos)
	for _, a := range e.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	if e.Ret != nil {
		fmt.Fprintf(&b, "=%d", e.Ret.ID)
	}
	if e.Loop != nil {
		fmt.Fprintf(&b, "L%d", e.Loop.ID)
	}
	e.key = hashKey(b.String())
	s.ev = e
	return e
}

var hashTab = map[string]string{}

func hashKey(s string) string {
	if h, ok := hashTab[s]; ok {
		return h
	}
	h := fmt.Sprintf("h%d", len(hashTab))
	hashTab[s] = h
	return h
}

// events returns the effects oldest first, after (exclusive) from.
func (e *Ev) list() []*Ev {
	var r []*Ev
	for ; e != nil; e = e.Prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- facts ----

func (s *State) atomBounds(t *Term) (int64, int64) {
	lo, hi := rangeOf(t)
	if v, ok := s.ivs[t]; ok {
		if v.lo > lo {
			lo = v.lo
		}
		if v.hi < hi {
			hi = v.hi
		}
	}
	return lo, hi
}

// bounds of an integer term in this state.
func (s *State) bounds(t *Term) (int64, int64) {
	lo, hi := s.atomBounds(t)
	if t.K == KPoly {
		q, c := splitConst(t)
		if c != 0 {
			l, h := s.bounds(q)
			l, h = satAdd(l, c), satAdd(h, c)
			return maxI64(lo, l), minI64(hi, h)
		}
		// negated fact
		nq := Scale(t, -1)
		if v, ok := s.ivs[nq]; ok {
			if v.hi < maxI && -v.hi > lo {
				lo = -v.hi
			}
			if v.lo > minI && -v.lo < hi {
				hi = -v.lo
			}
		}
		l, h := int64(0), int64(0)
		for _, m := range t.P {
			if len(m.A) != 1 {
				var x *Term = mkPoly([]Mono{{1, m.A}})
				al, ah := rangeOf(x)
				l, h = addScaled(l, h, m.C, al, ah)
				continue
			}
			al, ah := s.atomBounds(m.A[0])
			l, h = addScaled(l, h, m.C, al, ah)
		}
		lo, hi = maxI64(lo, l), minI64(hi, h)
	}
	return lo, hi
}

func addScaled(l, h, c, al, ah int64) (int64, int64) {
	if c < 0 {
		al, ah = ah, al
	}
	x, ok := mulSafe(c, al)
	if !ok || al == minI || al == maxI {
		x = minI
	}
	y, ok := mulSafe(c, ah)
	if !ok || ah == minI || ah == maxI {
		y = maxI
	}
	return satAdd(l, x), satAdd(h, y)
}

func maxI64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func minI64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// decide returns whether a condition is settled in this state.
func (s *State) decide(c *Term) (known, val bool) {
	if c.isOp("not") {
		k, v := s.decide(c.Args[0])
		return k, !v
	}
	if c == tTrue {
		return true, true
	}
	if c == tFalse {
		return true, false
	}
	if v, ok := s.lits[c]; ok {
		return true, v
	}
	switch {
	case c.isOp("eq") && c.Args[1].K == KInt && isIntTerm(c.Args[0]):
		lo, hi := s.bounds(c.Args[0])
		n := c.Args[1].I
		if n < lo || n > hi {
			return true, false
		}
		if lo == hi && lo == n {
			return true, true
		}
	case c.isOp("lt"):
		lo, hi := s.bounds(c.Args[0])
		n := c.Args[1].I
		if hi < n {
			return true, true
		}
		if lo >= n {
			return true, false
		}
	case c.isOp("ult"):
		al, ah := s.bounds(c.Args[0])
		bl, bh := s.bounds(c.Args[1])
		if al >= 0 && bl >= 0 {
			if ah < bl {
				return true, true
			}
			if al >= bh {
				return true, false
			}
			d := Sub(c.Args[0], c.Args[1])
			l, h := s.bounds(d)
			if h < 0 {
				return true, true
			}
			if l >= 0 {
				return true, false
			}
		}
		if al >= 0 && c.Args[1].K == KInt && c.Args[1].I < 0 { // small < huge
			return true, true
		}
	}
	if bitsDecide != nil {
		if k, v := bitsDecide(s, c); k {
			return k, v
		}
	}
	if c.isOp("eq") && boolOp(c.Args[0]) && boolOp(c.Args[1]) {
		if k, a := s.decide(c.Args[0]); k {
			if k, b := s.decide(c.Args[1]); k {
				return true, a == b
			}
		}
	}
	if s.beq { // c == other condition
		for l, v := range s.lits {
			if l.isOp("eq") && boolOp(l.Args[0]) && boolOp(l.Args[1]) && (l.Args[0] == c || l.Args[1] == c) {
				o := l.Args[0]
				if o == c {
					o = l.Args[1]
				}
				if ov, ok := s.lits[o]; ok {
					return true, ov == v
				}
			}
		}
	}
	return false, false
}

var bitsDecide func(s *State, c *Term) (bool, bool)

// assume adds a fact; it returns false when the state becomes impossible.
func (s *State) assume(c *Term, v bool) bool {
	if c.isOp("not") {
		return s.assume(c.Args[0], !v)
	}
	if k, kv := s.decide(c); k {
		if kv != v {
			return false
		}
		if _, ok := s.lits[c]; !ok && c.K != KBool {
			s.lits[c] = v
		}
		return true
	}
	s.lits[c] = v
	if c.isOp("eq") && boolOp(c.Args[0]) && boolOp(c.Args[1]) {
		s.beq = true
	}
	set := func(q *Term, lo, hi int64) {
		var cl, ch int64 = minI, maxI
		if w, ok := s.ivs[q]; ok {
			cl, ch = w.lo, w.hi
		}
		s.ivs[q] = iv{maxI64(cl, lo), minI64(ch, hi)}
	}
	switch {
	case c.isOp("eq") && c.Args[1].K == KInt && isIntTerm(c.Args[0]):
		q, n := c.Args[0], c.Args[1].I
		if v {
			set(q, n, n)
		} else {
			lo, hi := s.bounds(q)
			if lo == n {
				set(q, n+1, maxI)
			} else if hi == n {
				set(q, minI, n-1)
			}
		}
	case c.isOp("lt"):
		q, n := c.Args[0], c.Args[1].I
		if v {
			set(q, minI, n-1)
		} else {
			set(q, n, maxI)
		}
		if q.K == KPoly && len(q.P) > 1 {
			s.extreme(q, set)
		}
	case c.isOp("ult"):
		a, b := c.Args[0], c.Args[1]
		if v && b.K == KInt && b.I > 0 {
			set(a, 0, b.I-1)
		}
		al, _ := s.bounds(a)
		bl, _ := s.bounds(b)
		if al >= 0 && bl >= 0 {
			if b.K == KInt {
				if !v {
					set(a, b.I, maxI)
				}
			} else {
				l := Lt(a, b, false)
				if l.K != KBool {
					return s.assume(l, v)
				}
			}
		}
	}
	if bitsAssume != nil {
		return bitsAssume(s, c, v)
	}
	return true
}

// extreme: a sum that can be no larger than the sum of the least values of its parts (or no smaller than that of the
// greatest) fixes them.
func (s *State) extreme(q *Term, set func(q *Term, lo, hi int64)) {
	w := s.ivs[q]
	type part struct {
		a      *Term
		lo, hi int64 // where the part is least, and greatest
	}
	var l []part
	low, high := int64(0), int64(0)
	for _, m := range q.P {
		if len(m.A) != 1 {
			return
		}
		al, ah := s.atomBounds(m.A[0])
		low, high = addScaled(low, high, m.C, al, ah)
		if m.C < 0 {
			al, ah = ah, al
		}
		l = append(l, part{m.A[0], al, ah})
	}
	for _, x := range l {
		if low > minI && w.hi <= low {
			set(x.a, x.lo, x.lo)
		}
		if high < maxI && w.lo >= high {
			set(x.a, x.hi, x.hi)
		}
	}
}

var bitsAssume func(s *State, c *Term, v bool) bool

func (s *State) litKey() string {
	var ids []int
	for t, v := range s.lits {
		id := t.ID * 2
		if v {
			id++
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

func (s *State) heapKey() string {
	type kv struct{ a, b int }
	var l []kv
	for k, v := range s.heap {
		l = append(l, kv{k.ID, v.ID})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].a < l[j].a })
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "%d:%d,", x.a, x.b)
	}
	return b.String()
}

// meet keeps the facts common to both states (used when two paths re-join with equal memory and effects).
func (s *State) meet(o *State) {
	for k, v := range s.lits {
		if ov, ok := o.lits[k]; !ok || ov != v {
			delete(s.lits, k)
		}
	}
	for k, v := range s.ivs {
		ov, ok := o.ivs[k]
		if !ok {
			l, h := o.bounds(k)
			ov = iv{l, h}
		}
		n := iv{minI64(v.lo, ov.lo), maxI64(v.hi, ov.hi)}
		if n.lo == minI && n.hi == maxI {
			delete(s.ivs, k)
		} else {
			s.ivs[k] = n
		}
	}
}

// ---- memory ----

func fieldKey(addr *Term) string {
	if addr.isOp("fld") && addr.X != nil {
		return types.TypeString(addr.X.(types.Type), nil) + "." + addr.S
	}
	return ""
}

// splitAddr separates the memory cell from the functional path below it (elements of arrays).
func splitAddr(addr *Term) (cell *Term, path []*Term) {
	var chain []*Term
	for a := addr; a.isOp("fld") || a.isOp("idx"); a = a.Args[0] {
		chain = append(chain, a)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		if chain[i].Op == "idx" {
			cell = chain[i].Args[0]
			for j := i; j >= 0; j-- {
				path = append(path, chain[j])
			}
			return
		}
	}
	return addr, nil
}

func (s *State) defaultCell(cell *Term, T types.Type, content bool) *Term {
	root := rootOf(cell)
	if e, ok := s.esc[root]; ok && root != nil {
		return Op("loadx", "", T, cell, e)
	}
	if root.isOp("obj") {
		if content {
			return Op("zeroc", "", T)
		}
		return zeroOf(T)
	}
	if fk := fieldKey(cell); fk != "" {
		if n, ok := s.smash[fk]; ok {
			return Op("loadm", fmt.Sprint(n), T, cell)
		}
	}
	if content {
		return Op("cont0", "", nil, cell)
	}
	return Op("load", "", T, cell)
}

func (s *State) readCell(cell *Term, T types.Type, content bool) *Term {
	if v, ok := s.heap[cell]; ok {
		return v
	}
	return s.defaultCell(cell, T, content)
}

func (s *State) load(addr *Term, T types.Type) *Term {
	if addr.isOp("convert") || addr.isOp("fld") && addr.Args[0].isOp("convert") {
		if v := s.loadHeader(addr, T); v != nil {
			return v
		}
	}
	cell, path := splitAddr(addr)
	if len(path) == 0 {
		switch u := under(T).(type) {
		case *types.Struct:
			fs := make([]*Term, u.NumFields())
			for i := range fs {
				fs[i] = s.load(FieldAddrT(cell, i, T), u.Field(i).Type())
			}
			return Struct(T, fs)
		case *types.Array:
			return s.readCell(cell, u.Elem(), true)
		}
		return s.readCell(cell, T, false)
	}
	v := s.readCell(cell, path[0].T, true)
	return readPath(v, path)
}

func readPath(v *Term, path []*Term) *Term {
	for _, p := range path {
		if p.Op == "idx" {
			v = Select(v, p.Args[1], p.T)
		} else {
			i := 0
			fmt.Sscan(p.S, &i)
			v = Field(v, i, p.T)
		}
	}
	return v
}

func (s *State) store(addr, v *Term, T types.Type) {
	if addr.isOp("fld") && addr.Args[0].isOp("convert") && s.storeHeader(addr, v) {
		return
	}
	cell, path := splitAddr(addr)
	if len(path) == 0 {
		if u, ok := under(T).(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				s.store(FieldAddrT(cell, i, T), Field(v, i, u.Field(i).Type()), u.Field(i).Type())
			}
			return
		}
		s.heap[cell] = v
		return
	}
	c := s.readCell(cell, path[0].T, true)
	s.heap[cell] = updatePath(c, path, v)
}

func updatePath(c *Term, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.Op == "idx" {
		inner := v
		if len(path) > 1 {
			inner = updatePath(Select(c, p.Args[1], p.T), path[1:], v)
		}
		return StoreC(c, p.Args[1], inner)
	}
	i := 0
	fmt.Sscan(p.S, &i)
	st := p.X.(types.Type)
	u := under(st).(*types.Struct)
	fs := make([]*Term, u.NumFields())
	for j := range fs {
		fs[j] = Field(c, j, u.Field(j).Type())
		if j == i {
			fs[j] = updatePath(fs[j], path[1:], v)
		}
	}
	return Struct(st, fs)
}

// contentOf is the current content of the array behind a slice value.
func (s *State) contentOf(sl *Term, elem types.Type) (content, lo *Term) {
	arr, lo := arrOf(sl)
	return s.readCell(arr, elem, true), lo
}

// snap freezes a slice value: windows over mutable arrays become snapshots.
// keepIdentity: lists stay references to their memory instead of being replaced by what they contain (for analyses
// of aliasing).
var keepIdentity bool

func (s *State) snap(sl *Term, elem types.Type) *Term {
	if keepIdentity {
		return sl
	}
	if sl.K == KStr || sl == tNil || sl.isOp("app") && s.heap[Op("arr", "", nil, sl)] == nil {
		return sl
	}
	arr, lo := arrOf(sl)
	c, changed := s.heap[arr]
	if !changed {
		if sl.isOp("slice") && isObj(rootOf(arr)) {
			return Op("seq", "", sl.T, s.readCell(arr, elem, true), lo, Len(sl))
		}
		return sl
	}
	return Op("seq", "", sl.T, c, lo, Len(sl))
}

// elem reads element i of a slice value.
func (s *State) elem(sl, i *Term, T types.Type) *Term {
	arr, lo := arrOf(sl)
	return s.load(IndexAddrT(arr, Add(lo, i), T), T)
}
