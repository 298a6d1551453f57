package tape

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation.
type Frame struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	i     int
	env   map[ssa.Value]Val
	call  ssa.Value // of the caller: receives the result
	many  int       // so many frames that end here may be there more than once
}

// Obj is an object of the heap: its scalar parts by path.
type Obj struct {
	t types.Type
	f map[string]Val
}

// lost is the offset of a level about which nothing is known.
const lost = 99

// State is an abstract state.
type State struct {
	frames []*Frame
	objs   map[int64]*Obj
	next   int64

	HAbs  int  // elements looked at, up to 4
	Know  int  // of the next element: 0 nothing, 1 there is one, 2 there is none
	AOff  int  // the anchor: the end of the output so far
	Some  bool // there is output
	Taint bool // something was decided either way without knowing
	NoIn  bool // reading the input failed
	Read  bool // the input has been read
	Cls   [Window]int
	G     Ghost

	leaving bool // the anchor has just left the window
	was     int  // where the anchor was when it was made old (0: it was not)

	popped bool // one of any number of equal frames was left

	from  *State
	label []int // classes of the elements that were looked at on the way here
	node  int
}

// Ghost is the specification's own state.
type Ghost interface {
	Clone() Ghost
	Key() string
	// Next lists the classes the next element can have.
	Next() []int
	// Look takes an element of class c; variants are the ways to go on.
	Look(m *Machine, st *State, c int) []Ghost
	// Depth is the depth levels are relative to, exact or a lower bound.
	Depth() (int, bool)
	// Moved is by how much the last element changed it.
	Moved() int64
	// Trim forgets what lies further back than off.
	Trim(st *State, off int)
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames[i] = &g
	}
	n.objs = make(map[int64]*Obj, len(s.objs))
	for k, o := range s.objs {
		p := &Obj{o.t, make(map[string]Val, len(o.f))}
		for a, v := range o.f {
			p.f[a] = v
		}
		n.objs[k] = p
	}
	n.G = s.G.Clone()
	n.from, n.label = s.from, s.label
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// values calls f on every value of the state.
func (s *State) values(f func(*Val)) {
	for _, fr := range s.frames {
		for k, v := range fr.env {
			v.each(f)
			fr.env[k] = v
		}
	}
	for _, o := range s.objs {
		for k, v := range o.f {
			v.each(f)
			o.f[k] = v
		}
	}
}

// look makes the next element, of class c, known.
func (m *Machine) look(s *State, c int) []*State {
	a := s.AOff
	s.leaving = false
	s.values(func(v *Val) { v.moved(a) })
	if s.AOff != old {
		if s.AOff--; s.AOff < -Window {
			s.AOff = old
			s.leaving = true
		}
	}
	if s.HAbs < 4 {
		s.HAbs++
	}
	copy(s.Cls[1:], s.Cls[:Window-1])
	s.Cls[0] = c
	s.Know = 0
	s.label = append(append([]int(nil), s.label...), c)
	var out []*State
	gs := s.G.Look(m, s, c)
	for i, g := range gs {
		n := s
		if i < len(gs)-1 {
			n = s.clone()
		}
		n.G = g
		d := g.Moved()
		if d != 0 {
			n.values(func(v *Val) {
				if v.K == Level {
					if v.N == lost || d == lost {
						v.N = lost
						return
					}
					v.N -= d
					if v.N < -3 || v.N > 3 {
						*v = Val{}
					}
				}
			})
		}
		if m.Looked != nil {
			m.Looked(m, n)
		}
		out = append(out, n)
	}
	return out
}

// at is the class of the element at off, if it is still known.
func (s *State) at(off int) int {
	if off == old || off >= 0 || -off > Window {
		return -1
	}
	return s.Cls[-off-1]
}

// isAnchor tells whether a position is the end of the output so far.
func (s *State) isAnchor(off int, a bool) bool {
	if off == old {
		return s.AOff == old && a
	}
	return s.AOff == off
}

// setAnchor moves the end of the output to off.
func (s *State) setAnchor(off int) {
	s.AOff = off
	s.Some = true
	s.values(func(v *Val) {
		v.A, v.EA = false, false
		if v.K == List {
			v.A = false
		}
	})
}

// trim drops what cannot be looked at again and puts the state into its
// canonical form.
func (m *Machine) trim(s *State) {
	m.live(s)
	min, read := 0, 0
	low := func(m *int, off int) {
		if off != old && off < *m {
			*m = off
		}
	}
	s.values(func(v *Val) {
		switch v.K {
		case Cell:
			low(&read, v.Off)
		case Part:
			low(&min, v.Off)
		case Lit:
			for _, e := range v.L {
				if e.K == Elem {
					low(&min, e.Off)
				}
			}
		case Buf, Str:
			if !v.empty() {
				low(&min, v.E)
			}
		}
	})
	pos := func(k any, v Val) {
		if v.K == Pos {
			low(&min, v.Off)
			if m.index[k] || m.Back > 0 {
				low(&read, v.Off)
			}
		}
	}
	for _, f := range s.frames {
		for k, v := range f.env {
			pos(k, v)
			v.each(func(x *Val) {
				if x.K == Pos && v.K != Pos {
					low(&read, x.Off)
				}
			})
		}
	}
	for _, o := range s.objs {
		for k, v := range o.f {
			if n, err := strconv.Atoi(strings.TrimPrefix(k, ".")); err == nil {
				pos(fieldKey(o.t, n), v)
			} else if v.K == Pos {
				low(&read, v.Off)
			}
		}
	}
	// a position one step back can still be made
	low(&min, read-1)
	low(&read, -1)
	for i, c := range s.Cls {
		w, ok := m.Input.(interface{ Weak(c int) int })
		switch p := -(i + 1); {
		case p >= read || c < 0:
		case ok && p >= read-m.Back:
			s.Cls[i] = w.Weak(c)
		default:
			s.Cls[i] = -1
		}
	}
	if s.AOff != old && s.AOff < min {
		off := s.AOff
		s.AOff, s.was = old, off
		s.values(func(v *Val) {
			if (v.K == Pos || v.K == Cell || v.K == Buf || v.K == Str) && !v.empty() && v.Off == off {
				v.Off, v.A = old, true
			}
		})
	}
	s.values(func(v *Val) {
		if (v.K == Buf || v.K == Str) && !v.empty() && v.Off != old && v.Off < min && v.Off != s.AOff {
			v.Off, v.A = old, false
		}
		if v.K == Elem && v.Off < min {
			v.Off = old
		}
	})
	s.G.Trim(s, min)
}

// live drops values and objects which are not used any more.
func (m *Machine) live(s *State) {
	for i, f := range s.frames {
		var l map[ssa.Value]bool
		if i == len(s.frames)-1 {
			l = m.liveAt(f.block, f.i)
		} else {
			l = m.liveAt(f.block, f.i)
			delete(l, f.call)
		}
		for k := range f.env {
			if !l[k] {
				delete(f.env, k)
			}
		}
	}
	ren := map[int64]int64{}
	var order []int64
	var mark func(v Val)
	mark = func(v Val) {
		if v.K == Ptr && v.N >= 0 {
			if _, ok := ren[v.N]; !ok {
				ren[v.N] = int64(len(order))
				order = append(order, v.N)
			}
		}
		for _, x := range v.L {
			mark(x)
		}
	}
	for _, f := range s.frames {
		for _, k := range m.sorted(f) {
			mark(f.env[k])
		}
	}
	for i := 0; i < len(order); i++ {
		o := s.objs[order[i]]
		if o == nil {
			continue
		}
		for _, k := range sortedPaths(o) {
			mark(o.f[k])
		}
	}
	objs := map[int64]*Obj{}
	for a, b := range ren {
		if s.objs[a] != nil {
			objs[b] = s.objs[a]
		}
	}
	s.objs = objs
	s.next = int64(len(order))
	s.values(func(v *Val) {
		if v.K == Ptr && v.N >= 0 {
			v.N = ren[v.N]
		}
	})
}

func sortedPaths(o *Obj) []string {
	var ks []string
	for k := range o.f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *Machine) sorted(f *Frame) []ssa.Value {
	ix := m.info(f.fn).index
	ks := make([]ssa.Value, 0, len(f.env))
	for k := range f.env {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ix[ks[i]] < ix[ks[j]] })
	return ks
}

func (m *Machine) key(s *State) string {
	var sb strings.Builder
	id := func(n int64) int64 { return n }
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "%p %d.%d %d|", f.fn, f.block.Index, f.i, f.many)
		ix := m.info(f.fn).index
		for _, k := range m.sorted(f) {
			fmt.Fprintf(&sb, "%d", ix[k])
			v := f.env[k]
			v.key(&sb, id)
		}
	}
	var ids []int64
	for k := range s.objs {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, k := range ids {
		o := s.objs[k]
		fmt.Fprintf(&sb, "#%d", k)
		for _, p := range sortedPaths(o) {
			sb.WriteString(p)
			v := o.f[p]
			v.key(&sb, id)
		}
	}
	fmt.Fprintf(&sb, "|%d %d %d %v%v%v%v %v|", s.HAbs, s.Know, s.AOff, s.Some, s.Taint, s.NoIn, s.Read, s.Cls)
	sb.WriteString(s.G.Key())
	return sb.String()
}
