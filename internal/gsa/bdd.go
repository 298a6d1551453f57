// Package gsa is a gated value-flow analysis over go/ssa: for every value it
// computes the guarded set of canonical terms the value can be, for every
// statement the condition (over canonical predicate atoms) under which it
// executes, and the list of side effects with their conditions. Nothing is
// executed and no solver is involved: conditions are kept in binary decision
// diagrams and every block is evaluated once (loop bodies once per generic
// iteration).
package gsa

// Node is a BDD node; 0 is false, 1 is true.
type Node int32

const (
	False Node = 0
	True  Node = 1
)

type bddNode struct {
	v      int32
	lo, hi Node
}

type bddKey struct {
	v      int32
	lo, hi Node
}

type iteKey struct{ f, g, h Node }

// MaxNodes bounds the size of a manager; beyond it the analysis gives up.
var MaxNodes = 12000000

// TooBig is the panic raised when an analysis exceeds its bounds.
type TooBig struct{}

func (TooBig) Error() string { return "analysis too big" }

// BDD is a manager of reduced ordered binary decision diagrams.
type BDD struct {
	nodes []bddNode
	uniq  map[bddKey]Node
	ites  map[iteKey]Node
}

// NewBDD returns an empty manager.
func NewBDD() *BDD {
	b := &BDD{uniq: map[bddKey]Node{}, ites: map[iteKey]Node{}}
	const maxv = int32(1<<31 - 1)
	b.nodes = append(b.nodes, bddNode{v: maxv}, bddNode{v: maxv})
	return b
}

func (b *BDD) mk(v int32, lo, hi Node) Node {
	if lo == hi {
		return lo
	}
	k := bddKey{v, lo, hi}
	if n, ok := b.uniq[k]; ok {
		return n
	}
	n := Node(len(b.nodes))
	if len(b.nodes) > MaxNodes {
		panic(TooBig{})
	}
	b.nodes = append(b.nodes, bddNode{v, lo, hi})
	b.uniq[k] = n
	return n
}

// Var returns the node for variable v.
func (b *BDD) Var(v int) Node { return b.mk(int32(v), False, True) }

func (b *BDD) cof(n Node, v int32) (Node, Node) {
	nd := b.nodes[n]
	if n > 1 && nd.v == v {
		return nd.lo, nd.hi
	}
	return n, n
}

// ITE returns if f then g else h.
func (b *BDD) ITE(f, g, h Node) Node {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := iteKey{f, g, h}
	if n, ok := b.ites[k]; ok {
		return n
	}
	v := b.nodes[f].v
	if w := b.nodes[g].v; w < v {
		v = w
	}
	if w := b.nodes[h].v; w < v {
		v = w
	}
	f0, f1 := b.cof(f, v)
	g0, g1 := b.cof(g, v)
	h0, h1 := b.cof(h, v)
	n := b.mk(v, b.ITE(f0, g0, h0), b.ITE(f1, g1, h1))
	b.ites[k] = n
	return n
}

// And returns the conjunction.
func (b *BDD) And(ns ...Node) Node {
	r := True
	for _, n := range ns {
		r = b.ITE(r, n, False)
	}
	return r
}

// Or returns the disjunction.
func (b *BDD) Or(ns ...Node) Node {
	r := False
	for _, n := range ns {
		r = b.ITE(r, True, n)
	}
	return r
}

// Not returns the negation.
func (b *BDD) Not(n Node) Node { return b.ITE(n, False, True) }

// AndNot returns f and not g.
func (b *BDD) AndNot(f, g Node) Node { return b.ITE(g, False, f) }

// Restrict fixes variable v.
func (b *BDD) Restrict(n Node, v int, val bool) Node {
	memo := map[Node]Node{}
	var rec func(Node) Node
	rec = func(n Node) Node {
		if n <= 1 || b.nodes[n].v > int32(v) {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		nd := b.nodes[n]
		var r Node
		if nd.v == int32(v) {
			if val {
				r = nd.hi
			} else {
				r = nd.lo
			}
		} else {
			r = b.mk(nd.v, rec(nd.lo), rec(nd.hi))
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

// Exists quantifies variable v existentially.
func (b *BDD) Exists(n Node, v int) Node {
	return b.Or(b.Restrict(n, v, false), b.Restrict(n, v, true))
}

// Support returns the variables n depends on.
func (b *BDD) Support(n Node) map[int]bool {
	out := map[int]bool{}
	seen := map[Node]bool{}
	var rec func(Node)
	rec = func(n Node) {
		if n <= 1 || seen[n] {
			return
		}
		seen[n] = true
		nd := b.nodes[n]
		out[int(nd.v)] = true
		rec(nd.lo)
		rec(nd.hi)
	}
	rec(n)
	return out
}

// OneSat returns a satisfying assignment (partial), or nil.
func (b *BDD) OneSat(n Node) map[int]bool {
	if n == False {
		return nil
	}
	out := map[int]bool{}
	for n > 1 {
		nd := b.nodes[n]
		if nd.hi != False {
			out[int(nd.v)] = true
			n = nd.hi
		} else {
			out[int(nd.v)] = false
			n = nd.lo
		}
	}
	return out
}

// Size is the number of nodes allocated.
func (b *BDD) Size() int { return len(b.nodes) }

// Simplify returns a (usually smaller) node that agrees with f wherever care
// holds.
func (b *BDD) Simplify(f, care Node) Node {
	memo := map[[2]Node]Node{}
	var rec func(f, c Node) Node
	rec = func(f, c Node) Node {
		if c == False || f <= 1 || c == True {
			return f
		}
		if f == c {
			return True
		}
		k := [2]Node{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		fv, cv := b.nodes[f].v, b.nodes[c].v
		var r Node
		switch {
		case cv < fv:
			r = rec(f, b.Or(b.nodes[c].lo, b.nodes[c].hi))
		case fv < cv:
			r = b.mk(fv, rec(b.nodes[f].lo, c), rec(b.nodes[f].hi, c))
		default:
			c0, c1 := b.nodes[c].lo, b.nodes[c].hi
			f0, f1 := b.nodes[f].lo, b.nodes[f].hi
			if c0 == False {
				r = rec(f1, c1)
			} else if c1 == False {
				r = rec(f0, c0)
			} else {
				r = b.mk(fv, rec(f0, c0), rec(f1, c1))
			}
		}
		memo[k] = r
		return r
	}
	if care == False {
		return False
	}
	return rec(f, care)
}

// Xor is exclusive or.
func (b *BDD) Xor(x, y Node) Node { return b.Or(b.AndNot(x, y), b.AndNot(y, x)) }
