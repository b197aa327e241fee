// Package avltree is an offline stand-in for github.com/emirpasic/gods/trees/avltree.
// It follows the same balancing algorithm, so trees have the same shape.
package avltree

import "github.com/emirpasic/gods/utils"

type Tree struct {
	Root       *Node
	Comparator utils.Comparator
	size       int
}

type Node struct {
	Key      interface{}
	Value    interface{}
	Parent   *Node
	Children [2]*Node
	b        int8
}

func NewWith(c utils.Comparator) *Tree { return &Tree{Comparator: c} }
func NewWithIntComparator() *Tree      { return &Tree{Comparator: utils.IntComparator} }
func NewWithStringComparator() *Tree   { return &Tree{Comparator: utils.StringComparator} }

func (t *Tree) Put(key, value interface{}) { t.put(key, value, nil, &t.Root) }

func (t *Tree) Get(key interface{}) (interface{}, bool) {
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n.Value, true
		case c < 0:
			n = n.Children[0]
		default:
			n = n.Children[1]
		}
	}
	return nil, false
}

func (t *Tree) Remove(key interface{}) { t.remove(key, &t.Root) }
func (t *Tree) Empty() bool            { return t.size == 0 }
func (t *Tree) Size() int              { return t.size }
func (t *Tree) Clear()                 { t.Root, t.size = nil, 0 }

func (t *Tree) Left() *Node  { return t.bottom(0) }
func (t *Tree) Right() *Node { return t.bottom(1) }

func (t *Tree) Keys() []interface{} {
	var ks []interface{}
	for n := t.Left(); n != nil; n = n.Next() {
		ks = append(ks, n.Key)
	}
	return ks
}

func (t *Tree) Values() []interface{} {
	var vs []interface{}
	for n := t.Left(); n != nil; n = n.Next() {
		vs = append(vs, n.Value)
	}
	return vs
}

func (t *Tree) Floor(key interface{}) (*Node, bool) {
	found := false
	var floor *Node
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n, true
		case c < 0:
			n = n.Children[0]
		default:
			floor, found = n, true
			n = n.Children[1]
		}
	}
	return floor, found
}

func (t *Tree) Ceiling(key interface{}) (*Node, bool) {
	found := false
	var ceil *Node
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n, true
		case c < 0:
			ceil, found = n, true
			n = n.Children[0]
		default:
			n = n.Children[1]
		}
	}
	return ceil, found
}

func (n *Node) Prev() *Node { return n.walk1(0) }
func (n *Node) Next() *Node { return n.walk1(1) }

func (n *Node) walk1(a int) *Node {
	if n == nil {
		return nil
	}
	if n.Children[a] != nil {
		n = n.Children[a]
		for n.Children[a^1] != nil {
			n = n.Children[a^1]
		}
		return n
	}
	p := n.Parent
	for p != nil && p.Children[a] == n {
		n = p
		p = p.Parent
	}
	return p
}

func (t *Tree) bottom(d int) *Node {
	n := t.Root
	if n == nil {
		return nil
	}
	for c := n.Children[d]; c != nil; c = n.Children[d] {
		n = c
	}
	return n
}

func (t *Tree) put(key, value interface{}, p *Node, qp **Node) bool {
	q := *qp
	if q == nil {
		t.size++
		*qp = &Node{Key: key, Value: value, Parent: p}
		return true
	}
	c := t.Comparator(key, q.Key)
	if c == 0 {
		q.Key = key
		q.Value = value
		return false
	}
	if c < 0 {
		c = -1
	} else {
		c = 1
	}
	a := (c + 1) / 2
	if t.put(key, value, q, &q.Children[a]) {
		return putFix(int8(c), qp)
	}
	return false
}

func (t *Tree) remove(key interface{}, qp **Node) bool {
	q := *qp
	if q == nil {
		return false
	}
	c := t.Comparator(key, q.Key)
	if c == 0 {
		t.size--
		if q.Children[1] == nil {
			if q.Children[0] != nil {
				q.Children[0].Parent = q.Parent
			}
			*qp = q.Children[0]
			return true
		}
		if removeMin(&q.Children[1], &q.Key, &q.Value) {
			return removeFix(-1, qp)
		}
		return false
	}
	if c < 0 {
		c = -1
	} else {
		c = 1
	}
	a := (c + 1) / 2
	if t.remove(key, &q.Children[a]) {
		return removeFix(int8(-c), qp)
	}
	return false
}

func removeMin(qp **Node, minKey *interface{}, minVal *interface{}) bool {
	q := *qp
	if q.Children[0] == nil {
		*minKey = q.Key
		*minVal = q.Value
		if q.Children[1] != nil {
			q.Children[1].Parent = q.Parent
		}
		*qp = q.Children[1]
		return true
	}
	if removeMin(&q.Children[0], minKey, minVal) {
		return removeFix(1, qp)
	}
	return false
}

func putFix(c int8, t **Node) bool {
	s := *t
	if s.b == 0 {
		s.b = c
		return true
	}
	if s.b == -c {
		s.b = 0
		return false
	}
	if s.Children[(c+1)/2].b == c {
		s = singlerot(c, s)
	} else {
		s = doublerot(c, s)
	}
	*t = s
	return false
}

func removeFix(c int8, t **Node) bool {
	s := *t
	if s.b == 0 {
		s.b = c
		return false
	}
	if s.b == -c {
		s.b = 0
		return true
	}
	a := (c + 1) / 2
	if s.Children[a].b == 0 {
		s = rotate(c, s)
		s.b = -c
		*t = s
		return false
	}
	if s.Children[a].b == c {
		s = singlerot(c, s)
	} else {
		s = doublerot(c, s)
	}
	*t = s
	return true
}

func singlerot(c int8, s *Node) *Node {
	s.b = 0
	s = rotate(c, s)
	s.b = 0
	return s
}

func doublerot(c int8, s *Node) *Node {
	a := (c + 1) / 2
	r := s.Children[a]
	s.Children[a] = rotate(-c, s.Children[a])
	p := rotate(c, s)
	switch {
	default:
		s.b = 0
		r.b = 0
	case p.b == c:
		s.b = -c
		r.b = 0
	case p.b == -c:
		s.b = 0
		r.b = c
	}
	p.b = 0
	return p
}

func rotate(c int8, s *Node) *Node {
	a := (c + 1) / 2
	r := s.Children[a]
	s.Children[a] = r.Children[a^1]
	if s.Children[a] != nil {
		s.Children[a].Parent = s
	}
	r.Children[a^1] = s
	r.Parent = s.Parent
	s.Parent = r
	return r
}
