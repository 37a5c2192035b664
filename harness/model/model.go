// Package model is the harness's own account of what the tokenizer must do:
// categories, candidates, best segmentations and unit splits, computed from
// the sources of a generated world.
package model

import (
	"sort"
	"strings"
	"unicode/utf8"

	"verifharness/world"
)

// Cats gives the categories of a character.
func Cats(c *world.CharDef, r rune) uint32 {
	var k uint32
	for _, x := range c.Ranges {
		if r >= x.Lo && r <= x.Hi {
			k |= x.Cats
		}
	}
	if k == 0 {
		return world.DEFAULT
	}
	return k
}

// Text is a character sequence with its categories.
type Text struct {
	S     string
	Runes []rune
	Cats  []uint32
	At    []int // byte position of each character, and of the end
	Char  map[int]int
	run   []int // end (in characters) of the run each character is in
}

// NewText prepares a (valid UTF-8) text.
func NewText(cd *world.CharDef, s string) *Text {
	t := &Text{S: s, Char: map[int]int{}}
	for i, r := range s {
		t.Char[i] = len(t.Runes)
		t.At = append(t.At, i)
		t.Runes = append(t.Runes, r)
		t.Cats = append(t.Cats, Cats(cd, r))
	}
	t.Char[len(s)] = len(t.Runes)
	t.At = append(t.At, len(s))
	t.run = make([]int, len(t.Runes))
	for i := 0; i < len(t.Runes); {
		j, common := i, ^uint32(0)
		for j < len(t.Runes) && common&t.Cats[j] != 0 {
			common &= t.Cats[j]
			j++
		}
		for k := i; k < j; k++ {
			t.run[k] = j
		}
		i = j
	}
	return t
}

// RunEnd is the byte position at which the run of the character at byte b ends.
func (t *Text) RunEnd(b int) int { return t.At[t.run[t.Char[b]]] }

// Common gives the categories common to the characters from b to e (bytes),
// none if they do not lie in one run.
func (t *Text) Common(b, e int) uint32 {
	i, j := t.Char[b], t.Char[e]
	if j > t.run[i] {
		return 0
	}
	k := t.Cats[i]
	for ; i < j; i++ {
		k &= t.Cats[i]
	}
	return k
}

// CanBegin tells whether a word may begin at the i-th character.
func (t *Text) CanBegin(i int) bool {
	const letters = world.ALPHA | world.GREEK | world.CYRILLIC
	return i == 0 || t.Cats[i]&letters == 0 || t.Cats[i]&t.Cats[i-1] == 0
}

// Cand is a candidate.
type Cand struct {
	Begin, End        int // bytes
	Left, Right, Cost int
	Dict, Row         int // Dict -1: unknown word
	Pos               int // index into World.POS
	Surface           string
}

// MecabOov gives the candidates of the MeCab provider at a character,
// each once.
func MecabOov(w *world.World, t *Text, i int, other bool) []Cand {
	var out []Cand
	seen := map[Cand]bool{}
	b := t.At[i]
	end := t.run[i]
	for t.At[end]-b > 32767 {
		end--
	}
	add := func(u *world.Unk, to int) {
		c := Cand{b, t.At[to], u.Left, u.Right, u.Cost, -1, 0, u.Pos, t.S[b:t.At[to]]}
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	for k := range w.Chars.Props {
		p := &w.Chars.Props[k]
		if t.Cats[i]&p.Cat == 0 || (!p.Invoke && other) {
			continue
		}
		for j := range w.Unk {
			u := &w.Unk[j]
			if u.Cat != p.Cat {
				continue
			}
			if p.Group {
				add(u, end)
			}
			for n := 1; n <= p.Len && i+n <= len(t.Runes); n++ {
				if i+n > end || p.Group && i+n == end {
					break
				}
				add(u, i+n)
			}
		}
	}
	return out
}

// SimpleOov gives the candidates of the simple provider at a character.
func SimpleOov(w *world.World, t *Text, i int, other bool) []Cand {
	if other {
		return nil
	}
	b, e := t.At[i], t.At[i+1]
	return []Cand{{b, e, w.Simple.Left, w.Simple.Right, w.Simple.Cost, -1, 0, w.Simple.Pos, t.S[b:e]}}
}

func oov(w *world.World, kind string, t *Text, i int, other bool) []Cand {
	if kind == "mecab" {
		return MecabOov(w, t, i, other)
	}
	return SimpleOov(w, t, i, other)
}

// Words gives the dictionary words found at a character: user dictionaries
// are 1, 2, ..., the system dictionary 0.
func Words(w *world.World, t *Text, i int) []Cand {
	var out []Cand
	find := func(d *world.Dict, n int) {
		for k := range d.Rows {
			r := &d.Rows[k]
			if !r.NoIndex && r.Head != "" && strings.HasPrefix(t.S[t.At[i]:], string(r.Head)) {
				out = append(out, Cand{t.At[i], t.At[i] + len(r.Head), r.Left, r.Right, r.Cost, n, k, r.Pos, string(r.Surface)})
			}
		}
	}
	for n := range w.Users {
		find(&w.Users[n], n+1)
	}
	find(&w.Sys, 0)
	return out
}

// Offered gives all candidates at a character that candidates reach.
func Offered(w *world.World, t *Text, i int) []Cand {
	out := Words(w, t, i)
	if t.Cats[i]&world.NOOOVBOW == 0 {
		for _, k := range w.Oov {
			out = append(out, oov(w, k, t, i, len(out) > 0)...)
		}
	}
	if len(out) == 0 {
		out = oov(w, w.Oov[0], t, i, false)
	}
	return out
}

// Lattice is the set of candidates of a text.
type Lattice struct {
	T     *Text
	At    map[int][]Cand // by begin
	Stuck int            // byte position without candidates, or -1
	w     *world.World
	cost  map[[2]int]int
}

// Connect gives the cost of connecting a right id to a left id.
func (l *Lattice) Connect(right, left int) (int, bool) {
	c := l.cost[[2]int{right, left}]
	return c, c != 32767
}

// NewLattice finds all candidates.
func NewLattice(w *world.World, s string) *Lattice {
	return NewLatticeOf(w, s, func(t *Text, i int) []Cand { return Offered(w, t, i) })
}

// NewLatticeOf finds all candidates when those of a character are given.
func NewLatticeOf(w *world.World, s string, offered func(t *Text, i int) []Cand) *Lattice {
	l := &Lattice{T: NewText(&w.Chars, s), At: map[int][]Cand{}, Stuck: -1, w: w, cost: map[[2]int]int{}}
	for _, x := range w.Matrix.Lines {
		l.cost[[2]int{x[0], x[1]}] = x[2]
	}
	for _, x := range w.Inhibit {
		l.cost[[2]int{x[0], x[1]}] = 32767
	}
	reached := map[int]bool{0: true}
	for i := range l.T.Runes {
		b := l.T.At[i]
		if !reached[b] || !l.T.CanBegin(i) {
			continue
		}
		cs := offered(l.T, i)
		if len(cs) == 0 {
			l.Stuck = b
			return l
		}
		for _, c := range cs {
			reached[c.End] = true
		}
		l.At[b] = cs
	}
	return l
}

// Best gives the least cost of a segmentation; the second result is false if
// there is none.
func (l *Lattice) Best() (int, bool) {
	type state struct{ at, right int }
	best := map[state]int{{0, 0}: 0}
	var starts []int
	for b := range l.At {
		starts = append(starts, b)
	}
	sort.Ints(starts)
	rights := map[int]map[int]bool{0: {0: true}}
	for _, b := range starts {
		for _, c := range l.At[b] {
			for r := range rights[b] {
				k, ok := l.Connect(r, c.Left)
				if !ok {
					continue
				}
				n := best[state{b, r}] + k + c.Cost
				s := state{c.End, c.Right}
				if rights[c.End] == nil {
					rights[c.End] = map[int]bool{}
				}
				if old, have := best[s]; !have || n < old {
					best[s] = n
				}
				rights[c.End][c.Right] = true
			}
		}
	}
	min, found := 0, false
	for r := range rights[len(l.T.S)] {
		if k, ok := l.Connect(r, 0); ok {
			if n := best[state{len(l.T.S), r}] + k; !found || n < min {
				min, found = n, true
			}
		}
	}
	return min, found
}

// PathCost gives the least cost of a path when each of its members can be any
// of the given candidates (they may differ in their ids).
func (l *Lattice) PathCost(path [][]Cand) (int, bool) {
	cur := map[int]int{0: 0}
	for _, cs := range path {
		next := map[int]int{}
		for _, c := range cs {
			for r, n := range cur {
				if k, ok := l.Connect(r, c.Left); ok {
					if old, have := next[c.Right]; !have || n+k+c.Cost < old {
						next[c.Right] = n + k + c.Cost
					}
				}
			}
		}
		cur = next
	}
	min, found := 0, false
	for r, n := range cur {
		if k, ok := l.Connect(r, 0); ok && (!found || n+k < min) {
			min, found = n+k, true
		}
	}
	return min, found
}

// Valid replaces broken UTF-8 as the tokenizer reads it.
func Valid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string(world.Runes(s))
}
