// Package dictcheck compares built dictionaries with their sources.
package dictcheck

import (
	"fmt"
	"slices"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/world"
)

// Ids gives the word ids a split list must hold. own is the number put in the
// upper bits of the id of a row of the same dictionary.
func Ids(refs []world.Ref, own uint32) []int32 {
	out := []int32{}
	for _, r := range refs {
		id := int32(r.Row)
		if r.Own {
			id = int32(own<<28 | uint32(r.Row))
		}
		out = append(out, id)
	}
	return out
}

// Word is what reading a word must give.
type Word struct {
	Left, Right, Cost int16
	Info              dictionary.WordInfo
	Pos               []string
}

// Expect gives the word of a row.
func Expect(w *world.World, d *world.Dict, i int, own uint32) Word {
	r := &d.Rows[i]
	x := Word{Left: int16(r.Left), Right: int16(r.Right), Cost: int16(r.Cost), Pos: w.POS[r.Pos].List()}
	if r.NoIndex {
		x.Left = -1
	}
	df := string(r.Surface)
	if r.DicForm >= 0 {
		df = string(d.Rows[r.DicForm].Surface)
	}
	x.Info = dictionary.WordInfo{
		Surface: string(r.Surface), HeadwordLength: int16(len(r.Head)), NormalizedForm: r.ReadNorm(), ReadingForm: r.ReadReading(),
		DictionaryFormWordId: int32(r.DicForm), DictionaryForm: df,
		AUnitSplit: Ids(r.A, own), BUnitSplit: Ids(r.B, own), WordStructure: Ids(r.W, own),
	}
	return x
}

func short(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Info compares the data of a word.
func Info(what string, got *dictionary.WordInfo, pos []string, want *Word) error {
	type f struct {
		n    string
		g, w string
	}
	for _, x := range []f{
		{"surface", got.Surface, want.Info.Surface},
		{"normalized form", got.NormalizedForm, want.Info.NormalizedForm},
		{"dictionary form", got.DictionaryForm, want.Info.DictionaryForm},
		{"reading", got.ReadingForm, want.Info.ReadingForm},
		{"part of speech", strings.Join(pos, ","), strings.Join(want.Pos, ",")},
	} {
		if x.g != x.w {
			return fmt.Errorf("%s: %s is %s, the source says %s", what, x.n, short(x.g), short(x.w))
		}
	}
	if len(pos) != 6 {
		return fmt.Errorf("%s: part of speech %q has not six parts", what, pos)
	}
	if got.HeadwordLength != want.Info.HeadwordLength {
		return fmt.Errorf("%s: headword length is %d, the source says %d", what, got.HeadwordLength, want.Info.HeadwordLength)
	}
	if got.DictionaryFormWordId != want.Info.DictionaryFormWordId {
		return fmt.Errorf("%s: dictionary form id is %d, the source says %d", what, got.DictionaryFormWordId, want.Info.DictionaryFormWordId)
	}
	for _, x := range []struct {
		n    string
		g, w []int32
	}{{"A split", got.AUnitSplit, want.Info.AUnitSplit}, {"B split", got.BUnitSplit, want.Info.BUnitSplit}, {"word structure", got.WordStructure, want.Info.WordStructure}} {
		if !slices.Equal(x.g, x.w) {
			return fmt.Errorf("%s: %s is %v, the source says %v", what, x.n, x.g, x.w)
		}
	}
	return nil
}

// Lexicon compares every row. pos looks a part of speech up.
func Lexicon(w *world.World, d *world.Dict, own uint32, lex *dictionary.DoubleArrayLexicon, pos func(int16) []string) error {
	if int(lex.Size()) != len(d.Rows) {
		return fmt.Errorf("the lexicon has %d words, the source %d", lex.Size(), len(d.Rows))
	}
	for i := range d.Rows {
		what := fmt.Sprintf("row %d (%s)", i, short(string(d.Rows[i].Head)))
		x := Expect(w, d, i, own)
		id := int32(i)
		if l, r, c := lex.GetLeftId(id), lex.GetRightId(id), lex.GetCost(id); l != x.Left || r != x.Right || c != x.Cost {
			return fmt.Errorf("%s: parameters are %d,%d,%d, the source says %d,%d,%d", what, l, r, c, x.Left, x.Right, x.Cost)
		}
		wi := lex.GetWordInfo(id)
		if err := Info(what, wi, pos(wi.PosId), &x); err != nil {
			return err
		}
	}
	return nil
}

// Hit is a lookup result.
type Hit struct {
	Id  int32
	End int
}

// Found gives what looking up d at off must give.
func Found(d *world.Dict, text string, off int, bits uint32) []Hit {
	var out []Hit
	rest := text[off:]
	for i := range d.Rows {
		r := &d.Rows[i]
		if !r.NoIndex && r.Head != "" && strings.HasPrefix(rest, string(r.Head)) {
			out = append(out, Hit{int32(bits<<28 | uint32(i)), off + len(r.Head)})
		}
	}
	slices.SortStableFunc(out, func(a, b Hit) int { return a.End - b.End })
	return out
}

type iterator interface {
	Next() bool
	Get() (int32, int)
	Err() error
}

// Drain reads an iterator; extra Next calls must not consume anything.
func Drain(it iterator, limit, extra int) ([]Hit, error) {
	var out []Hit
	for n := 0; it.Next(); n++ {
		for k := 0; k < extra; k++ {
			if !it.Next() {
				return out, fmt.Errorf("the end test of the iterator changes its answer")
			}
		}
		id, end := it.Get()
		if it.Err() != nil {
			return out, fmt.Errorf("iterator error: %v", it.Err())
		}
		out = append(out, Hit{id, end})
		if len(out) > limit {
			return out, fmt.Errorf("more results than expected")
		}
	}
	return out, it.Err()
}

// Lookup compares lookups of a text at every position.
func Lookup(d *world.Dict, lex *dictionary.DoubleArrayLexicon, text string) (int, error) {
	total := 0
	for off := 0; off < len(text); off++ {
		want := Found(d, text, off, 0)
		total += len(want)
		got, err := Drain(lex.Lookup([]byte(text), off), len(want), off%3)
		if err != nil || !slices.Equal(got, want) {
			return total, fmt.Errorf("looking up %s at %d gives %v (%v), want %v", short(text), off, got, err, want)
		}
	}
	return total, nil
}

// Matrix compares every connection cost.
func Matrix(m *world.Matrix, get func(l, r int16) int16) error {
	t := m.Table()
	for l := 0; l < m.L; l++ {
		for r := 0; r < m.R; r++ {
			if g := get(int16(l), int16(r)); int(g) != t[l+m.L*r] {
				return fmt.Errorf("connection cost of %d %d is %d, the source says %d", l, r, g, t[l+m.L*r])
			}
		}
	}
	return nil
}
