package model

import (
	"fmt"
	"strings"
	"unicode"

	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"

	"verifharness/pbt"
	"verifharness/world"
)

// Seq is a character sequence with the original position of each character
// and, last, of the end.
type Seq struct {
	R   []rune
	Org []int
}

// NewSeq starts from a text.
func NewSeq(text string) *Seq {
	s := &Seq{R: world.Runes(text)}
	for i := 0; i <= len(s.R); i++ {
		s.Org = append(s.Org, i)
	}
	return s
}

// Replace replaces the characters from b to e.
func (s *Seq) Replace(b, e int, by []rune) {
	r := append([]rune{}, s.R[:b]...)
	o := append([]int{}, s.Org[:b]...)
	for _, c := range by {
		r = append(r, c)
		o = append(o, s.Org[b])
	}
	s.R, s.Org = append(r, s.R[e:]...), append(o, s.Org[e:]...)
}

// Map replaces pieces: f gives, for position i, the number of characters
// taken and what they become.
func (s *Seq) Map(f func(i int) (int, []rune)) {
	var r []rune
	var o []int
	for i := 0; i < len(s.R); {
		n, by := f(i)
		for _, c := range by {
			r = append(r, c)
			o = append(o, s.Org[i])
		}
		i += n
	}
	s.R, s.Org = r, append(o, s.Org[len(s.R)])
}

// Same compares a built input with the sequence.
func (s *Seq) Same(in *gosudachi.InputText) error {
	if in.GetText() != string(s.R) {
		return fmt.Errorf("the text is %q, want %q", in.GetText(), string(s.R))
	}
	if string(in.GetByteText()) != string(s.R) {
		return fmt.Errorf("the bytes are %q, want %q", in.GetByteText(), string(s.R))
	}
	at := 0
	for i, c := range s.R {
		for k := 0; k < len(string(c)); k++ {
			if g := in.GetOriginalIndex(at); g != s.Org[i] {
				return fmt.Errorf("byte %d (character %d of %q) maps to %d, want %d", at, i, string(s.R), g, s.Org[i])
			}
			at++
		}
	}
	if g := in.GetOriginalIndex(at); g != s.Org[len(s.R)] {
		return fmt.Errorf("the end of %q maps to %d, want %d", string(s.R), g, s.Org[len(s.R)])
	}
	return nil
}

// Edit is one replacement; positions are taken modulo what the text allows.
type Edit struct {
	Begin, Len int
	By         pbt.Str
}

// Apply makes the edit on both sides.
func (e Edit) Apply(b *gosudachi.InputTextBuilder, s *Seq) {
	e.ApplyWith(b, s, world.Runes(string(e.By)))
}

// On makes the edit on the model's side.
func (e Edit) On(s *Seq) {
	begin := e.Begin % (len(s.R) + 1)
	s.Replace(begin, min(begin+e.Len, len(s.R)), world.Runes(string(e.By)))
}

// ApplyWith is Apply with the characters of By in a slice of the caller.
func (e Edit) ApplyWith(b *gosudachi.InputTextBuilder, s *Seq, by []rune) {
	begin := e.Begin % (len(s.R) + 1)
	end := begin + e.Len
	if end > len(s.R) {
		end = len(s.R)
	}
	b.Replace(begin, end, by)
	s.Replace(begin, end, by)
}

// DrawEdits draws edits.
func DrawEdits(t *rapid.T, alpha []rune, max int) []Edit {
	var out []Edit
	for i := rapid.IntRange(0, max).Draw(t, "nedits"); i > 0; i-- {
		var b strings.Builder
		most := 4
		if world.Chance(t, "big", 5) {
			most = 70
		}
		for k := rapid.IntRange(0, most).Draw(t, "bylen"); k > 0; k-- {
			b.WriteRune(world.Pick(t, "by", alpha))
		}
		out = append(out, Edit{rapid.IntRange(0, 30).Draw(t, "begin"), rapid.IntRange(0, most).Draw(t, "len"), pbt.Str(b.String())})
	}
	return out
}

// Rewriting is what a rewrite definition says.
type Rewriting struct {
	Exempt  map[rune]bool
	Replace map[string]string
}

// NewRewriting takes the definition of a world.
func NewRewriting(r *world.Rewrite) *Rewriting {
	x := &Rewriting{map[rune]bool{}, map[string]string{}}
	for _, s := range r.Ignore {
		x.Exempt[[]rune(string(s))[0]] = true
	}
	for _, p := range r.Replace {
		x.Replace[string(p[0])] = string(p[1])
	}
	return x
}

// Apply rewrites a sequence. The result tells how many sequences were replaced.
func (x *Rewriting) Apply(s *Seq) (replaced, normalized int) {
	longest := 0
	for k := range x.Replace {
		if n := len([]rune(k)); n > longest {
			longest = n
		}
	}
	s.Map(func(i int) (int, []rune) {
		for n := longest; n > 0; n-- {
			if i+n <= len(s.R) {
				if by, ok := x.Replace[string(s.R[i:i+n])]; ok {
					replaced++
					return n, []rune(by)
				}
			}
		}
		lower := unicode.ToLower(s.R[i])
		if x.Exempt[lower] {
			return 1, []rune{lower}
		}
		by := []rune(norm.NFKC.String(string(lower)))
		if len(by) != 1 || by[0] != s.R[i] {
			normalized++
		}
		return 1, by
	})
	return
}

// Prolong collapses runs of two or more marks.
func Prolong(s *Seq, marks map[rune]bool, by []rune) (runs int) {
	s.Map(func(i int) (int, []rune) {
		n := 0
		for i+n < len(s.R) && marks[s.R[i+n]] {
			n++
		}
		if n > 1 {
			runs++
			return n, by
		}
		return 1, s.R[i : i+1]
	})
	return
}
