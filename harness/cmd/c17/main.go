// C17: edits to the input text keep an exact map to the original.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type step struct {
	model.Edit
	Build bool // the input is built before the edit
}

type caseT struct {
	Text   pbt.Str
	Repeat int `json:",omitempty"` // the text is Text that many times, if not 0
	Steps  []step
}

var grammar = &dictionary.Grammar{CharCategory: dictionary.NewCharacterCategory()}

func gen(max, maxLen int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		alpha := append(world.Alphabet(t, 0), 'a', 'é', 'あ', '😀')
		var b strings.Builder
		for i := rapid.IntRange(0, maxLen).Draw(t, "len"); i > 0; i-- {
			b.WriteRune(world.Pick(t, "char", alpha))
			if world.Chance(t, "bad", 2) {
				b.WriteString("\xff")
			}
		}
		c := caseT{Text: pbt.Str(b.String())}
		for _, e := range model.DrawEdits(t, alpha, max) {
			if world.Chance(t, "atend", 10) {
				e.Begin, e.Len = len([]rune(b.String())), 0
			}
			if world.Chance(t, "everything", 6) {
				e.Begin, e.Len = 0, 1<<20
			}
			if e.By != "" && world.Chance(t, "very big", 2) {
				e.By = pbt.Str(strings.Repeat(string(e.By), world.Pick(t, "times", []int{33, 65, 130, 260, 300})))
			}
			if world.Chance(t, "most", 4) {
				e.Len = rapid.IntRange(0, 300).Draw(t, "mostlen")
			}
			c.Steps = append(c.Steps, step{e, world.Chance(t, "build", 10)})
		}
		return c
	}
}

// genHuge draws texts of tens of thousands of characters.
func genHuge(t *rapid.T) caseT {
	c := gen(12, 12)(t)
	c.Text += "長い"
	n := len(world.Runes(string(c.Text)))
	c.Repeat = rapid.IntRange(68000, 90000).Draw(t, "size") / n
	for i := range c.Steps {
		c.Steps[i].Begin = rapid.IntRange(0, 80000).Draw(t, "begin")
		if c.Steps[i].Len == 4 {
			c.Steps[i].Len = rapid.IntRange(0, 20000).Draw(t, "len")
		}
		if c.Steps[i].By != "" && world.Chance(t, "enormous", 5) {
			c.Steps[i].By = pbt.Str(strings.Repeat("新文", rapid.IntRange(500, 3000).Draw(t, "nby")))
		}
	}
	return c
}

// full compares everything the input reports about positions.
func full(in *gosudachi.InputText, s *model.Seq, text string) error {
	if err := s.Same(in); err != nil {
		return err
	}
	if in.OriginalText != text {
		return fmt.Errorf("the original text is %q", in.OriginalText)
	}
	at := 0
	for i, c := range s.R {
		n := len(string(c))
		for k := 0; k < n; k++ {
			if g := in.GetOffsetTextLength(at + k); g != i {
				return fmt.Errorf("byte %d belongs to character %d, want %d", at+k, g, i)
			}
			if g := in.IsCharAlignment(at + k); g != (k == 0) {
				return fmt.Errorf("byte %d is the first of a character: %v", at+k, g)
			}
		}
		if len(s.R) > 10000 && i%997 > 0 || len(s.R) > 400 && i%37 > 0 {
			// every call takes time in the length of the text
		} else if g := in.GetSubstring(at, at+n); g != string(c) {
			return fmt.Errorf("bytes %d to %d are %q, want %q", at, at+n, g, string(c))
		}
		at += n
	}
	if g := in.GetOffsetTextLength(at); g != len(s.R) {
		return fmt.Errorf("the end is character %d, want %d", g, len(s.R))
	}
	return nil
}

func check(c caseT, st *pbt.Stats) error {
	text := string(c.Text)
	if c.Repeat > 0 {
		text = strings.Repeat(text, c.Repeat)
		st.ClassIf(len(world.Runes(text)) > 65536, "over 65536 characters")
	}
	b := gosudachi.NewInputTextBuilder(text, grammar)
	s := model.NewSeq(text)
	type snap struct {
		in *gosudachi.InputText
		s  *model.Seq
	}
	var snaps []snap
	grow, shrink, empty := 0, 0, 0
	given := map[pbt.Str][]rune{} // slices given to Replace, as a plugin keeps them
	for i, x := range c.Steps {
		if x.Build {
			k := snap{b.Build(), &model.Seq{R: append([]rune{}, s.R...), Org: append([]int{}, s.Org...)}}
			if err := full(k.in, k.s, text); err != nil {
				return fmt.Errorf("%q built before step %d: %v", text, i, err)
			}
			snaps = append(snaps, k)
		}
		n := len(s.R)
		held, before := b.GetText(), string(s.R) // what a plugin works on while it edits
		if given[x.By] == nil {
			given[x.By] = world.Runes(string(x.By))
		}
		x.ApplyWith(b, s, given[x.By])
		if string(held) != before {
			return fmt.Errorf("%q: the text got before step %d (%+v) has become %q", text, i, x.Edit, string(held))
		}
		for by, r := range given {
			if string(r) != string(world.Runes(string(by))) {
				return fmt.Errorf("%q after step %d (%+v): the characters %q given to Replace have become %q", text, i, x.Edit, string(by), string(r))
			}
		}
		if g := string(b.GetText()); g != string(s.R) {
			return fmt.Errorf("%q after step %d (%+v): %q, want %q", text, i, x.Edit, g, string(s.R))
		}
		if len(s.R) > n {
			grow++
		}
		if len(s.R) < n {
			shrink++
		}
		st.ClassIf(len(x.By) > 3*255, "replaced by more than 255 characters")
		if x.Len == 0 && x.By != "" {
			empty++
		}
	}
	for round := 0; round < 2; round++ {
		if err := full(b.Build(), s, text); err != nil {
			return fmt.Errorf("%q after %d steps: %v", text, len(c.Steps), err)
		}
	}
	for i, k := range snaps {
		if err := full(k.in, k.s, text); err != nil {
			return fmt.Errorf("%q: the input built earlier (%d) has changed: %v", text, i, err)
		}
	}
	if grow > 0 && shrink > 0 {
		st.NonTrivial()
	}
	st.ClassIf(grow > 1 && shrink > 1, "two growing and two shrinking edits or more")
	st.ClassIf(empty > 0, "insertion")
	st.ClassIf(len(snaps) > 0, "built in between")
	st.ClassIf(len(s.R) == 0 && len(c.Steps) > 0, "everything removed")
	return nil
}

func main() {
	const rule = "at least one growing and one shrinking edit"
	pbt.Main("C17",
		pbt.S("short", 150000, 3000000, rule, gen(8, 12), check),
		pbt.S("long", 4000, 200000, rule, gen(60, 80), check),
		pbt.S("huge", 24, 1200, rule, genHuge, check),
	)
}
