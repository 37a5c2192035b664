// C10: tokenization partitions the input text in every mode.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"

	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W     *world.World
	Texts []pbt.Str
	Rep   int // the last text is repeated
}

func gen(profile int, odd bool) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 2, Input: true, Path: true, Inhibit: world.Chance(t, "inh", 30), Odd: odd, Profile: profile, NoFail: world.Chance(t, "nofail", 85)})
		if profile > 0 && profile < 3 && len(w.Path) == 0 {
			w.Path = append(w.Path, world.PathPlugin{Kind: []string{"numeric", "katakana"}[profile-1], Normalize: rapid.Bool().Draw(t, "norm"), MinLength: rapid.IntRange(0, 3).Draw(t, "minlen"), Pos: w.Simple.Pos})
		}
		c := caseT{W: w, Rep: 1}
		for i := rapid.IntRange(1, 4).Draw(t, "ntexts"); i > 0; i-- {
			c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 9)))
		}
		if world.Chance(t, "long", 4) {
			c.Rep = world.Pick(t, "rep", []int{10, 40, 100})
		}
		return c
	}
}

// genLong draws a few long texts: a run of one category may exceed the
// length of the longest word, 32767 bytes.
func genLong(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 6, Input: true, Path: true, NoFail: true, NoSplits: true})
	c := caseT{W: w, Rep: rapid.IntRange(300, 4400).Draw(t, "rep")}
	if len(w.Input) > 0 { // every replacement takes time proportional to the text
		c.Rep = 100 + c.Rep/6
	}
	for i := range w.Chars.Props {
		w.Chars.Props[i].Invoke = false
	}
	s := ""
	for len(s) < 8 {
		s += string(world.Pick(t, "char", alpha))
	}
	c.Texts = append(c.Texts, pbt.Str(s))
	return c
}

// genHuge draws a text of more than 65535 characters, most of them known words.
func genHuge(t *rapid.T) caseT {
	w, _ := world.Draw(t, world.Opt{Profile: world.ProfileNatural})
	for i := range w.Chars.Props {
		w.Chars.Props[i].Invoke = false
	}
	c := caseT{W: w}
	// long words, so that few places need candidates
	s := ""
	parts := []string{"字漢", "αβγ", "ほ𠮷ぬ", "xyz"}
	first := rapid.IntRange(0, 3).Draw(t, "part")
	for k := rapid.IntRange(0, 1).Draw(t, "nwords"); k >= 0; k-- {
		h := strings.Repeat(parts[(first+k)%4], rapid.IntRange(150, 400).Draw(t, "parts"))
		r := w.Sys.Rows[0]
		r.Head, r.Surface, r.Norm, r.Cost = pbt.Str(h), pbt.Str(h), pbt.Str(h), -3000
		w.Sys.Rows = append(w.Sys.Rows, r)
		s += h
	}
	s += world.Pick(t, "word", []string{"円", "東京都", ""})
	c.Texts = append(c.Texts, pbt.Str(s))
	c.Rep = world.Pick(t, "size", []int{66000, 70000, 33000, 132000})/len([]rune(s)) + 1
	return c
}

// partition checks the morphemes of a text.
func partition(text string, ms *gosudachi.MorphemeList) error {
	runes := world.Runes(text)
	at := 0
	var all strings.Builder
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		b, e := m.Begin(), m.End()
		if b != at {
			return fmt.Errorf("morpheme %d begins at %d, the one before ends at %d", i, b, at)
		}
		if e < b || e > len(runes) {
			return fmt.Errorf("morpheme %d goes from %d to %d in a text of %d characters", i, b, e, len(runes))
		}
		if ms.GetBegin(i) != b || ms.GetEnd(i) != e {
			return fmt.Errorf("morpheme %d: the list says %d to %d", i, ms.GetBegin(i), ms.GetEnd(i))
		}
		at = e
		// asking for a surface takes time proportional to the text
		if len(runes) > 500 && i%(len(runes)/100) != 0 && i < ms.Length()-5 {
			all.WriteString(string(runes[b:e]))
			continue
		}
		s := m.Surface()
		if s != string(runes[b:e]) || ms.GetSurface(i) != s {
			return fmt.Errorf("morpheme %d (%d to %d) has surface %q, the text there is %q", i, b, e, s, string(runes[b:e]))
		}
		all.WriteString(s)
	}
	if at != len(runes) {
		return fmt.Errorf("the last morpheme ends at %d, the text has %d characters", at, len(runes))
	}
	if all.String() != string(runes) {
		return fmt.Errorf("the surfaces joined are %q", all.String())
	}
	return nil
}

func check(c caseT, st *pbt.Stats) error {
	w := c.W
	e, err := w.Setup(world.OpenOpt{})
	if err != nil {
		return err
	}
	defer e.Close()
	for i, s := range c.Texts {
		text := string(s)
		if i == len(c.Texts)-1 {
			text = strings.Repeat(text, c.Rep)
			st.ClassIf(c.Rep > 1 && len(text) > 1000, "text of more than 1000 bytes")
		}
		lens := map[string]int{}
		for _, mode := range []string{"C", "A", "B"} {
			ms, err := e.Tok.Tokenize(mode, text)
			if err != nil {
				st.Class("no analysis")
				continue
			}
			if err := partition(text, ms); err != nil {
				return fmt.Errorf("%.300q in mode %s: %v", text, mode, err)
			}
			lens[mode] = ms.Length()
			if text == "" && ms.Length() != 0 {
				return fmt.Errorf("an empty text gives %d morphemes in mode %s", ms.Length(), mode)
			}
			st.ClassIf(text == "", "empty text")
			if ms.Length() > 1 {
				st.NonTrivial()
			}
			for k := 0; k < ms.Length(); k++ {
				m := ms.Get(k)
				st.ClassIf(m.IsOOV(), "unknown word")
				st.ClassIf(m.Begin() == m.End(), "morpheme inside one original character")
				st.ClassIf(!m.IsOOV() && m.GetDictionaryId() < 0, "joined number")
				st.ClassIf(m.GetDictionaryId() > 0, "user word")
				st.ClassIf(m.GetWordInfo().Surface != m.Surface(), "surface differs from the word's")
			}
		}
		st.ClassIf(lens["A"] > lens["C"], "mode A splits")
		st.ClassIf(lens["A"] > lens["B"], "modes A and B differ")
		st.ClassIf(string(world.Runes(text)) != text, "broken UTF-8")
	}
	for _, k := range w.Input {
		st.Class("input plugin " + k)
	}
	for _, p := range w.Path {
		st.Class("path plugin " + p.Kind)
	}
	return nil
}

func main() {
	const rule = "a text of at least two morphemes is analysed"
	pbt.Main("C10",
		pbt.S("mixed", 12000, 600000, rule, gen(0, false), check),
		pbt.S("odd", 4000, 200000, rule, gen(0, true), check),
		pbt.S("numeric", 6000, 300000, rule, gen(1, false), check),
		pbt.S("long", 24, 2000, rule, genLong, check),
		pbt.S("huge", 8, 200, rule, genHuge, check),
		pbt.S("katakana", 6000, 300000, rule, gen(2, false), check),
		pbt.S("natural", 4000, 200000, rule, gen(world.ProfileNatural, false), check),
	)
}
