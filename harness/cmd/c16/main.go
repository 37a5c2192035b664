// C16: runs of prolonged sound marks collapse to the replacement, nothing else changes.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	Conf    world.Prolonged
	NoMarks bool
	NoRep   bool
	Edits   []model.Edit
	Texts   []pbt.Str
	Blow    []world.Blow `json:",omitempty"` // one per text: what makes it long
}

var grammar = &dictionary.Grammar{CharCategory: dictionary.NewCharacterCategory()}

func gen(t *rapid.T) caseT {
	alpha := world.Alphabet(t, 0)
	c := caseT{Conf: *world.DrawProlonged(t, alpha, 0)}
	c.NoMarks, c.NoRep = world.Chance(t, "nomarks", 4), world.Chance(t, "norep", 4)
	if world.Chance(t, "zeromarks", 3) {
		c.Conf.Marks = nil
	}
	for i := range c.Conf.Marks {
		if world.Chance(t, "more", 10) {
			c.Conf.Marks[i] += pbt.Str(string(world.Pick(t, "second", append(alpha, 'ー', '-'))))
		}
	}
	if world.Chance(t, "edited", 30) {
		c.Edits = model.DrawEdits(t, append(alpha, 'ー'), 3)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "ntexts"); i > 0; i-- {
		var b strings.Builder
		for k := rapid.IntRange(0, 9).Draw(t, "pieces"); k > 0; k-- {
			if len(c.Conf.Marks) > 0 && rapid.Bool().Draw(t, "run") {
				for n := rapid.IntRange(1, 4).Draw(t, "runlen"); n > 0; n-- {
					b.WriteString(string(world.Pick(t, "mark", c.Conf.Marks)))
				}
			} else {
				b.WriteRune(world.Pick(t, "char", append(alpha, 'ー', '〜', '-')))
			}
		}
		if world.Chance(t, "bad", 5) {
			b.WriteString("\xe3\x83")
		}
		c.Texts = append(c.Texts, pbt.Str(b.String()))
	}
	if world.Chance(t, "long", 3) {
		for range c.Texts {
			c.Blow = append(c.Blow, world.DrawBlow(t, 1, 30, 130, 260, 300, 1000, 4097))
		}
	}
	return c
}

// genHuge draws one text whose characters do not fit in 15 or 16 bits.
func genHuge(t *rapid.T) caseT {
	mark := pbt.Str(string(world.Pick(t, "mark", []rune("ーっ-〜"))))
	c := caseT{Conf: world.Prolonged{Marks: []pbt.Str{mark}, Replacement: world.Pick(t, "rep", []pbt.Str{"", mark, "ーあ"})}}
	at := 1
	text := "あ" + string(mark+mark) + "い"
	if rapid.Bool().Draw(t, "plain") {
		text, at = "あか"+string(mark+mark)+"い"+string(mark+mark)+"う", rapid.IntRange(0, 1).Draw(t, "where")
	}
	c.Texts = []pbt.Str{pbt.Str(text + "え" + string(mark+mark+mark) + world.Pick(t, "end", []string{"お", ""}))}
	n := rapid.IntRange(32700, 70000).Draw(t, "n")
	if rapid.Bool().Draw(t, "many") { // of short runs, not of characters
		c.Texts[0] = pbt.Str("あ"+string(mark+mark+mark)) + c.Texts[0]
		c.Blow = []world.Blow{{At: 0, Len: 4, N: n / 3}}
		return c
	}
	c.Blow = []world.Blow{{At: at, Len: 1, N: n}}
	return c
}

func check(c caseT, st *pbt.Stats) error {
	var marks []string
	set := map[rune]bool{}
	for _, m := range c.Conf.Marks {
		marks = append(marks, string(m))
		set[[]rune(string(m))[0]] = true
	}
	rep := string(c.Conf.Replacement)
	conf := &gosudachi.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &rep}
	if c.NoMarks {
		conf.ProlongedSoundMarks = nil
	}
	if c.NoRep {
		conf.ReplacementSymbol = nil
	}
	p := gosudachi.NewProlongedSoundMarkInputTextPlugin(conf)
	err := p.SetUp()
	if refuse := c.NoMarks || c.NoRep || len(marks) == 0; refuse {
		st.Class("settings missing")
		if err == nil {
			return fmt.Errorf("settings without marks (%v) or replacement (%v) are accepted", c.NoMarks || len(marks) == 0, c.NoRep)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("setting up: %v", err)
	}
	for round := 0; round < 2; round++ {
		for i, x := range c.Texts {
			text := world.Blown(c.Blow, i, x)
			b := gosudachi.NewInputTextBuilder(text, grammar)
			s := model.NewSeq(text)
			for _, e := range c.Edits {
				e.Apply(b, s)
			}
			if err := p.Rewrite(b); err != nil {
				return fmt.Errorf("%q: %v", text, err)
			}
			runs := model.Prolong(s, set, world.Runes(rep))
			in := b.Build()
			if err := s.Same(in); err != nil {
				return fmt.Errorf("%q (marks %q, replacement %q, %d edits before): %v", text, marks, rep, len(c.Edits), err)
			}
			if in.OriginalText != text {
				return fmt.Errorf("%q: the original text becomes %q", text, in.OriginalText)
			}
			if runs > 0 {
				st.NonTrivial()
			}
			st.ClassIf(runs > 0 && len(text) > 3*255, "text of more than 255 characters")
			st.ClassIf(runs > 0 && len(text) > 3*32767, "text of more than 32767 characters")
			st.ClassIf(runs > 1, "two runs or more")
			st.ClassIf(runs > 2, "three runs or more")
			st.ClassIf(runs > 0 && rep == "", "empty replacement")
			st.ClassIf(runs > 0 && len(world.Runes(rep)) > 1, "replacement of several characters")
			st.ClassIf(runs > 0 && len(set) > 1, "several marks")
			st.ClassIf(runs > 0 && len(c.Edits) > 0, "text already edited")
		}
	}
	return nil
}

func main() {
	pbt.Main("C16",
		pbt.S("runs", 60000, 3000000, "a text with a run of two marks or more", gen, check),
		pbt.S("huge", 24, 400, "a text with a run of two marks or more", genHuge, check))
}
