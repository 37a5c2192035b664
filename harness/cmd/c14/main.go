// C14: a tokenizer's answer does not depend on what it did before.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/world"
)

type call struct {
	Tok  int
	Mode string
	Text pbt.Str
	Dump bool
	// how often the text is repeated; 0: once
	Repeat int `json:",omitempty"`
}

func (k call) text() string { return strings.Repeat(string(k.Text), max(k.Repeat, 1)) }

type caseT struct {
	W     *world.World
	Calls []call
	// a character at which a plugin of the harness fails, by kind of plugin
	FailInput, FailOov, FailPath pbt.Str
}

func gen(profile int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: 2, Input: true, Path: true, Inhibit: world.Chance(t, "inh", 50), Profile: profile})
		c := caseT{W: w}
		fail := func(l string) pbt.Str {
			if world.Chance(t, l, 25) {
				return pbt.Str(string(world.Pick(t, l+".c", alpha)))
			}
			return ""
		}
		c.FailInput, c.FailOov, c.FailPath = fail("fi"), fail("fo"), fail("fp")
		var texts []string
		for i := rapid.IntRange(1, 5).Draw(t, "ntexts"); i > 0; i-- {
			x := world.DrawText(t, w, alpha, 8)
			texts = append(texts, x)
			if rs := world.Runes(x); len(rs) > 2 && rapid.Bool().Draw(t, "part") {
				texts = append(texts, string(rs[:len(rs)/2]))
			}
		}
		for i := rapid.IntRange(2, 12).Draw(t, "ncalls"); i > 0; i-- {
			c.Calls = append(c.Calls, call{rapid.IntRange(0, 1).Draw(t, "tok"), world.Pick(t, "mode", []string{"C", "A", "B"}), pbt.Str(world.Pick(t, "text", texts)), world.Chance(t, "dump", 20), 0})
		}
		return c
	}
}

// genLong mixes long and short texts, or makes many calls.
func genLong(t *rapid.T) caseT {
	c := gen(rapid.IntRange(0, 2).Draw(t, "profile"))(t)
	if rapid.Bool().Draw(t, "many calls") {
		calls := c.Calls
		for i := rapid.IntRange(20, 60).Draw(t, "more"); i > 0; i-- {
			k := world.Pick(t, "call", calls)
			k.Tok, k.Mode = rapid.IntRange(0, 1).Draw(t, "tok"), world.Pick(t, "mode", []string{"C", "A", "B"})
			c.Calls = append(c.Calls, k)
		}
		return c
	}
	for i := range c.Calls {
		n := len(world.Runes(string(c.Calls[i].Text)))
		if n == 0 || !rapid.Bool().Draw(t, "long") {
			continue
		}
		size := world.Pick(t, "size", []int{200, 1001, 1100, 2500, 4000})
		c.Calls[i].Repeat = size/n + 1
	}
	return c
}

// failing is a plugin of the harness of any kind that fails at a character.
type failing struct {
	kind string
	at   string
}

func (p *failing) GetConfigStruct() interface{} { return p }

type failInput struct{ failing }

func (p *failInput) SetUp() error { return nil }
func (p *failInput) Rewrite(b *gosudachi.InputTextBuilder) error {
	if s := string(b.GetText()); strings.Count(s, p.at) > 1 {
		return fmt.Errorf("input failure")
	}
	return nil
}

type failOov struct{ failing }

func (p *failOov) SetUp(*dictionary.Grammar) error { return nil }
func (p *failOov) ProvideOOV(in *gosudachi.InputText, off int, other bool) ([]*gosudachi.LatticeNode, error) {
	if strings.HasPrefix(in.GetText()[off:], p.at) {
		return nil, fmt.Errorf("unknown-word failure at %d", off)
	}
	return nil, nil
}

type failPath struct{ failing }

func (p *failPath) SetUp(*dictionary.Grammar) error { return nil }
func (p *failPath) Rewrite(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
	if strings.Contains(in.GetText(), p.at) {
		return fmt.Errorf("path failure")
	}
	return nil
}

func (c caseT) opts() world.OpenOpt {
	var o world.OpenOpt
	if c.FailInput != "" {
		o.InputLast = append(o.InputLast, &failInput{failing{at: string(c.FailInput)}})
	}
	if c.FailOov != "" {
		o.OovFirst = append(o.OovFirst, &failOov{failing{at: string(c.FailOov)}})
	}
	if c.FailPath != "" {
		o.PathLast = append(o.PathLast, &failPath{failing{at: string(c.FailPath)}})
	}
	return o
}

func show(l *gosudachi.MorphemeList, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for i := 0; i < l.Length(); i++ {
		m := l.Get(i)
		wi := m.GetWordInfo()
		fmt.Fprintf(&b, "%d-%d %q %#x dict %d unknown %v %s %q %q %q cost %d units %v %v %v\n", m.Begin(), m.End(), m.Surface(), m.GetWordId(), m.GetDictionaryId(), m.IsOOV(), strings.Join(m.PartOfSpeech(), ","),
			m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), l.GetInternalCost(), wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure)
	}
	return b.String()
}

func check(c caseT, st *pbt.Stats) error {
	e, err := c.W.Setup(c.opts())
	if err != nil {
		return err
	}
	defer e.Close()
	toks := []*gosudachi.JapaneseTokenizer{e.Tok, e.Dict.Create()}
	// answers of fresh tokenizers on freshly opened dictionaries
	type key struct{ mode, text string }
	fresh := map[key]string{}
	for _, k := range c.Calls {
		q := key{k.Mode, k.text()}
		if _, ok := fresh[q]; ok {
			continue
		}
		jd, err := c.W.Open(e.Files, c.opts())
		if err != nil {
			return fmt.Errorf("opening the dictionary again: %v", err)
		}
		l, err := jd.Create().Tokenize(q.mode, q.text)
		fresh[q] = show(l, err)
		jd.Close()
	}
	var lists []*gosudachi.MorphemeList
	failed := false
	for i, k := range c.Calls {
		var out bytes.Buffer
		tok := toks[k.Tok]
		tok.DumpOutput = nil
		if k.Dump {
			tok.DumpOutput = &out
		}
		l, err := tok.Tokenize(k.Mode, k.text())
		lists = append(lists, l)
		want := fresh[key{k.Mode, k.text()}]
		if got := show(l, err); got != want {
			return fmt.Errorf("call %d (%q, mode %s, diagnostic output %v): a fresh tokenizer gives\n%s\nthis one\n%s", i, k.text(), k.Mode, k.Dump, want, got)
		}
		if k.Dump && k.Text != "" && err == nil && out.Len() == 0 {
			return fmt.Errorf("call %d: no diagnostic output is written", i)
		}
		st.ClassIf(k.Dump, "diagnostic output")
		st.ClassIf(err != nil && strings.Contains(err.Error(), "failure"), "failure of a plugin")
		st.ClassIf(err != nil, "failed analysis")
		if failed && err == nil && k.Text != "" {
			st.Class("success after a failure")
		}
		failed = failed || err != nil
		if k.Repeat > 0 && err == nil && l.Length() > 1000 {
			st.Class("over 1000 morphemes")
		}
		st.ClassIf(i > 0 && c.Calls[i-1].Repeat > 0 && k.Repeat == 0 && k.Text != "", "a short text after a long one")
		if i > 0 && err == nil && l.Length() > 1 {
			st.NonTrivial()
		}
	}
	for i, l := range lists {
		if l == nil {
			continue
		}
		if got, want := show(l, nil), fresh[key{c.Calls[i].Mode, c.Calls[i].text()}]; got != want {
			return fmt.Errorf("the result of call %d (%q, mode %s) was\n%s\nafter the last call it is\n%s", i, c.Calls[i].text(), c.Calls[i].Mode, want, got)
		}
	}
	return nil
}

func main() {
	const rule = "an analysis of two morphemes or more that is not the first call"
	pbt.Main("C14",
		pbt.S("mixed", 8000, 400000, rule, gen(0), check),
		pbt.S("numeric", 4000, 200000, rule, gen(1), check),
		pbt.S("natural", 4000, 150000, rule, gen(world.ProfileNatural), check),
		pbt.S("long", 300, 10000, rule, genLong, check),
		pbt.S("katakana", 3000, 150000, rule, gen(2), check),
	)
}
