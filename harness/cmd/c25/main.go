// C25: morpheme attributes are those of the dictionary word or unknown word.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type query struct{ List, Morph, What int }

type caseT struct {
	W       *world.World
	Texts   []pbt.Str
	Modes   []string
	Queries []query
	Late    int // so many texts are analysed only between the questions
}

func gen(o world.Opt) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		o := o
		o.Input = world.Chance(t, "in", 30)
		if o.Path && o.Profile == 0 {
			o.Profile = world.Pick(t, "profile", []int{1, 2, 1, 0})
		}
		w, alpha := world.Draw(t, o)
		if o.Path && o.Profile < 3 && len(w.Path) == 0 {
			w.Path = append(w.Path, world.PathPlugin{Kind: "numeric", Normalize: rapid.Bool().Draw(t, "normalize")})
		}
		c := caseT{W: w}
		for i := rapid.IntRange(1, 5).Draw(t, "ntexts"); i > 0; i-- {
			c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 7)))
			c.Modes = append(c.Modes, world.Pick(t, "mode", []string{"A", "B", "C", "C"}))
		}
		for i := rapid.IntRange(5, 40).Draw(t, "nq"); i > 0; i-- {
			c.Queries = append(c.Queries, query{rapid.IntRange(0, 9).Draw(t, "list"), rapid.IntRange(0, 9).Draw(t, "morph"), rapid.IntRange(0, len(asks)-1).Draw(t, "what")})
		}
		c.Late = rapid.IntRange(0, len(c.Texts)-1).Draw(t, "late")
		if o.Path {
			// a few long texts: numbers and katakana in a row
			for i := range c.Texts {
				if world.Chance(t, "long", 50) {
					c.Texts[i] = pbt.Str(world.DrawText(t, w, alpha, 20))
				}
			}
		}
		return c
	}
}

// piece is a morpheme before path rewriting.
type piece struct {
	b, e int
	a    attrs
}

// pieces sees the path before the path rewriting plugins of the world.
type pieces struct {
	world.Capture
	g    *dictionary.Grammar
	last []piece
}

// SetUp implements gosudachi.PathRewritePlugin.
func (p *pieces) SetUp(g *dictionary.Grammar) error {
	p.g = g
	return nil
}

// Rewrite implements gosudachi.PathRewritePlugin.
func (p *pieces) Rewrite(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	p.last = nil
	for _, n := range *path {
		wi := n.GetWordInfo()
		p.last = append(p.last, piece{n.GetBegin(), n.GetEnd(), attrs{Pos: strings.Join(p.g.GetPartOfSpeechString(wi.PosId), ","),
			Norm: wi.NormalizedForm, DicForm: wi.DictionaryForm, Reading: wi.ReadingForm, WordSurface: wi.Surface, Oov: n.IsOOV(), HeadLen: int(wi.HeadwordLength)}})
	}
	return nil
}

// seen is an input plugin of the harness that notes the rewritten text.
type seen struct{ text string }

func (p *seen) GetConfigStruct() interface{} { return p }
func (p *seen) SetUp() error                 { return nil }
func (p *seen) Rewrite(b *gosudachi.InputTextBuilder) error {
	p.text = string(b.GetText())
	return nil
}

// attrs are the attributes of a morpheme.
type attrs struct {
	Surface, Pos, Norm, DicForm, Reading string
	Dict, Word                           int // Word is not compared for unknown words
	Oov                                  bool
	WordSurface                          string
	HeadLen                              int
}

func same(a, b attrs) bool {
	if a.Oov && b.Oov {
		a.Word = b.Word
	}
	return a == b
}

// asks are the ways to ask for an attribute.
var asks = []struct {
	name string
	f    func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any
	want func(a attrs) any
}{
	{"Surface", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return m.Surface() }, func(a attrs) any { return a.Surface }},
	{"PartOfSpeech", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any {
		return strings.Join(m.PartOfSpeech(), ",")
	}, func(a attrs) any { return a.Pos }},
	{"NormalizedForm", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return m.NormalizedForm() }, func(a attrs) any { return a.Norm }},
	{"DictionaryForm", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return m.DictionaryForm() }, func(a attrs) any { return a.DicForm }},
	{"ReadingForm", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return m.ReadingForm() }, func(a attrs) any { return a.Reading }},
	{"GetDictionaryId", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return m.GetDictionaryId() }, func(a attrs) any { return a.Dict }},
	{"IsOOV", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return m.IsOOV() }, func(a attrs) any { return a.Oov }},
	{"GetWordId", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return m.GetWordId() }, func(a attrs) any { return a.Word }},
	{"GetWordInfo", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any {
		wi := m.GetWordInfo()
		return fmt.Sprintf("%q %q %q %q %d", wi.Surface, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, wi.HeadwordLength)
	}, func(a attrs) any {
		return fmt.Sprintf("%q %q %q %q %d", a.WordSurface, a.Norm, a.DicForm, a.Reading, a.HeadLen)
	}},
	{"list.GetSurface", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return l.GetSurface(i) }, func(a attrs) any { return a.Surface }},
	{"list.GetDictionaryId", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return l.GetDictionaryId(i) }, func(a attrs) any { return a.Dict }},
	{"list.IsOOV", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return l.IsOOV(i) }, func(a attrs) any { return a.Oov }},
	{"list.GetWordId", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any { return l.GetWordId(i) }, func(a attrs) any { return a.Word }},
	{"list.GetWordInfo", func(m *gosudachi.Morpheme, l *gosudachi.MorphemeList, i int) any {
		wi := l.GetWordInfo(i)
		return fmt.Sprintf("%q %q %q %q %d", wi.Surface, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, wi.HeadwordLength)
	}, func(a attrs) any {
		return fmt.Sprintf("%q %q %q %q %d", a.WordSurface, a.Norm, a.DicForm, a.Reading, a.HeadLen)
	}},
}

// of reads the attributes a morpheme has at first.
func of(m *gosudachi.Morpheme) attrs {
	wi := m.GetWordInfo()
	return attrs{m.Surface(), strings.Join(m.PartOfSpeech(), ","), m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), m.GetDictionaryId(), m.GetWordId(), m.IsOOV(), wi.Surface, int(wi.HeadwordLength)}
}

type list struct {
	ms   *gosudachi.MorphemeList
	want []attrs
	kept []*gosudachi.Morpheme
}

// expect works out the attributes from the sources.
func (c *caseT) expect(text, rewritten string, ms *gosudachi.MorphemeList, before []piece, st *pbt.Stats) ([]attrs, error) {
	w := c.W
	runes := world.Runes(text)
	l := model.NewLattice(w, rewritten)
	at := 0
	var out []attrs
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		got := of(m)
		to := at + got.HeadLen
		if got.HeadLen < 0 || to > len(rewritten) {
			return nil, fmt.Errorf("%q: morpheme %d has a headword of %d bytes at %d of %d", text, i, got.HeadLen, at, len(rewritten))
		}
		if m.Begin() < 0 || m.End() > len(runes) || m.Begin() > m.End() {
			return nil, fmt.Errorf("%q: morpheme %d goes from %d to %d", text, i, m.Begin(), m.End())
		}
		a := attrs{Surface: string(runes[m.Begin():m.End()])}
		part := rewritten[at:to]
		covered := 0
		joined := attrs{Dict: -1, Surface: a.Surface, HeadLen: len(part)}
		for _, p := range before {
			if p.b >= at && p.e <= to {
				if covered == 0 {
					joined.Pos = p.a.Pos
				}
				covered++
				joined.Norm, joined.DicForm, joined.Reading, joined.WordSurface = joined.Norm+p.a.Norm, joined.DicForm+p.a.DicForm, joined.Reading+p.a.Reading, joined.WordSurface+p.a.WordSurface
			}
		}
		if !got.Oov && got.Dict < 0 && covered > 0 {
			// joined by the numeric plugin
			katakana := false
			for _, p := range w.Path {
				katakana = katakana || p.Kind == "katakana"
			}
			a = joined
			if katakana {
				// which parts were joined is not known
				a = got
				a.Surface, a.Dict, a.HeadLen = joined.Surface, -1, len(part)
			}
			if v, ok := model.Number(joined.Norm); ok && !katakana {
				g, ok := model.PlainDecimal(got.Norm)
				if !ok || g.Cmp(v) != 0 {
					if got.Norm != joined.Norm {
						return nil, fmt.Errorf("%q (rewritten %q): the normalized form of %q is %q", text, rewritten, joined.Norm, got.Norm)
					}
				}
			}
			a.Norm, a.Word = got.Norm, got.Word
			st.Class("joined number")
		} else if got.Oov || got.Dict < 0 {
			a.Norm, a.DicForm, a.WordSurface, a.HeadLen, a.Dict, a.Oov = part, part, part, len(part), -1, true
			for _, k := range l.At[at] {
				if k.Dict < 0 && k.End == to && got.Pos == w.POS[k.Pos].Join() {
					a.Pos = got.Pos
				}
			}
			if covered > 1 {
				joins := 0
				for _, p := range w.Path {
					if p.Kind == "katakana" {
						joins++
						if got.Pos == w.POS[p.Pos].Join() {
							a.Pos = got.Pos
						}
					}
				}
				if joins > 0 {
					// a joined word has the surfaces of its parts, which may not be the text
					st.Class("joined unknown word")
					form := joined.WordSurface
					if joins > 1 {
						form = got.WordSurface
					}
					if got.WordSurface == form {
						a.Norm, a.DicForm, a.WordSurface = form, form, form
					}
				}
			}
			if a.Pos == "" && got.Pos != ",,,,," {
				return nil, fmt.Errorf("%q (rewritten %q): no definition gives an unknown word %q with part of speech %s at %d", text, rewritten, part, got.Pos, at)
			}
			a.Pos = got.Pos
			st.Class("unknown word")
			st.ClassIf(part != a.Surface, "unknown word, rewritten")
		} else {
			d := &w.Sys
			if got.Dict > len(w.Users) {
				return nil, fmt.Errorf("%q: dictionary number %d of %d", text, got.Dict, len(w.Users))
			}
			if got.Dict > 0 {
				d = &w.Users[got.Dict-1]
				st.Class("user word")
			}
			n := got.Word & 0xfffffff
			if got.Word>>28 != got.Dict || n >= len(d.Rows) {
				return nil, fmt.Errorf("%q: word number %#x of dictionary %d with %d words", text, got.Word, got.Dict, len(d.Rows))
			}
			r := &d.Rows[n]
			if string(r.Head) != part {
				return nil, fmt.Errorf("%q (rewritten %q): morpheme %d is word %#x %q, the text there is %q", text, rewritten, i, got.Word, r.Head, part)
			}
			f := r
			if r.DicForm >= 0 {
				f = &d.Rows[r.DicForm]
				st.Class("with a dictionary form")
			}
			a.Pos, a.Norm, a.DicForm, a.Reading = w.POS[r.Pos].Join(), r.ReadNorm(), string(f.Surface), r.ReadReading()
			a.Dict, a.Word, a.WordSurface, a.HeadLen = got.Dict, got.Word, string(r.Surface), len(r.Head)
			same := 0
			for j := range d.Rows {
				if d.Rows[j].Head == r.Head {
					same++
				}
			}
			st.ClassIf(same > 1, "homograph")
			st.ClassIf(got.Dict > 1 && r.Pos >= 0 && !sysPos(w, r.Pos), "own part of speech of a later user dictionary")
			st.ClassIf(part != a.Surface, "word, rewritten")
		}
		if !same(got, a) {
			return nil, fmt.Errorf("%q (rewritten %q): morpheme %d has\n%+v\nwant\n%+v", text, rewritten, i, got, a)
		}
		a.Word = got.Word
		out = append(out, a)
		at = to
	}
	if at != len(rewritten) {
		return nil, fmt.Errorf("%q: the headwords have %d bytes, the rewritten text %q", text, at, rewritten)
	}
	return out, nil
}

func sysPos(w *world.World, pos int) bool {
	for i := range w.Sys.Rows {
		if w.POS[w.Sys.Rows[i].Pos] == w.POS[pos] {
			return true
		}
	}
	return false
}

func check(c caseT, st *pbt.Stats) error {
	in := &seen{}
	before := &pieces{}
	e, err := c.W.Setup(world.OpenOpt{InputLast: []gosudachi.InputTextPlugin{in}, PathFirst: []gosudachi.PathRewritePlugin{before}})
	if err != nil {
		return err
	}
	defer e.Close()
	var lists []*list
	words := 0
	add := func(i int) error {
		text := string(c.Texts[i])
		in.text = ""
		ms, err := e.Tok.Tokenize(c.Modes[i], text)
		if err != nil || ms.Length() == 0 {
			return nil
		}
		want, err := c.expect(text, in.text, ms, before.last, st)
		if err != nil {
			return fmt.Errorf("mode %s: %v", c.Modes[i], err)
		}
		l := &list{ms: ms, want: want}
		for j := range want {
			l.kept = append(l.kept, ms.Get(j))
			if !want[j].Oov {
				words++
			}
		}
		lists = append(lists, l)
		return nil
	}
	next := 0
	for ; next < len(c.Texts)-c.Late; next++ {
		if err := add(next); err != nil {
			return err
		}
	}
	for k, q := range c.Queries {
		if k%4 == 3 && next < len(c.Texts) {
			if err := add(next); err != nil {
				return err
			}
			next++
		}
		if len(lists) == 0 {
			continue
		}
		l := lists[q.List%len(lists)]
		i := q.Morph % len(l.want)
		m := l.kept[i]
		if k%3 == 0 {
			m = l.ms.Get(i)
		}
		a := &asks[q.What]
		if got, want := a.f(m, l.ms, i), a.want(l.want[i]); got != want {
			return fmt.Errorf("asked again, %s of morpheme %d (%+v) gives %v, want %v", a.name, i, l.want[i], got, want)
		}
	}
	// in the end everything is as before
	for _, l := range lists {
		for i, want := range l.want {
			if got := of(l.ms.Get(i)); !same(got, want) {
				return fmt.Errorf("in the end morpheme %d has\n%+v\nbefore\n%+v", i, got, want)
			}
		}
	}
	if words > 0 && len(c.Queries) > 0 {
		st.NonTrivial()
	}
	st.ClassIf(c.W.Utf16, "UTF-16")
	return nil
}

func main() {
	const rule = "a dictionary word is found and asked about again"
	pbt.Main("C25",
		pbt.S("words", 15000, 600000, rule, gen(world.Opt{MaxRows: 12, MaxUsers: 3, NoFail: true}), check),
		pbt.S("joined", 8000, 300000, rule, gen(world.Opt{MaxRows: 14, MaxUsers: 2, NoFail: true, Path: true}), check),
		pbt.S("odd", 5000, 200000, rule, gen(world.Opt{MaxRows: 10, MaxUsers: 2, NoFail: true, Odd: true}), check),
		pbt.S("long", 400, 20000, rule, gen(world.Opt{MaxRows: 8, MaxUsers: 2, NoFail: true, Path: true, Long: 25}), check),
		pbt.S("natural", 3000, 150000, rule, gen(world.Opt{MaxUsers: 2, Path: true, Profile: world.ProfileNatural}), check),
	)
}
