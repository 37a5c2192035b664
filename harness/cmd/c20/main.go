// C20: katakana joining merges exactly the katakana runs that qualify.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

// extra is a candidate added to the lattice.
type extra struct {
	From, Span, Cost int // characters
}

type caseT struct {
	W       *world.World
	Text    pbt.Str
	Blow    world.Blow // makes the text long
	Choices []int      // which candidates make up the path, from its end
	Extra   []extra
	Min     int // -1: not given
	Pos     int
}

func genPaths(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 1, Profile: 2, NoFail: true, NoSplits: true})
	c := caseT{W: w, Text: pbt.Str(world.DrawText(t, w, alpha, 9))}
	c.Choices = rapid.SliceOfN(rapid.IntRange(0, 11), 0, 25).Draw(t, "choices")
	if world.Chance(t, "long", 5) {
		c.Blow = world.DrawBlow(t, 30, 60, 120, 255, 256, 258, 270)
	}
	n := len([]rune(c.Blow.Apply(string(c.Text))))
	for i := rapid.IntRange(0, 6).Draw(t, "nextra"); i > 0 && n > 0; i-- {
		x := extra{rapid.IntRange(0, n-1).Draw(t, "from"), rapid.IntRange(1, min(n, 8)).Draw(t, "span"), rapid.IntRange(-4, 4).Draw(t, "cost")}
		if n > 256 && rapid.Bool().Draw(t, "wide") {
			x.From, x.Span = x.From%(n-255), world.Pick(t, "wide span", []int{128, 255, 256, 257, n})
		}
		c.Extra = append(c.Extra, x)
	}
	c.Min = rapid.IntRange(-1, 5).Draw(t, "min")
	c.Pos = w.Simple.Pos
	return c
}

type tok struct {
	b, e                  int
	surf, norm, dic, read string
	pos                   int16
	oov                   bool
	dict, id              int
	n                     *gosudachi.LatticeNode
}

func snap(path []*gosudachi.LatticeNode) []tok {
	var out []tok
	for _, n := range path {
		wi := n.GetWordInfo()
		out = append(out, tok{n.GetBegin(), n.GetEnd(), wi.Surface, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, wi.PosId, n.IsOOV(), n.GetDictionaryId(), n.GetWordId(), n})
	}
	return out
}

func show(ts []tok) string {
	var p []string
	for _, t := range ts {
		s := fmt.Sprintf("%d-%d %s", t.b, t.e, t.surf)
		if t.oov {
			s += "(unknown)"
		}
		p = append(p, s)
	}
	return strings.Join(p, " ")
}

type result struct{ merged, known, unknown, dropped, left, mixed, long, longWord int }

// compare checks what the plugin made of a path.
func compare(text *model.Text, before, after []tok, lattice *gosudachi.Lattice, minLen int, pos int16) (r result, err error) {
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%q, least length %d: %s\nbefore: %s\nafter:  %s", text.S, minLen, fmt.Sprintf(f, a...), show(before), show(after))
	}
	kata := func(t tok) bool { return text.Common(t.b, t.e)&world.KATAKANA != 0 }
	k := 0
	same := func(t tok) error {
		if k >= len(after) || after[k] != t {
			return fail("%q (%d to %d) is not left alone", t.surf, t.b, t.e)
		}
		k++
		return nil
	}
	for i := 0; i < len(before); {
		if !kata(before[i]) {
			if err := same(before[i]); err != nil {
				return r, err
			}
			i++
			continue
		}
		j := i
		trigger, plain := false, false
		for j < len(before) && kata(before[j]) {
			t := before[j]
			if text.Char[t.e]-text.Char[t.b] > 255 {
				r.longWord++
			}
			if t.oov || text.Char[t.e]-text.Char[t.b] < minLen {
				trigger = true
			} else {
				plain = true
			}
			j++
		}
		if !trigger {
			r.left++
		}
		for ; trigger && i < j && text.Common(before[i].b, before[i].e)&world.NOOOVBOW != 0; i++ {
			r.dropped++
			if err := same(before[i]); err != nil {
				return r, err
			}
		}
		if !trigger || j-i < 2 {
			for ; i < j; i++ {
				if err := same(before[i]); err != nil {
					return r, err
				}
			}
			continue
		}
		if plain {
			r.mixed++
		}
		if j-i > 100 {
			r.long++
		}
		b, e := before[i].b, before[j-1].e
		if k >= len(after) || after[k].b != b || after[k].e != e {
			return r, fail("no morpheme covers the run from %d to %d", b, e)
		}
		a := after[k]
		k++
		r.merged++
		var best []*gosudachi.LatticeNode
		for _, n := range lattice.GetNodes(b, e) {
			if len(best) > 0 && n.GetPathCost() < best[0].GetPathCost() {
				best = nil
			}
			if len(best) == 0 || n.GetPathCost() == best[0].GetPathCost() {
				best = append(best, n)
			}
		}
		if len(best) > 0 {
			ok := false
			for _, n := range best {
				ok = ok || n == a.n
			}
			if !ok {
				return r, fail("the run from %d to %d is %v (cost %d), want the cheapest candidate %v (cost %d)", b, e, a.n, a.n.GetPathCost(), best[0], best[0].GetPathCost())
			}
			r.known++
		} else {
			s := ""
			for ; i < j; i++ {
				s += before[i].surf
			}
			if a.surf != s || a.norm != s || a.dic != s || a.read != "" || a.pos != pos || !a.oov || a.dict != -1 {
				return r, fail("the unknown word is %+v, want %q with part of speech %d", a, s, pos)
			}
			r.unknown++
		}
		i = j
	}
	if k != len(after) {
		return r, fail("morphemes are left over")
	}
	return r, nil
}

func (r *result) add(x result) {
	r.merged += x.merged
	r.known += x.known
	r.unknown += x.unknown
	r.dropped += x.dropped
	r.left += x.left
	r.mixed += x.mixed
	r.long += x.long
	r.longWord += x.longWord
}

func (r *result) classes(st *pbt.Stats) {
	if r.merged > 0 {
		st.NonTrivial()
	}
	st.ClassIf(r.merged > 1, "two runs merged or more")
	st.ClassIf(r.known > 0, "known candidate for the run")
	st.ClassIf(r.unknown > 0, "new unknown word")
	st.ClassIf(r.dropped > 0 && r.merged > 0, "leading morphemes dropped")
	st.ClassIf(r.left > 0, "katakana run left alone")
	st.ClassIf(r.long > 0, "run of more than 100 morphemes merged")
	st.ClassIf(r.longWord > 0, "katakana morpheme of more than 255 characters")
	st.ClassIf(r.mixed > 0, "run with known and unknown members")
}

// spy keeps the grammar.
type spy struct{ g *dictionary.Grammar }

func (s *spy) GetConfigStruct() interface{}      { return s }
func (s *spy) SetUp(g *dictionary.Grammar) error { s.g = g; return nil }
func (s *spy) Rewrite(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error {
	return nil
}

// checkPaths runs the plugin on any path of candidates.
func checkPaths(c caseT, st *pbt.Stats) error {
	var verr error
	var res result
	ran := false
	g := &spy{}
	fn := func(in *gosudachi.InputText, best *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
		ran = true
		text := model.NewText(&c.W.Chars, in.GetText())
		// those that begin where no candidate ends come last: no path leads there
		insert := func(reached bool) {
			for i, x := range c.Extra {
				if x.From >= len(text.Runes) || (len(lattice.GetNodesWithEnd(text.At[x.From])) > 0) != reached {
					continue
				}
				n := &gosudachi.LatticeNode{}
				n.SetParameter(0, 0, int16(x.Cost))
				n.SetWordInfo(&dictionary.WordInfo{Surface: fmt.Sprintf("extra%d", i)})
				lattice.Insert(text.At[x.From], text.At[min(x.From+x.Span, len(text.Runes))], n)
			}
		}
		insert(true)
		var path []*gosudachi.LatticeNode
		for at, k := len(text.S), 0; at > 0; k++ {
			ns := lattice.GetNodesWithEnd(at)
			n := ns[0]
			if k < len(c.Choices) {
				n = ns[c.Choices[k]%len(ns)]
			}
			path = append([]*gosudachi.LatticeNode{n}, path...)
			at = n.GetBegin()
		}
		insert(false)
		pos := c.W.POS[c.Pos].List()
		conf := &gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &pos}
		minLen := 1
		if c.Min >= 0 {
			conf.MinLength = &c.Min
			minLen = c.Min
		}
		p := gosudachi.NewJoinKatakanaOovPlugin(conf)
		if err := p.SetUp(g.g); err != nil {
			verr = fmt.Errorf("the plugin cannot be set up: %v", err)
			return nil
		}
		before := snap(path)
		if err := p.Rewrite(in, &path, lattice); err != nil {
			verr = fmt.Errorf("%q: %s: %v", text.S, show(before), err)
			return nil
		}
		res, verr = compare(text, before, snap(path), lattice, minLen, g.g.GetPartOfSpeechId(pos))
		return nil
	}
	e, err := c.W.Setup(world.OpenOpt{NoPath: true, PathFirst: []gosudachi.PathRewritePlugin{g, &world.Capture{Fn: fn}}})
	if err != nil {
		return err
	}
	defer e.Close()
	_, err = e.Tok.Tokenize("C", c.Blow.Apply(string(c.Text)))
	if verr != nil {
		return verr
	}
	if err != nil || !ran && c.Text != "" {
		return pbt.Skip("the text could not be analysed")
	}
	res.classes(st)
	return nil
}

type worldT struct {
	W     *world.World
	Texts []pbt.Str
	Blow  []world.Blow `json:",omitempty"` // one per text: what makes it long
}

func genWorld(t *rapid.T) worldT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 2, Profile: 2, NoFail: true, Input: true})
	w.Path = []world.PathPlugin{{Kind: "katakana", MinLength: rapid.IntRange(0, 5).Draw(t, "min"), Pos: w.Simple.Pos}}
	c := worldT{W: w}
	for i := rapid.IntRange(1, 6).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 10)))
	}
	if world.Chance(t, "long", 3) {
		for range c.Texts {
			c.Blow = append(c.Blow, world.DrawBlow(t, 1, 60, 120, 270))
		}
	}
	return c
}

// checkWorld compares the path before and after the plugin of a dictionary.
func checkWorld(c worldT, st *pbt.Stats) error {
	var before []tok
	var verr error
	var sum result
	g := &spy{}
	e, err := c.W.Setup(world.OpenOpt{
		PathFirst: []gosudachi.PathRewritePlugin{g, &world.Capture{Fn: func(_ *gosudachi.InputText, path *[]*gosudachi.LatticeNode, _ *gosudachi.Lattice) error {
			before = snap(*path)
			return nil
		}}},
		PathLast: []gosudachi.PathRewritePlugin{&world.Capture{Fn: func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, l *gosudachi.Lattice) error {
			p := c.W.Path[0]
			r, err := compare(model.NewText(&c.W.Chars, in.GetText()), before, snap(*path), l, p.MinLength, g.g.GetPartOfSpeechId(c.W.POS[p.Pos].List()))
			if err != nil && verr == nil {
				verr = err
			}
			sum.add(r)
			return nil
		}}},
	})
	if err != nil {
		return err
	}
	defer e.Close()
	ran := 0
	for i, s := range c.Texts {
		if _, err := e.Tok.Tokenize("C", world.Blown(c.Blow, i, s)); err == nil {
			ran++
		}
		if verr != nil {
			return verr
		}
	}
	if ran == 0 {
		return pbt.Skip("no text could be analysed")
	}
	sum.classes(st)
	return nil
}

// setT is a settings case.
type setT struct {
	W   *world.World
	Pos []pbt.Str
	No  bool // no part of speech is given
	Min *int
}

func genSet(t *rapid.T) setT {
	w, _ := world.Draw(t, world.Opt{MaxRows: 4, NoSplits: true})
	c := setT{W: w, No: world.Chance(t, "no", 8)}
	for _, p := range world.Pick(t, "pos", w.POS) {
		c.Pos = append(c.Pos, p)
	}
	switch rapid.IntRange(0, 7).Draw(t, "change") {
	case 0:
		c.Pos = c.Pos[:rapid.IntRange(0, 5).Draw(t, "n")]
	case 1:
		c.Pos = append(c.Pos, world.Pick(t, "extra", []pbt.Str{"*", "", "x"}))
	case 2:
		c.Pos[rapid.IntRange(0, 5).Draw(t, "k")] = world.Pick(t, "other", []pbt.Str{"*", "", "x", "名詞"})
	case 3:
		i, j := rapid.IntRange(0, 5).Draw(t, "i"), rapid.IntRange(0, 5).Draw(t, "j")
		c.Pos[i], c.Pos[j] = c.Pos[j], c.Pos[i]
	}
	if rapid.Bool().Draw(t, "min given") {
		m := world.Pick(t, "min", []int{0, 1, 2, 3, 100, -1, -2, -32768, 1 << 40, -1 << 40})
		c.Min = &m
	}
	return c
}

// checkSet sets the plugin up with a dictionary.
func checkSet(c setT, st *pbt.Stats) error {
	g := &spy{}
	e, err := c.W.Setup(world.OpenOpt{NoPath: true, PathFirst: []gosudachi.PathRewritePlugin{g}})
	if err != nil {
		return err
	}
	defer e.Close()
	var pos []string
	for _, p := range c.Pos {
		pos = append(pos, string(p))
	}
	known := false
	ds := append([]world.Dict{c.W.Sys}, c.W.Users...)
	for _, d := range ds {
		for i := range d.Rows {
			q := c.W.POS[d.Rows[i].Pos].List()
			known = known || len(pos) == 6 && strings.Join(q, "\x00") == strings.Join(pos, "\x00")
		}
	}
	conf := &gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &pos, MinLength: c.Min}
	if c.No {
		conf.OovPOS = nil
	}
	refuse := c.No || !known || c.Min != nil && *c.Min < 0
	err = gosudachi.NewJoinKatakanaOovPlugin(conf).SetUp(g.g)
	if (err != nil) != refuse {
		return fmt.Errorf("part of speech %q (given: %v, known: %v), length %v: error %v", pos, !c.No, known, c.Min, err)
	}
	// the dictionary as a whole is refused as well
	conf = &gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &pos, MinLength: c.Min}
	if c.No {
		conf.OovPOS = nil
	}
	f := e.Files
	d, err := gosudachi.NewJapaneseDictionary(c.W.Config(f), nil, c.W.OovPlugins(f), []gosudachi.PathRewritePlugin{gosudachi.NewJoinKatakanaOovPlugin(conf)}, nil)
	if err == nil {
		d.Close()
	}
	if (err != nil) != refuse {
		return fmt.Errorf("dictionary with part of speech %q (given: %v, known: %v), length %v: error %v", pos, !c.No, known, c.Min, err)
	}
	st.ClassIf(refuse, "refused")
	st.ClassIf(!refuse && c.Min == nil, "accepted without a length")
	if !refuse {
		st.NonTrivial()
	}
	return nil
}

func main() {
	const rule = "a run is merged"
	pbt.Main("C20",
		pbt.S("paths", 30000, 400000, rule, genPaths, checkPaths),
		pbt.S("worlds", 12000, 200000, rule, genWorld, checkWorld),
		pbt.S("settings", 3000, 60000, "the settings are accepted", genSet, checkSet),
	)
}
