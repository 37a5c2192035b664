// C12: unknown-word candidates follow their definition files.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W     *world.World
	Texts []pbt.Str
	Blow  []world.Blow `json:",omitempty"` // one per text: what makes it long
}

func gen(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: 1, NoSplits: true})
	c := caseT{W: w}
	for i := rapid.IntRange(1, 3).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 7)))
	}
	if world.Chance(t, "big", 3) {
		sizes := []int{1, 20}
		if rapid.Bool().Draw(t, "lengths") {
			sizes = []int{1, 20, 40, 130, 270}
			for i := range w.Chars.Props {
				if world.Chance(t, "longer", 40) {
					w.Chars.Props[i].Len = world.Pick(t, "length", []int{9, 16, 17, 31, 33, 40, 64, 100, 128, 255, 256, 300, 1000})
				}
			}
		} else {
			for i, n := 0, len(w.Unk); i < n; i++ {
				for k := world.Pick(t, "entries", []int{0, 0, 3, 10, 20, 40}); k > 0; k-- {
					u := w.Unk[i]
					u.Cost = (u.Cost + 7*k) % 30000
					w.Unk = append(w.Unk, u)
				}
			}
		}
		for range c.Texts {
			c.Blow = append(c.Blow, world.DrawBlow(t, sizes...))
		}
	}
	return c
}

var params = regexp.MustCompile(` (-?\d+) (-?\d+) (-?\d+) (-?\d+)$`)

// show gives what a candidate is, in a form that can be compared. ids tells
// whether the connection ids could be read.
func show(n *gosudachi.LatticeNode, pos func(int16) []string) (string, bool) {
	wi := n.GetWordInfo()
	id := strconv.Itoa(n.GetDictionaryId())
	if !n.IsOOV() {
		return fmt.Sprintf("%d-%d word %s %#x cost %d", n.GetBegin(), n.GetEnd(), id, n.GetWordId(), n.GetPathCost()), true
	}
	ids := "?"
	if m := params.FindStringSubmatch(n.String()); m != nil && m[1] == strconv.Itoa(int(wi.PosId)) && m[4] == strconv.Itoa(n.GetPathCost()) {
		ids = m[2] + "/" + m[3]
	}
	return fmt.Sprintf("%d-%d unknown word %.50q len %d (%.50q %.50q %q) %s dict %s cost %d ids %s units %d %d", n.GetBegin(), n.GetEnd(), wi.Surface, wi.HeadwordLength,
		wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, strings.Join(pos(wi.PosId), ","), id, n.GetPathCost(), ids, len(wi.AUnitSplit), len(wi.BUnitSplit)), ids != "?"
}

func want(w *world.World, c model.Cand, ids bool) string {
	if c.Dict >= 0 {
		return fmt.Sprintf("%d-%d word %d %#x cost %d", c.Begin, c.End, c.Dict, c.Dict<<28|c.Row, c.Cost)
	}
	i := "?"
	if ids {
		i = strconv.Itoa(c.Left) + "/" + strconv.Itoa(c.Right)
	}
	return fmt.Sprintf("%d-%d unknown word %.50q len %d (%.50q %.50q %q) %s dict -1 cost %d ids %s units 0 0", c.Begin, c.End, c.Surface, c.End-c.Begin, c.Surface, c.Surface, "", w.POS[c.Pos].Join(), c.Cost, i)
}

// same compares candidates as sets.
func same(w *world.World, nodes []*gosudachi.LatticeNode, cands []model.Cand, pos func(int16) []string) error {
	readable := true
	for _, n := range nodes {
		_, ok := show(n, pos)
		readable = readable && ok
	}
	got, exp := map[string]bool{}, map[string]bool{}
	for _, n := range nodes {
		s, _ := show(n, pos)
		if n.IsOOV() && !readable {
			s = regexp.MustCompile(`ids \S+`).ReplaceAllString(s, "ids ?")
		}
		got[s] = true
	}
	for _, c := range cands {
		exp[want(w, c, readable)] = true
	}
	list := func(a, b map[string]bool) []string {
		var out []string
		for k := range a {
			if !b[k] {
				out = append(out, k)
			}
		}
		sort.Strings(out)
		return out
	}
	if m := list(exp, got); len(m) > 0 {
		return fmt.Errorf("missing candidates %q (too many: %q)", m, list(got, exp))
	}
	if m := list(got, exp); len(m) > 0 {
		return fmt.Errorf("candidates that should not be there: %q", m)
	}
	return nil
}

// grammar reads the system dictionary of a materialised world for direct calls.
func grammar(w *world.World, f *world.Files) (*dictionary.BinaryDictionary, error) {
	d, err := dictionary.ReadSystemDictionary(f.Sys, w.Utf16)
	if err != nil {
		return nil, pbt.Skip("%v", err)
	}
	fd, err := os.Open(f.CharDef)
	pbt.Must(err)
	defer fd.Close()
	cc := dictionary.NewCharacterCategory()
	if err := cc.ReadCharacterDefinition(fd); err != nil {
		d.Close()
		return nil, pbt.Skip("%v", err)
	}
	d.Grammar.CharCategory = cc
	return d, nil
}

func checkDirect(c caseT, st *pbt.Stats) error {
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	f, err := w.Materialise(dir)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	d, err := grammar(w, f)
	if err != nil {
		return err
	}
	defer d.Close()
	posOf := func(i int16) []string { return d.Grammar.GetPartOfSpeechString(i) }
	w2 := *w
	w2.Oov = []string{"mecab", "simple"}
	for k, p := range w2.OovPlugins(f) {
		if err := p.SetUp(d.Grammar); err != nil {
			return fmt.Errorf("setting up the %s provider: %v", w2.Oov[k], err)
		}
		for j, x := range c.Texts {
			s := world.Blown(c.Blow, j, x)
			in := gosudachi.NewInputTextBuilder(s, d.Grammar).Build()
			t := model.NewText(&w.Chars, model.Valid(s))
			for i := range t.Runes {
				if i > 12 && i%29 != 0 && i < len(t.Runes)-2 {
					continue
				}
				for _, other := range []bool{false, true} {
					nodes, err := gosudachi.GetOOV(p, in, t.At[i], other)
					if err != nil {
						return fmt.Errorf("%s provider at %d of %q: %v", w2.Oov[k], t.At[i], t.S, err)
					}
					exp := model.SimpleOov(w, t, i, other)
					if k == 0 {
						exp = model.MecabOov(w, t, i, other)
					}
					if err := same(w, nodes, exp, posOf); err != nil {
						return fmt.Errorf("%s provider at %d of %q (other words: %v): %v", w2.Oov[k], t.At[i], t.S, other, err)
					}
					if len(exp) > 1 {
						st.NonTrivial()
					}
					st.ClassIf(len(exp) > 1 && other, "candidates although there are other words")
					st.ClassIf(len(exp) == 0 && !other, "no candidates")
					pos := map[int]bool{}
					for _, x := range exp {
						pos[x.End] = true
					}
					st.ClassIf(len(pos) > 2, "candidates of three lengths or more")
					st.ClassIf(len(pos) > 32, "candidates of more than 32 lengths")
					st.ClassIf(len(exp) > 8 && len(pos) == 1, "more than eight candidates of one length")
				}
				st.ClassIf(t.Cats[i]&(t.Cats[i]-1) != 0, "character of several categories")
			}
		}
	}
	return nil
}

func checkLattice(c caseT, st *pbt.Stats) error {
	w := c.W
	var nodes []*gosudachi.LatticeNode
	text := ""
	cap := &world.Capture{Fn: func(in *gosudachi.InputText, p *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
		nodes, text = nil, in.GetText()
		for i := 1; i <= len(text); i++ {
			nodes = append(nodes, lattice.GetNodesWithEnd(i)...)
		}
		return nil
	}}
	e, err := w.Setup(world.OpenOpt{PathFirst: []gosudachi.PathRewritePlugin{cap}})
	if err != nil {
		for _, u := range w.Unk {
			if strings.ContainsAny(w.POS[u.Pos].Join(), "\r\n") || len(strings.Split(w.POS[u.Pos].Join(), ",")) != 6 {
				return err // cannot be written in unk.def
			}
		}
		if strings.Contains(err.Error(), "Oov") {
			return fmt.Errorf("well-formed definitions are refused: %v", err)
		}
		return err
	}
	defer e.Close()
	for j, x := range c.Texts {
		s := world.Blown(c.Blow, j, x)
		if s == "" {
			continue
		}
		if j < len(c.Blow) && len(s) > 80 {
			continue // checked by direct calls
		}
		if _, err := e.Tok.Tokenize("C", s); err != nil {
			st.Class("no analysis")
			continue
		}
		l := model.NewLattice(w, text)
		var exp []model.Cand
		for _, cs := range l.At {
			exp = append(exp, cs...)
			oov, words := 0, 0
			for _, x := range cs {
				if x.Dict < 0 {
					oov++
				} else {
					words++
				}
			}
			st.ClassIf(oov > 0 && words > 0, "unknown-word candidates beside words")
			if oov > 0 && words > 0 {
				st.NonTrivial()
			}
			i := l.T.Char[cs[0].Begin]
			st.ClassIf(l.T.Cats[i]&world.NOOOVBOW != 0 && oov > 0, "fallback for a character that begins no unknown word")
			st.ClassIf(l.T.Cats[i]&world.NOOOVBOW != 0 && oov == 0, "no unknown words for a character that begins none")
		}
		if err := same(w, nodes, exp, e.Dict.GetPartOfSpeechString); err != nil {
			return fmt.Errorf("the lattice of %q: %v", text, err)
		}
	}
	return nil
}

// --- very long runs

type longT struct {
	W     *world.World
	Text  []pbt.Str // repeated
	Count int
	At    []int // characters at which the provider is asked
}

func genLong(t *rapid.T) longT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 4, NoSplits: true})
	c := longT{W: w, Count: rapid.IntRange(10000, 40000).Draw(t, "count")}
	for i := range w.Chars.Props {
		w.Chars.Props[i].Group = true
	}
	for i := rapid.IntRange(1, 2).Draw(t, "n"); i > 0; i-- {
		c.Text = append(c.Text, pbt.Str(string(world.Pick(t, "char", alpha))))
	}
	for i := rapid.IntRange(1, 3).Draw(t, "nat"); i > 0; i-- {
		c.At = append(c.At, rapid.IntRange(0, 6999).Draw(t, "at"))
	}
	return c
}

func checkLong(c longT, st *pbt.Stats) error {
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	f, err := w.Materialise(dir)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	d, err := grammar(w, f)
	if err != nil {
		return err
	}
	defer d.Close()
	var b strings.Builder
	for i := 0; i < c.Count; i++ {
		b.WriteString(string(c.Text[i%len(c.Text)]))
	}
	w2 := *w
	w2.Oov = []string{"mecab"}
	p := w2.OovPlugins(f)[0]
	if err := p.SetUp(d.Grammar); err != nil {
		return fmt.Errorf("setting up: %v", err)
	}
	in := gosudachi.NewInputTextBuilder(b.String(), d.Grammar).Build()
	t := model.NewText(&w.Chars, b.String())
	for _, i := range append([]int{0}, c.At...) {
		nodes, err := gosudachi.GetOOV(p, in, t.At[i], false)
		if err != nil {
			return err
		}
		if err := same(w, nodes, model.MecabOov(w, t, i, false), d.Grammar.GetPartOfSpeechString); err != nil {
			return fmt.Errorf("character %d of %d characters: %v", i, c.Count, err)
		}
		if t.RunEnd(t.At[i])-t.At[i] > 32767 {
			st.Class("run longer than a word can be")
			st.NonTrivial()
		}
	}
	return nil
}

// --- definition files with mistakes

type badT struct {
	W    *world.World
	Char pbt.Str // char.def
	Unk  pbt.Str // unk.def
	Text pbt.Str
}

func mutate(t *rapid.T, src string, frags []string) string {
	lines := strings.Split(strings.TrimSuffix(src, "\n"), "\n")
	k := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
	sep := " "
	if strings.Contains(lines[k], ",") {
		sep = ","
	}
	cells := strings.Split(lines[k], sep)
	j := rapid.IntRange(0, len(cells)-1).Draw(t, "cell")
	switch rapid.IntRange(0, 6).Draw(t, "how") {
	case 0:
		cells = append(cells[:j:j], cells[j+1:]...)
	case 1, 2, 3:
		cells[j] = world.Pick(t, "frag", frags)
	case 4:
		cells = append(cells[:j:j], append([]string{world.Pick(t, "frag", frags)}, cells[j:]...)...)
	case 5:
		lines = append(lines, lines[k])
	case 6:
		lines = append(lines[:k:k], append([]string{world.Pick(t, "frag", frags)}, lines[k:]...)...)
	}
	if k < len(lines) && len(cells) > 0 {
		lines[k] = strings.Join(cells, sep)
	}
	nl := world.Pick(t, "nl", []string{"\n", "\n", "\r\n"})
	out := strings.Join(lines, nl)
	if !world.Chance(t, "nofinal", 40) {
		out += nl
	}
	return out
}

func genBad(t *rapid.T) badT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 4, NoSplits: true})
	c := badT{W: w, Char: pbt.Str(w.Chars.Source()), Unk: pbt.Str(w.UnkSource()), Text: pbt.Str(world.DrawText(t, w, alpha, 4))}
	frags := []string{"", " ", "#", "# x", "DEFAULT", "NOSUCH", "default", "USER4", "NOOOVBOW", "-1", "0", "1", "2", "+3", "00", "1.5", "x", "0x0041", "0x", "32767", "32768", "-32768", "-32769", "65536", "99999999999999999999", "*", "名詞", "\t", "１"}
	if rapid.Bool().Draw(t, "char") {
		c.Char = pbt.Str(mutate(t, string(c.Char), frags))
	}
	if c.Unk != "" && rapid.Bool().Draw(t, "unk") {
		c.Unk = pbt.Str(mutate(t, string(c.Unk), frags))
	}
	return c
}

func lines(s string) []string {
	var out []string
	for s != "" {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return append(out, s)
		}
		out = append(out, strings.TrimSuffix(s[:i], "\r"))
		s = s[i+1:]
	}
	return out
}

var number = regexp.MustCompile(`^[+-]?[0-9]+$`)

func num(s string, lo, hi int) (int, bool) {
	if !number.MatchString(s) {
		return 0, false
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s, "+"))
	return n, err == nil && n >= lo && n <= hi
}

func category(s string) (uint32, bool) {
	for i, n := range world.CatNames {
		if n == s {
			return 1 << i, true
		}
	}
	return 0, false
}

// parse reads the two files; the reason for refusing them, or "".
func (c badT) parse(pos func([]string) int) (props []world.CatProp, unks []world.Unk, refuse string) {
	seen := map[uint32]bool{}
	for _, l := range lines(string(c.Char)) {
		if strings.HasPrefix(l, "#") || strings.Trim(l, " \t") == "" || strings.HasPrefix(l, "0x") && len(l) > 2 {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 {
			return nil, nil, "a property line with " + strconv.Itoa(len(f)) + " fields"
		}
		k, ok := category(f[0])
		if !ok {
			return nil, nil, "unknown category " + f[0]
		}
		if seen[k] {
			return nil, nil, "category defined twice"
		}
		seen[k] = true
		n, ok := num(f[3], -1<<62, 1<<62)
		if !ok {
			return nil, nil, "no number: " + f[3]
		}
		props = append(props, world.CatProp{Cat: k, Invoke: f[1] != "0", Group: f[2] != "0", Len: n})
	}
	for _, l := range lines(string(c.Unk)) {
		f := strings.Split(l, ",")
		if len(f) < 10 {
			return nil, nil, "an unk.def line with " + strconv.Itoa(len(f)) + " columns"
		}
		k, ok := category(f[0])
		if !ok || !seen[k] {
			return nil, nil, "category unknown or without property: " + f[0]
		}
		var n [3]int
		for i := range n {
			if n[i], ok = num(f[1+i], -32768, 32767); !ok {
				return nil, nil, "no 16-bit number: " + f[1+i]
			}
		}
		p := pos(f[4:10])
		if p < 0 {
			return nil, nil, "unknown part of speech"
		}
		unks = append(unks, world.Unk{Cat: k, Left: n[0], Right: n[1], Cost: n[2], Pos: p})
	}
	return props, unks, ""
}

func checkBad(c badT, st *pbt.Stats) error {
	w := *c.W
	dir, rm := world.Dir()
	defer rm()
	f, err := w.Materialise(dir)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	d, err := grammar(&w, f)
	if err != nil {
		return err
	}
	defer d.Close()
	used := map[int]bool{}
	for i := range w.Sys.Rows {
		used[w.Sys.Rows[i].Pos] = true
	}
	props, unks, refuse := c.parse(func(p []string) int {
		for i := range w.POS {
			if used[i] && w.POS[i].Join() == strings.Join(p, ",") {
				return i
			}
		}
		return -1
	})
	cd, ud := world.Write(filepath.Join(dir, "c.def"), string(c.Char)), world.Write(filepath.Join(dir, "u.def"), string(c.Unk))
	p := gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud})
	err = p.SetUp(d.Grammar)
	if refuse != "" {
		st.Class("refused: " + strings.SplitN(strings.SplitN(refuse, ":", 2)[0], " with ", 2)[0])
		st.NonTrivial()
		if err == nil {
			return fmt.Errorf("definitions are accepted: %s", refuse)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("definitions without a mistake are refused: %v", err)
	}
	st.Class("accepted")
	w.Unk = unks
	w.Chars.Props = props
	for i := range w.Chars.Props {
		if w.Chars.Props[i].Len > 100 {
			w.Chars.Props[i].Len = 100
		}
	}
	in := gosudachi.NewInputTextBuilder(string(c.Text), d.Grammar).Build()
	t := model.NewText(&w.Chars, model.Valid(string(c.Text)))
	for i := range t.Runes {
		for _, other := range []bool{false, true} {
			nodes, err := gosudachi.GetOOV(p, in, t.At[i], other)
			if err != nil {
				return err
			}
			if err := same(&w, nodes, model.MecabOov(&w, t, i, other), d.Grammar.GetPartOfSpeechString); err != nil {
				return fmt.Errorf("provider at %d of %q (other words: %v): %v", t.At[i], t.S, other, err)
			}
		}
	}
	return nil
}

// --- settings of the simple provider, and missing files

type simpleT struct {
	W                   *world.World
	Pos                 []pbt.Str
	NoPos               bool
	NoLeft, NoRight     bool
	NoCost              bool
	Left, Right, Cost   int16
	MissChar, MissUnk   bool
	BadKind             string
	UseEmbedded, Fields bool
}

func genSimple(t *rapid.T) simpleT {
	w, _ := world.Draw(t, world.Opt{MaxRows: 4, NoSplits: true})
	c := simpleT{W: w, NoPos: world.Chance(t, "nopos", 8), NoLeft: world.Chance(t, "noleft", 8), NoRight: world.Chance(t, "noright", 8), NoCost: world.Chance(t, "nocost", 8)}
	i16 := func(l string) int16 { return int16(rapid.IntRange(-32768, 32767).Draw(t, l)) }
	c.Left, c.Right, c.Cost = i16("left"), i16("right"), i16("cost")
	for _, p := range w.POS[w.Simple.Pos] {
		c.Pos = append(c.Pos, p)
	}
	switch rapid.IntRange(0, 7).Draw(t, "pos") {
	case 0:
		c.Pos = c.Pos[:rapid.IntRange(0, 5).Draw(t, "n")]
	case 1:
		c.Pos = append(c.Pos, world.Pick(t, "extra", []pbt.Str{"*", "", "x"}))
	case 2:
		c.Pos[rapid.IntRange(0, 5).Draw(t, "k")] = world.Pick(t, "other", []pbt.Str{"*", "", "x", "名詞"})
	}
	c.MissChar, c.MissUnk = world.Chance(t, "misschar", 15), world.Chance(t, "missunk", 15)
	return c
}

func checkSimple(c simpleT, st *pbt.Stats) error {
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	f, err := w.Materialise(dir)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	d, err := grammar(w, f)
	if err != nil {
		return err
	}
	defer d.Close()
	var pos []string
	for _, p := range c.Pos {
		pos = append(pos, string(p))
	}
	known := -1
	for i := range w.Sys.Rows {
		q := w.POS[w.Sys.Rows[i].Pos].List()
		if strings.Join(q, "\x00") == strings.Join(pos, "\x00") && len(pos) == 6 {
			known = w.Sys.Rows[i].Pos
		}
	}
	cfg := &gosudachi.SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &c.Left, RightId: &c.Right, Cost: &c.Cost}
	if c.NoPos {
		cfg.OovPos = nil
	}
	if c.NoLeft {
		cfg.LeftId = nil
	}
	if c.NoRight {
		cfg.RightId = nil
	}
	if c.NoCost {
		cfg.Cost = nil
	}
	refuse := c.NoPos || c.NoLeft || c.NoRight || c.NoCost || known < 0
	p := gosudachi.NewSimpleOovProviderPlugin(cfg)
	err = p.SetUp(d.Grammar)
	if (err != nil) != refuse {
		return fmt.Errorf("simple provider with part of speech %q (known: %v), settings missing %v %v %v %v: error %v", pos, known >= 0, c.NoPos, c.NoLeft, c.NoRight, c.NoCost, err)
	}
	if err == nil {
		w2 := *w
		w2.Simple = world.Simple{Left: int(c.Left), Right: int(c.Right), Cost: int(c.Cost), Pos: known}
		in := gosudachi.NewInputTextBuilder("aあ𠮷", d.Grammar).Build()
		t := model.NewText(&w.Chars, "aあ𠮷")
		for i := range t.Runes {
			nodes, err := gosudachi.GetOOV(p, in, t.At[i], false)
			if err != nil {
				return err
			}
			if err := same(&w2, nodes, model.SimpleOov(&w2, t, i, false), d.Grammar.GetPartOfSpeechString); err != nil {
				return fmt.Errorf("simple provider: %v", err)
			}
		}
		st.Class("accepted")
	} else {
		st.Class("refused")
		st.NonTrivial()
	}
	// files that are not there
	cd, ud := f.CharDef, f.UnkDef
	if c.MissChar {
		cd = filepath.Join(dir, "missing.def")
	}
	if c.MissUnk {
		ud = filepath.Join(dir, "missing.def")
	}
	m := gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud})
	if err := m.SetUp(d.Grammar); (err != nil) != (c.MissChar || c.MissUnk) {
		return fmt.Errorf("definition files missing %v %v: error %v", c.MissChar, c.MissUnk, err)
	}
	return nil
}

// --- the definitions that come with the library

type embT struct {
	Rows  []int
	Texts []pbt.Str
}

func asset(name string) string {
	fd, err := data.Assets.Open(name)
	pbt.Must(err)
	defer fd.Close()
	var b strings.Builder
	buf := make([]byte, 4096)
	for {
		n, err := fd.Read(buf)
		b.Write(buf[:n])
		if err != nil {
			break
		}
	}
	return b.String()
}

// checkEmbedded compares the provider without files with one given the same
// files by name.
func checkEmbedded(c embT, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	unk := asset("unk.def")
	w := &world.World{Matrix: world.Matrix{L: 1, R: 1}}
	seen := map[string]bool{}
	for _, l := range lines(unk) {
		f := strings.Split(l, ",")
		k := strings.Join(f[4:10], ",")
		if !seen[k] {
			seen[k] = true
			w.POS = append(w.POS, world.Pos6{pbt.Str(f[4]), pbt.Str(f[5]), pbt.Str(f[6]), pbt.Str(f[7]), pbt.Str(f[8]), pbt.Str(f[9])})
			w.Sys.Rows = append(w.Sys.Rows, world.Row{Head: pbt.Str("w" + strconv.Itoa(len(w.POS))), Surface: "w", DicForm: -1, Unit: "A", Pos: len(w.POS) - 1})
		}
	}
	sys := filepath.Join(dir, "s.dic")
	if err := world.BuildSystem(sys, "", 0, w.Matrix.Source(), w.Sources(&w.Sys, false), false); err != nil {
		return pbt.Skip("%v", err)
	}
	cdf := world.Write(filepath.Join(dir, "c.def"), asset("char.def"))
	udf := world.Write(filepath.Join(dir, "u.def"), unk)
	d, err := grammar(w, &world.Files{Sys: sys, CharDef: cdf})
	if err != nil {
		return err
	}
	defer d.Close()
	with := gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cdf, UnkDef: &udf})
	without := gosudachi.NewMeCabOovProviderPlugin(nil)
	for _, p := range []*gosudachi.MeCabOovProviderPlugin{with, without} {
		if err := p.SetUp(d.Grammar); err != nil {
			return fmt.Errorf("the definitions that come with the library: %v", err)
		}
	}
	for _, s := range c.Texts {
		in := gosudachi.NewInputTextBuilder(string(s), d.Grammar).Build()
		for i := 0; i < len(in.GetByteText()); i++ {
			if !in.IsCharAlignment(i) {
				continue
			}
			for _, other := range []bool{false, true} {
				a, err1 := gosudachi.GetOOV(with, in, i, other)
				b, err2 := gosudachi.GetOOV(without, in, i, other)
				if err1 != nil || err2 != nil || len(a) != len(b) {
					return fmt.Errorf("at %d of %q: %d candidates from the files, %d without (%v, %v)", i, string(s), len(a), len(b), err1, err2)
				}
				for k := range a {
					x, _ := show(a[k], d.Grammar.GetPartOfSpeechString)
					y, _ := show(b[k], d.Grammar.GetPartOfSpeechString)
					if x != y {
						return fmt.Errorf("at %d of %q: %s from the files, %s without", i, string(s), x, y)
					}
				}
				if len(a) > 1 {
					st.NonTrivial()
				}
			}
		}
	}
	return nil
}

func main() {
	pbt.Main("C12",
		pbt.S("providers", 12000, 500000, "at least two candidates at some position", gen, checkDirect),
		pbt.S("lattice", 10000, 400000, "unknown-word candidates beside dictionary words", gen, checkLattice),
		pbt.S("long", 60, 1500, "a run of more than 32767 bytes", genLong, checkLong),
		pbt.S("malformed", 8000, 300000, "definitions with a mistake", genBad, checkBad),
		pbt.S("settings", 2000, 60000, "settings with a mistake", genSimple, checkSimple),
		pbt.S("embedded", 60, 2000, "at least two candidates at some position", func(t *rapid.T) embT {
			w, alpha := world.Draw(t, world.Opt{MaxRows: 4, NoSplits: true})
			var c embT
			for i := 0; i < 20; i++ {
				c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 7)))
			}
			return c
		}, checkEmbedded),
	)
}
