// C22: connection inhibition changes exactly the listed pairs.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W    *world.World
	Via  int      // 0: one plugin, 1: two plugins, 2: settings, 3: a second plugin without pairs
	Sets [][3]int // costs set in memory
	// items of the list that are no pairs: -1: null, else the length
	Junk  []int   `json:",omitempty"`
	Bad   *[2]int `json:",omitempty"` // a pair outside the matrix
	Texts []pbt.Str
}

// The sizes of matrices.
const (
	small = iota
	large
	huge
)

func gen(size int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: 1, Auto: true, Inhibit: true, NoFail: true})
		c := caseT{W: w, Via: rapid.IntRange(0, 3).Draw(t, "via")}
		if size > small {
			maxL, maxR := 80, 80
			if size == huge {
				m := world.Pick(t, "max", [][2]int{{700, 700}, {260, 260}, {32767, 8}, {8, 32767}, {3000, 150}})
				maxL, maxR = m[0], m[1]
			}
			minL, minR := w.Matrix.L, w.Matrix.R
			w.Matrix.L = rapid.IntRange(w.Matrix.L, maxL).Draw(t, "L")
			w.Matrix.R = rapid.IntRange(w.Matrix.R, maxR).Draw(t, "R")
			if size == huge && world.Chance(t, "very wide", 40) {
				l, r := world.DrawWideSize(t)
				w.Matrix.L, w.Matrix.R = max(l, minL), max(r, minR)
			}
			for i := rapid.IntRange(0, 60).Draw(t, "nlines"); i > 0; i-- {
				w.Matrix.Lines = append(w.Matrix.Lines, [3]int{rapid.IntRange(0, w.Matrix.L-1).Draw(t, "l"), rapid.IntRange(0, w.Matrix.R-1).Draw(t, "r"), rapid.IntRange(-32768, 32767).Draw(t, "c")})
			}
		}
		w.Inhibit = nil
		pair := func() [2]int {
			if world.Chance(t, "used", 50) { // ids that words have
				var left, right []int
				for _, r := range w.Sys.Rows {
					left, right = append(left, r.Left), append(right, r.Right)
				}
				return [2]int{world.Pick(t, "right", append(right, 0)), world.Pick(t, "left", append(left, 0))}
			}
			return [2]int{rapid.IntRange(0, w.Matrix.L-1).Draw(t, "il"), rapid.IntRange(0, w.Matrix.R-1).Draw(t, "ir")}
		}
		for i := rapid.IntRange(0, 4).Draw(t, "npairs"); i > 0; i-- {
			w.Inhibit = append(w.Inhibit, pair())
		}
		if world.Chance(t, "many pairs", 3) {
			for i := rapid.IntRange(20, 300).Draw(t, "nmany"); i > 0; i-- {
				w.Inhibit = append(w.Inhibit, pair())
			}
		}
		if world.Chance(t, "junk", 15) {
			c.Junk = rapid.SliceOfN(rapid.IntRange(-1, 1), 1, 3).Draw(t, "junk items")
		}
		if size < huge && world.Chance(t, "bad", 15) {
			p := pair()
			at := rapid.IntRange(0, 1).Draw(t, "side")
			n := []int{w.Matrix.L, w.Matrix.R}[at]
			p[at] = world.Pick(t, "outside", []int{-1, n, n + 1, -n, 32767, 32768, -32768, 65535, 65536, 65536 + p[at], 1 << 32, p[at] - 1<<32})
			c.Bad = &p
		}
		for i := rapid.IntRange(0, 4).Draw(t, "nsets"); i > 0; i-- {
			p := pair()
			c.Sets = append(c.Sets, [3]int{p[0], p[1], world.Pick(t, "cost", []int{0, 1, -1, 255, 256, -256, 32767, -32768, 12345})})
		}
		for i := rapid.IntRange(1, 4).Draw(t, "ntexts"); i > 0; i-- {
			c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 7)))
		}
		return c
	}
}

// spy keeps the grammar.
type spy struct{ g *dictionary.Grammar }

func (s *spy) GetConfigStruct() interface{}      { return s }
func (s *spy) SetUp(g *dictionary.Grammar) error { s.g = g; return nil }
func (s *spy) Rewrite(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error {
	return nil
}

func plugins(c *caseT) ([]gosudachi.EditConnectionCostPlugin, error) {
	var ps []*[]int
	junk := func() {
		for _, n := range c.Junk {
			if n < 0 {
				ps = append(ps, nil)
			} else {
				x := make([]int, n)
				ps = append(ps, &x)
			}
		}
	}
	for i, p := range c.W.Inhibit {
		if i == len(c.W.Inhibit)/2 {
			junk()
		}
		ps = append(ps, &[]int{p[0], p[1]})
	}
	if len(c.W.Inhibit) == 0 {
		junk()
	}
	if c.Bad != nil {
		ps = append(ps, &[]int{c.Bad[0], c.Bad[1]})
	}
	switch c.Via {
	case 0:
		return []gosudachi.EditConnectionCostPlugin{gosudachi.NewInhibitConnectionPlugin(ps)}, nil
	case 1:
		k := len(ps) / 2
		return []gosudachi.EditConnectionCostPlugin{gosudachi.NewInhibitConnectionPlugin(ps[:k]), gosudachi.NewInhibitConnectionPlugin(ps[k:])}, nil
	case 3:
		return []gosudachi.EditConnectionCostPlugin{gosudachi.NewInhibitConnectionPlugin(ps), gosudachi.NewInhibitConnectionPlugin(nil)}, nil
	}
	pairs := ps
	if pairs == nil {
		pairs = []*[]int{}
	}
	doc, err := json.Marshal(map[string]any{"editConnectionCostPlugin": []any{
		map[string]any{"class": "com.worksap.nlp.sudachi.InhibitConnectionPlugin", "inhibitedPair": pairs}}})
	pbt.Must(err)
	s := gosudachi.NewSettingsJSON()
	if err := s.ParseSettingsJSON("", bytes.NewReader(doc)); err != nil {
		return nil, fmt.Errorf("%s: %v", doc, err)
	}
	p, err := s.GetEditConnectionCostPluginArray(gosudachi.DefMakeEditConnectionCostPlugin)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", doc, err)
	}
	return p, nil
}

// table compares every connection with the expected table.
func table(what string, g *dictionary.Grammar, m *world.Matrix, want []int) error {
	for l := 0; l < m.L; l++ {
		for r := 0; r < m.R; r++ {
			if got := int(g.GetConnectCost(int16(l), int16(r))); got != want[l+m.L*r] {
				return fmt.Errorf("%s: connection (%d, %d) of a %dx%d matrix costs %d, want %d", what, l, r, m.L, m.R, got, want[l+m.L*r])
			}
		}
	}
	return nil
}

func analyse(t *gosudachi.JapaneseTokenizer, mode, text string) string {
	ms, err := t.Tokenize(mode, text)
	if err != nil {
		return "error"
	}
	var b strings.Builder
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		fmt.Fprintf(&b, "%d-%d %d %#x %v %v; ", m.Begin(), m.End(), m.GetDictionaryId(), m.GetWordId(), m.IsOOV(), m.PartOfSpeech())
	}
	return b.String()
}

func check(c caseT, st *pbt.Stats) error {
	w := c.W
	m := &w.Matrix
	plain := *w
	plain.Inhibit = nil
	// the same with the pairs prohibited in the matrix itself
	baked := plain
	baked.Matrix.Lines = append([][3]int(nil), m.Lines...)
	changed := 0
	for _, p := range w.Inhibit {
		if baked.Matrix.Cost(p[0], p[1]) != 32767 {
			changed++
		}
		baked.Matrix.Lines = append(baked.Matrix.Lines, [3]int{p[0], p[1], 32767})
	}
	eb, err := baked.Setup(world.OpenOpt{})
	if err != nil {
		return err
	}
	defer eb.Close()
	var before spy
	e, err := plain.Setup(world.OpenOpt{PathFirst: []gosudachi.PathRewritePlugin{&before}})
	if err != nil {
		return err
	}
	defer e.Close()
	file, err := os.ReadFile(e.Files.Sys)
	pbt.Must(err)

	edit, err := plugins(&c)
	if err != nil {
		return err
	}
	var edited, after spy
	open := func(s *spy, edit []gosudachi.EditConnectionCostPlugin) (*gosudachi.JapaneseDictionary, error) {
		d, err := gosudachi.NewJapaneseDictionary(w.Config(e.Files), w.InputPlugins(e.Files), w.OovPlugins(e.Files), append([]gosudachi.PathRewritePlugin{s}, w.PathPlugins()...), edit)
		if err != nil {
			return nil, fmt.Errorf("the dictionary opens without the plugin, with it %v: %v", w.Inhibit, err)
		}
		return d, nil
	}
	de, err := open(&edited, edit)
	if c.Bad != nil {
		if err == nil {
			de.Close()
			return fmt.Errorf("the pair %v outside a %dx%d matrix is accepted", *c.Bad, m.L, m.R)
		}
		st.Class("pair outside the matrix")
		st.NonTrivial()
		return nil
	}
	if err != nil {
		return err
	}
	defer de.Close()
	da, err := open(&after, nil)
	if err != nil {
		return err
	}
	defer da.Close()
	orig, inhibited := m.Table(), baked.Matrix.Table()
	all := func(when string, withSets []int) error {
		return errors.Join(
			table(when+", dictionary with the plugin", edited.g, m, inhibited),
			table(when+", dictionary opened before", before.g, m, withSets),
			table(when+", dictionary opened after", after.g, m, orig))
	}
	if err := all("after opening", orig); err != nil {
		return err
	}
	differ := false
	te, ta := de.Create(), da.Create()
	for _, s := range c.Texts {
		for _, mode := range []string{"C", "A", "B"} {
			want, got := analyse(eb.Tok, mode, string(s)), analyse(te, mode, string(s))
			if got != want {
				return fmt.Errorf("%q in mode %s, pairs %v: %s\nwith the same pairs prohibited in the matrix: %s", string(s), mode, w.Inhibit, got, want)
			}
			x, y := analyse(e.Tok, mode, string(s)), analyse(ta, mode, string(s))
			if x != y {
				return fmt.Errorf("%q in mode %s: the dictionary opened before gives %s, the one opened after %s", string(s), mode, x, y)
			}
			differ = differ || x != got
		}
	}
	sets := append([]int(nil), orig...)
	for _, x := range c.Sets {
		before.g.SetConnectCost(int16(x[0]), int16(x[1]), int16(x[2]))
		sets[x[0]+m.L*x[1]] = x[2]
		if err := table(fmt.Sprintf("after setting %v", x), before.g, m, sets); err != nil {
			return err
		}
	}
	if err := all("after setting costs in memory", sets); err != nil {
		return err
	}
	now, err := os.ReadFile(e.Files.Sys)
	pbt.Must(err)
	if !bytes.Equal(file, now) {
		return fmt.Errorf("the dictionary file has changed")
	}
	if changed > 0 && m.L*m.R > 1 {
		st.NonTrivial()
	}
	st.ClassIf(len(c.Junk) > 0, "list with items that are no pairs")
	st.ClassIf(differ, "an analysis changes")
	st.ClassIf(c.Via == 2 && changed > 0, "through settings")
	st.ClassIf(m.L*m.R > 32767, "more than 32767 connections")
	for _, p := range w.Inhibit {
		st.ClassIf(p[0] == 0 || p[1] == 0, "sentence boundary")
	}
	st.ClassIf(len(c.Sets) > 1, "costs set in memory")
	st.ClassIf(len(w.Users) > 0, "user dictionary")
	return nil
}

type costT struct {
	W     *world.World
	Costs []int
	Again []int
	Fail  int // the call that fails, or -1
}

func genCost(t *rapid.T) costT {
	w, _ := world.Draw(t, world.Opt{MaxRows: 4, MaxUsers: 2, Auto: true})
	c := costT{W: w, Fail: -1}
	cost := rapid.Custom(func(t *rapid.T) int {
		return world.Pick(t, "cost", []int{0, 1, -1, 255, 256, -256, 32767, -32768, 12345, -20})
	})
	c.Costs = rapid.SliceOfN(cost, 1, 5).Draw(t, "costs")
	c.Again = rapid.SliceOfN(cost, 1, 5).Draw(t, "again")
	if world.Chance(t, "fail", 20) {
		c.Fail = rapid.IntRange(0, 4).Draw(t, "which")
	}
	return c
}

// checkCost sets automatic word costs in memory.
func checkCost(c costT, st *pbt.Stats) error {
	w := c.W
	if len(w.Users) == 0 {
		return nil
	}
	dir, rm := world.Dir()
	defer rm()
	var f *world.Files
	var err error
	if pe := pbt.Catch(func() { f, err = w.Materialise(dir) }); pe != nil {
		err = pe
	}
	if err != nil {
		return pbt.Skip("the dictionaries cannot be built")
	}
	u := &w.Users[0]
	file, err := os.ReadFile(f.Users[0])
	pbt.Must(err)
	var ds [2]*dictionary.BinaryDictionary
	for i := range ds {
		d, err := dictionary.ReadUserDictionary(f.Users[0], w.Utf16)
		if err != nil {
			return pbt.Skip("the dictionary cannot be read")
		}
		defer d.Close()
		ds[i] = d
	}
	want := make([]int, len(u.Rows))
	for i, r := range u.Rows {
		want[i] = r.Cost
	}
	params := func(what string, d *dictionary.BinaryDictionary, costs []int) error {
		for i, r := range u.Rows {
			left := r.Left
			if r.NoIndex {
				left = -1
			}
			x := d.Lexicon
			if int(x.GetLeftId(int32(i))) != left || int(x.GetRightId(int32(i))) != r.Right || int(x.GetCost(int32(i))) != costs[i] {
				return fmt.Errorf("%s: word %d has parameters %d, %d, %d, want %d, %d, %d", what, i, x.GetLeftId(int32(i)), x.GetRightId(int32(i)), x.GetCost(int32(i)), left, r.Right, costs[i])
			}
		}
		return nil
	}
	orig := append([]int(nil), want...)
	autos := 0
	for round, costs := range [][]int{c.Costs, c.Again} {
		n := 0
		failed := false
		err := ds[0].Lexicon.CalculateCost(func(text string) (int16, error) {
			if round == 0 && n == c.Fail {
				failed = true
				return 77, errors.New("no cost")
			}
			n++
			return int16(costs[(n-1)%len(costs)]), nil
		})
		if failed != (err != nil) {
			return fmt.Errorf("calculating costs: error %v", err)
		}
		k := 0
		for i := range want {
			if want[i] != -32768 {
				continue
			}
			if k >= n {
				// after a failure the others may have been set or not
				if failed && int(ds[0].Lexicon.GetCost(int32(i))) == costs[k%len(costs)] {
					want[i] = costs[k%len(costs)]
				}
				break
			}
			if failed && ds[0].Lexicon.GetCost(int32(i)) == -32768 {
				k++
				continue
			}
			want[i] = costs[k%len(costs)]
			k++
		}
		autos += k
		if err := params(fmt.Sprintf("round %d", round), ds[0], want); err != nil {
			return err
		}
		if err := params(fmt.Sprintf("round %d, opened twice", round), ds[1], orig); err != nil {
			return err
		}
		st.ClassIf(failed, "calculation fails")
	}
	now, err := os.ReadFile(f.Users[0])
	pbt.Must(err)
	if !bytes.Equal(file, now) {
		return fmt.Errorf("the dictionary file has changed")
	}
	if autos > 0 && len(u.Rows) > 1 {
		st.NonTrivial()
	}
	st.ClassIf(autos > 1, "two automatic costs or more")
	return nil
}

// bigT is a user dictionary of many words, some without costs.
type bigT struct {
	N     int
	Auto  []int
	Costs []int
	Again []int
}

func genBig(t *rapid.T) bigT {
	c := bigT{N: world.Pick(t, "n", []int{300, 10923, 22000, 43700, 65535, 65537, 70000, 131080})}
	for k := rapid.IntRange(1, 6).Draw(t, "autos"); k > 0; k-- {
		i := rapid.IntRange(0, c.N-1).Draw(t, "auto")
		if world.Chance(t, "near the end", 40) {
			i = c.N - 1 - i%50
		}
		c.Auto = append(c.Auto, i)
	}
	cost := rapid.IntRange(-32768, 32767)
	c.Costs = rapid.SliceOfN(cost, 1, 5).Draw(t, "costs")
	c.Again = rapid.SliceOfN(cost, 1, 5).Draw(t, "again")
	return c
}

func checkBig(c bigT, st *pbt.Stats) error {
	w := &world.World{POS: []world.Pos6{{"P", "*", "*", "*", "*", "*"}}, Matrix: world.Matrix{L: 100, R: 100}, Oov: []string{"simple"}}
	row := func(h pbt.Str, k int) world.Row {
		return world.Row{Head: h, Surface: h, Reading: h, Norm: h, Left: k % 100, Right: k / 100 % 100, Cost: k%60000 - 30000, DicForm: -1, Unit: "A"}
	}
	w.Sys = world.Dict{Newline: "\n", Rows: []world.Row{row("a", 0)}}
	u := world.Dict{Newline: "\n"}
	for k := 0; k < c.N; k++ {
		u.Rows = append(u.Rows, row(pbt.Str(fmt.Sprintf("%c%c%c%c", 'a'+k%26, 'a'+k/26%26, 'a'+k/676%26, 'a'+k/17576)), k*7))
	}
	for _, k := range c.Auto {
		u.Rows[k].Cost = -32768
	}
	w.Users = []world.Dict{u}
	st.ClassIf(c.N > 65536, "over 65536 words")
	return checkCost(costT{W: w, Costs: c.Costs, Again: c.Again, Fail: -1}, st)
}

func main() {
	pbt.Main("C22",
		pbt.S("wordcost of many", 24, 500, "an automatic cost is set among several words", genBig, checkBig),
		pbt.S("small", 10000, 200000, "a connection that is allowed becomes prohibited", gen(small), check),
		pbt.S("large", 3000, 60000, "a connection that is allowed becomes prohibited", gen(large), check),
		pbt.S("huge", 300, 10000, "a connection that is allowed becomes prohibited", gen(huge), check),
		pbt.S("wordcost", 10000, 200000, "an automatic cost is set among several words", genCost, checkCost),
	)
}
