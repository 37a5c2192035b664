// C11: the chosen segmentation has minimal total cost.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W     *world.World
	Texts []pbt.Str
	Times int    `json:",omitempty"` // every text so many times
	Base  int    `json:",omitempty"` // this much is added to the costs of the words
	Crowd *crowd `json:",omitempty"`
}

// crowd is a lot of words that end at the same place.
type crowd struct {
	Stem   pbt.Str // their headwords are its ends
	Heads  int
	Copies int // of each
	Users  int // in so many of the dictionaries
	Seed   uint64
}

// add adds the words to the dictionaries of a world.
func (c *crowd) add(w *world.World) {
	x := c.Seed*2654435761 + 1
	next := func(n int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int(x % uint64(n))
	}
	stem := []rune(string(c.Stem))
	fill := func(d *world.Dict) {
		for h := 0; h < c.Heads && h < len(stem); h++ {
			head := pbt.Str(string(stem[len(stem)-1-h:]))
			have := 0
			for i := range d.Rows {
				if d.Rows[i].Head == head && !d.Rows[i].NoIndex {
					have++
				}
			}
			for i := have; i < c.Copies; i++ {
				d.Rows = append(d.Rows, world.Row{Head: head, Surface: head, Reading: head, Norm: head, DicForm: -1, Unit: "A",
					Left: next(w.Matrix.R), Right: next(w.Matrix.L), Cost: 10*h + next(3000), Pos: next(len(w.POS))})
			}
		}
	}
	fill(&w.Sys)
	for i := 0; i < c.Users && i < len(w.Users); i++ {
		fill(&w.Users[i])
	}
}

func genCrowd(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 6, MaxUsers: 2, Inhibit: true, NoSplits: true, NoFail: true})
	c := caseT{W: w}
	var stem []rune
	for i := rapid.IntRange(2, 6).Draw(t, "stem"); i > 0; i-- {
		stem = append(stem, world.Pick(t, "r", alpha))
	}
	c.Crowd = &crowd{Stem: pbt.Str(string(stem)), Heads: rapid.IntRange(2, len(stem)).Draw(t, "heads"), Copies: world.Pick(t, "copies", []int{30, 64, 130, 250, 250, 255, 255}),
		Users: rapid.IntRange(0, 2).Draw(t, "users"), Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed")}
	for i := rapid.IntRange(1, 2).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 2)+string(stem)+world.DrawText(t, w, alpha, 2)))
	}
	return c
}

// genDear makes analyses whose total costs are far from zero.
func genDear(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 1, Inhibit: world.Chance(t, "inh", 20), NoSplits: true, NoFail: true})
	c := caseT{W: w, Times: rapid.IntRange(50, 900).Draw(t, "times"), Base: world.Pick(t, "base", []int{30000, 25000, -30000, -20000})}
	if rapid.Bool().Draw(t, "dear connections") {
		for i := range w.Matrix.Lines {
			if w.Matrix.Lines[i][2] != 32767 {
				w.Matrix.Lines[i][2] = c.Base + w.Matrix.Lines[i][2]%1000
			}
		}
	}
	c.Texts = []pbt.Str{pbt.Str(world.DrawText(t, w, alpha, 4))}
	return c
}

// genHuge draws a text of more than 65535 bytes, most of them of long words.
func genHuge(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 6, MaxUsers: 1, Inhibit: world.Chance(t, "inh", 20), NoSplits: true, NoFail: true})
	for i := range w.Chars.Props {
		w.Chars.Props[i].Invoke = false // few places have candidates
	}
	c := caseT{W: w}
	s := ""
	for k := rapid.IntRange(1, 2).Draw(t, "nwords"); k > 0; k-- {
		h := strings.Repeat(string(world.Pick(t, "a", alpha))+string(world.Pick(t, "b", alpha)), rapid.IntRange(150, 400).Draw(t, "parts"))
		for n := rapid.IntRange(1, 2).Draw(t, "copies"); n > 0; n-- {
			r := w.Sys.Rows[rapid.IntRange(0, len(w.Sys.Rows)-1).Draw(t, "like")]
			r.Head, r.Surface, r.Norm, r.Cost, r.NoIndex, r.DicForm = pbt.Str(h), pbt.Str(h), pbt.Str(h), -3000+n, false, -1
			r.Left, r.Right = max(r.Left, 0), max(r.Right, 0)
			w.Sys.Rows = append(w.Sys.Rows, r)
		}
		s += h
	}
	c.Texts = []pbt.Str{pbt.Str(s + world.Pick(t, "word", []string{"", string(w.Sys.Rows[0].Head)}))}
	c.Times = world.Pick(t, "size", []int{66000, 70000, 135000})/len(s) + 1
	return c
}

// prepare makes the world and the texts of a case.
func (c *caseT) prepare() (*world.World, []string) {
	w := *c.W
	costs := func(d *world.Dict) {
		d.Rows = append([]world.Row{}, d.Rows...)
		for i := range d.Rows {
			if r := &d.Rows[i]; c.Base != 0 && r.Cost != -32768 {
				r.Cost = c.Base + r.Cost%1000
			}
		}
	}
	w.Users = append([]world.Dict{}, w.Users...)
	costs(&w.Sys)
	for i := range w.Users {
		costs(&w.Users[i])
	}
	if c.Crowd != nil {
		c.Crowd.add(&w)
	}
	var texts []string
	for _, s := range c.Texts {
		x := string(s)
		if c.Times > 0 {
			x = strings.Repeat(x, c.Times)
		}
		texts = append(texts, x)
	}
	return &w, texts
}

func gen(users bool) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		o := world.Opt{MaxRows: 14, Input: world.Chance(t, "in", 30), Inhibit: true, NoSplits: true}
		if users {
			o.MaxUsers = 3
		}
		w, alpha := world.Draw(t, o)
		c := caseT{W: w}
		for i := rapid.IntRange(1, 4).Draw(t, "ntexts"); i > 0; i-- {
			c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 8)))
		}
		return c
	}
}

// seen is an input plugin of the harness that notes the rewritten text.
type seen struct{ text string }

func (p *seen) GetConfigStruct() interface{} { return p }
func (p *seen) SetUp() error                 { return nil }
func (p *seen) Rewrite(b *gosudachi.InputTextBuilder) error {
	p.text = string(b.GetText())
	return nil
}

// member gives the candidates a node can be.
func member(e *world.Env, l *model.Lattice, n *gosudachi.LatticeNode) []model.Cand {
	var out []model.Cand
	for _, c := range l.At[n.GetBegin()] {
		if c.End != n.GetEnd() || c.Cost != n.GetPathCost() || (c.Dict < 0) != n.IsOOV() {
			continue
		}
		if c.Dict < 0 {
			wi := n.GetWordInfo()
			if p := e.Dict.GetPartOfSpeechString(wi.PosId); len(p) != 6 || world.Pos6([6]pbt.Str{pbt.Str(p[0]), pbt.Str(p[1]), pbt.Str(p[2]), pbt.Str(p[3]), pbt.Str(p[4]), pbt.Str(p[5])}) != e.W.POS[c.Pos] {
				continue
			}
		} else if n.GetWordId() != c.Dict<<28|c.Row || n.GetDictionaryId() != c.Dict {
			continue
		}
		out = append(out, c)
	}
	return out
}

func describe(n *gosudachi.LatticeNode) string {
	return fmt.Sprintf("%d-%d %.40q(word %#x, cost %d)", n.GetBegin(), n.GetEnd(), n.GetWordInfo().Surface, n.GetWordId(), n.GetPathCost())
}

func check(c caseT, st *pbt.Stats) error {
	w, texts := c.prepare()
	in := &seen{}
	var path []*gosudachi.LatticeNode
	called := false
	cap := &world.Capture{Fn: func(text *gosudachi.InputText, p *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
		called = true
		if text.GetText() != in.text {
			return fmt.Errorf("the text analysed is %q, the rewritten text %q", text.GetText(), in.text)
		}
		path = append([]*gosudachi.LatticeNode{}, (*p)...)
		return nil
	}}
	e, err := w.Setup(world.OpenOpt{PathFirst: []gosudachi.PathRewritePlugin{cap}, InputLast: []gosudachi.InputTextPlugin{in}})
	if err != nil {
		return err
	}
	defer e.Close()
	for _, text := range texts {
		if text == "" {
			continue
		}
		called = false
		ms, err := e.Tok.Tokenize("C", text)
		l := model.NewLattice(w, in.text)
		best, ok := l.Best()
		if l.Stuck >= 0 || !ok {
			st.ClassIf(l.Stuck >= 0, "no candidate at a reached position")
			st.ClassIf(l.Stuck < 0, "no allowed segmentation")
			if err == nil {
				return fmt.Errorf("%q (rewritten %q) is analysed although there is no segmentation (no candidate at %d)", text, in.text, l.Stuck)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%q (rewritten %q) has a segmentation of cost %d; error %v", text, in.text, best, err)
		}
		if !called {
			return fmt.Errorf("%q: path rewriting is not called", text)
		}
		if ms.Length() != len(path) {
			return fmt.Errorf("%q: %d morphemes for a path of %d nodes", text, ms.Length(), len(path))
		}
		at := 0
		var cands [][]model.Cand
		total := 0
		var desc []string
		for _, n := range path {
			if n.GetBegin() != at {
				return fmt.Errorf("%q: a node begins at %d, the one before ends at %d", text, n.GetBegin(), at)
			}
			at = n.GetEnd()
			m := member(e, l, n)
			if len(m) == 0 {
				return fmt.Errorf("%q (rewritten %q): %s is no candidate; candidates there: %+v", text, in.text, describe(n), l.At[n.GetBegin()])
			}
			cands = append(cands, m)
			desc = append(desc, describe(n))
			st.ClassIf(n.IsOOV(), "unknown word in the path")
			st.ClassIf(n.GetDictionaryId() > 0, "user word in the path")
		}
		if at != len(in.text) {
			return fmt.Errorf("%q: the path ends at %d of %d", text, at, len(in.text))
		}
		total, ok = l.PathCost(cands)
		if !ok || total != best {
			return fmt.Errorf("%q (rewritten %q): the path %v costs %d (allowed: %v), the best segmentation %d", text, in.text, desc, total, ok, best)
		}
		n := 0
		for _, x := range l.At {
			n += len(x)
		}
		if n > len(path) && len(path) > 1 {
			st.NonTrivial()
		}
		st.ClassIf(len(in.text) > 65535, "text of more than 65535 bytes")
		st.ClassIf(best < 0, "negative total")
		st.ClassIf(best > 1<<24 || best < -1<<24, "total of more than 24 bits")
		if ends := map[int]int{}; c.Crowd != nil {
			for _, x := range l.At {
				for _, y := range x {
					ends[y.End]++
					st.ClassIf(ends[y.End] == 1025, "more than 1024 candidates end at one place")
				}
			}
		}
		forbidden := false
		for _, x := range w.Matrix.Lines {
			forbidden = forbidden || x[2] == 32767
		}
		st.ClassIf(forbidden || len(w.Inhibit) > 0, "prohibited connections")
	}
	return nil
}

func main() {
	const rule = "a text with more candidates than needed is analysed into at least two words"
	pbt.Main("C11",
		pbt.S("system", 15000, 800000, rule, gen(false), check),
		pbt.S("users", 10000, 500000, rule, gen(true), check),
		pbt.S("crowded", 250, 12000, rule, genCrowd, check),
		pbt.S("huge", 24, 1000, rule, genHuge, check),
		pbt.S("dear", 250, 12000, rule, genDear, check),
	)
}
