// C08: automatic user-word costs follow the cost of the existing analysis.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W    *world.World
	Late bool // the user dictionaries are loaded after opening
	Long []long
}

// long replaces the surface of a user row.
type long struct {
	User, Row, Count int
	Unit             pbt.Str
}

func gen(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: 4, Input: true, Path: true, Inhibit: true, Auto: true, NoFail: world.Chance(t, "nofail", 60), NoSplits: rapid.Bool().Draw(t, "nosplits")})
	c := caseT{W: w, Late: rapid.Bool().Draw(t, "late")}
	for i := range w.Users {
		// references by description need the surfaces they were drawn with
		desc := false
		for _, r := range w.Users[i].Rows {
			for _, q := range append(append(append([]world.Ref(nil), r.A...), r.B...), r.W...) {
				desc = desc || q.Kind == "desc"
			}
		}
		if !desc && world.Chance(t, "long", 8) {
			c.Long = append(c.Long, long{i, rapid.IntRange(0, len(w.Users[i].Rows)-1).Draw(t, "row"), world.Pick(t, "count", []int{0, 3, 200, 1700, 2500}), pbt.Str(string(world.Pick(t, "unit", alpha)))})
		}
	}
	return c
}

// trigger is an input plugin that replaces the text by a given one when set.
type trigger struct{ text string }

func (p *trigger) GetConfigStruct() interface{} { return p }
func (p *trigger) SetUp() error                 { return nil }
func (p *trigger) Rewrite(b *gosudachi.InputTextBuilder) error {
	if p.text != "" {
		b.Replace(0, len(b.GetText()), []rune(p.text))
	}
	return nil
}

func clamp(n int) int {
	if n > 32767 {
		return 32767
	}
	if n < -32768 {
		return -32768
	}
	return n
}

// session is an opened dictionary with what is needed to look inside.
type session struct {
	jd    *gosudachi.JapaneseDictionary
	tok   *gosudachi.JapaneseTokenizer
	trig  *trigger
	path  []*gosudachi.LatticeNode
	whole []*gosudachi.LatticeNode // candidates covering the whole text
	text  string
}

func open(w *world.World, f *world.Files, users []string, late, noPath bool) (*session, error) {
	s := &session{trig: &trigger{}}
	cap := &world.Capture{Fn: func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
		s.text = in.GetText()
		s.path, s.whole = append([]*gosudachi.LatticeNode{}, *path...), append([]*gosudachi.LatticeNode{}, lattice.GetNodes(0, len(s.text))...)
		return nil
	}}
	g := *f
	if !late {
		g.Users = users
	} else {
		g.Users = nil
	}
	jd, err := w.Open(&g, world.OpenOpt{InputLast: []gosudachi.InputTextPlugin{s.trig}, PathFirst: []gosudachi.PathRewritePlugin{cap}, NoPath: noPath})
	if err != nil {
		return nil, err
	}
	if late {
		for _, u := range users {
			if err := jd.ReadUserDictionary(u, w.Utf16); err != nil {
				jd.Close()
				return nil, err
			}
		}
	}
	s.jd, s.tok = jd, jd.Create()
	return s, nil
}

var errNone = errors.New("no analysis")

// analyse gives the cost an automatic word with this surface must get.
func (s *session) analyse(surface string) (int, error) {
	s.path = nil
	ms, err := s.tok.Tokenize("C", surface)
	if err != nil {
		return 0, errNone
	}
	if ms.Length() == 0 {
		return 0, nil
	}
	return clamp(s.path[len(s.path)-1].GetPathCost() - s.path[0].GetPathCost() - 20*len(s.path)), nil
}

func check(c caseT, st *pbt.Stats) error {
	w := c.W
	for _, l := range c.Long {
		w.Users[l.User].Rows[l.Row].Surface = pbt.Str(strings.Repeat(string(l.Unit), l.Count))
		w.Users[l.User].Rows[l.Row].Cost = -32768
	}
	dir, rm := world.Dir()
	defer rm()
	f, err := w.Materialise(dir)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	before := map[string][]byte{}
	for _, p := range append([]string{f.Sys}, f.Users...) {
		b, err := os.ReadFile(p)
		pbt.Must(err)
		before[p] = b
	}
	auto := 0
	// costs as they must be, one dictionary after the other
	want := make([][]int, len(w.Users))
	failAt := -1
	for n := range w.Users {
		s, err := open(w, f, f.Users[:n], false, true)
		if err != nil {
			return fmt.Errorf("opening with the first %d user dictionaries: %v", n, err)
		}
		for i := range w.Users[n].Rows {
			r := &w.Users[n].Rows[i]
			x := r.Cost
			if x == -32768 {
				auto++
				x, err = s.analyse(string(r.Surface))
				if err != nil {
					failAt = n
					break
				}
				st.ClassIf(x == 0 && r.Surface == "", "empty surface")
				st.ClassIf(x == 32767 || x == -32768, "limited to 16 bits")
				st.ClassIf(len(s.path) > 1, "several morphemes")
				st.ClassIf(n > 0, "automatic cost in a later dictionary")
				for _, p := range s.path {
					st.ClassIf(!p.IsOOV() && p.GetDictionaryId() > 0, "analysis uses an earlier user word")
				}
			} else {
				st.Class("given cost")
			}
			want[n] = append(want[n], x)
		}
		s.jd.Close()
		if failAt >= 0 {
			break
		}
	}
	if auto > 0 {
		st.NonTrivial()
	}
	s, err := open(w, f, f.Users, c.Late, false)
	if failAt >= 0 {
		st.Class("surface without analysis")
		if err == nil {
			s.jd.Close()
			return fmt.Errorf("user dictionary %d is loaded although a surface with automatic cost cannot be analysed", failAt)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("loading the user dictionaries: %v", err)
	}
	defer s.jd.Close()
	for n := range w.Users {
		for i := range w.Users[n].Rows {
			r := &w.Users[n].Rows[i]
			if r.NoIndex {
				continue
			}
			s.trig.text, s.text = string(r.Head), ""
			if _, err := s.tok.Tokenize("C", "x"); err != nil || s.text != string(r.Head) {
				st.Class("cost not observable")
				continue
			}
			found := false
			for _, node := range s.whole {
				if id := uint32(node.GetWordId()); !node.IsOOV() && int(id>>28) == n+1 && int(id&0xfffffff) == i {
					found = true
					if node.GetPathCost() != want[n][i] {
						return fmt.Errorf("user dictionary %d row %d (%q, cost %d): loaded with cost %d, want %d", n, i, string(r.Head), r.Cost, node.GetPathCost(), want[n][i])
					}
					st.Class("cost observed")
				}
			}
			if !found {
				return fmt.Errorf("user dictionary %d row %d (%q) is no candidate for its headword", n, i, string(r.Head))
			}
		}
	}
	for p, b := range before {
		now, err := os.ReadFile(p)
		if err != nil || string(now) != string(b) {
			return fmt.Errorf("loading changes the file %s", filepath.Base(p))
		}
	}
	return nil
}

// --- the calculation alone

type calc struct {
	W    *world.World
	User int
	Cost []int
	Fail int
}

func checkCalc(c calc, st *pbt.Stats) error {
	w := c.W
	if len(w.Users) == 0 {
		return nil
	}
	dir, rm := world.Dir()
	defer rm()
	f, err := w.Materialise(dir)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	n := c.User % len(w.Users)
	d, err := dictionary.ReadUserDictionary(f.Users[n], w.Utf16)
	if err != nil {
		return err
	}
	defer d.Close()
	rows := w.Users[n].Rows
	var asked, wantAsked []string
	for i := range rows {
		if rows[i].Cost == -32768 {
			wantAsked = append(wantAsked, string(rows[i].Surface))
		}
	}
	failing := c.Fail < len(wantAsked)
	st.ClassIf(failing, "a surface without analysis")
	if len(wantAsked) > 0 {
		st.NonTrivial()
	}
	err = d.Lexicon.CalculateCost(func(s string) (int16, error) {
		asked = append(asked, s)
		if len(asked)-1 == c.Fail {
			return -32768, errNone
		}
		return int16(c.Cost[len(asked)%len(c.Cost)]), nil
	})
	if (err != nil) != failing {
		return fmt.Errorf("calculating reports %v; a surface without analysis: %v", err, failing)
	}
	if failing {
		wantAsked = wantAsked[:c.Fail+1]
	}
	if strings.Join(asked, "\n") != strings.Join(wantAsked, "\n") {
		return fmt.Errorf("the surfaces analysed are %q, want %q", asked, wantAsked)
	}
	if failing {
		return nil
	}
	k := 0
	for i := range rows {
		x := rows[i].Cost
		if x == -32768 {
			k++
			x = c.Cost[k%len(c.Cost)]
		}
		if g := int(d.Lexicon.GetCost(int32(i))); g != x {
			return fmt.Errorf("row %d has cost %d, want %d", i, g, x)
		}
		l := rows[i].Left
		if rows[i].NoIndex {
			l = -1
		}
		if int(d.Lexicon.GetLeftId(int32(i))) != l || int(d.Lexicon.GetRightId(int32(i))) != rows[i].Right {
			return fmt.Errorf("row %d has changed connection ids", i)
		}
	}
	return nil
}

// --- many rows

// crowd describes a user dictionary of many rows by a few numbers.
type crowd struct {
	N, Every, Shift int
	Costs           []int // of the system words
}

func genCrowd(min, max int) func(t *rapid.T) crowd {
	return func(t *rapid.T) crowd {
		return crowd{rapid.IntRange(min, max).Draw(t, "n"), rapid.IntRange(1, 3).Draw(t, "every"), rapid.IntRange(0, 50).Draw(t, "shift"),
			rapid.SliceOfN(rapid.IntRange(-300, 900), 8, 8).Draw(t, "costs")}
	}
}

// row is headword i, in base 8.
func (c crowd) row(i int) pbt.Str {
	s := ""
	for i++; i > 0; i /= 8 {
		s += string([]rune("あいうえおかきく")[i%8])
	}
	return pbt.Str(s)
}

func checkCrowd(c crowd, st *pbt.Stats) error {
	w := &world.World{POS: []world.Pos6{{"名詞", "普通名詞", "一般", "*", "*", "*"}}, Matrix: world.Matrix{L: 1, R: 1},
		Oov: []string{"simple"}, Simple: world.Simple{Cost: 1000}}
	for i, r := range "あいうえおかきく" {
		w.Sys.Rows = append(w.Sys.Rows, world.Row{Head: pbt.Str(r), Surface: pbt.Str(r), Cost: c.Costs[i/len("あ")], DicForm: -1, Unit: "A"})
	}
	var u world.Dict
	for i := 0; i < c.N; i++ {
		r := world.Row{Head: c.row(i), Surface: c.row((i + c.Shift) % c.N), Cost: i % 30000, DicForm: -1, Unit: "A"}
		if (i+c.Shift)%c.Every == 0 {
			r.Cost = -32768
		}
		u.Rows = append(u.Rows, r)
	}
	w.Users = []world.Dict{u}
	return check(caseT{W: w}, st)
}

func main() {
	pbt.Main("C08",
		pbt.S("load", 6000, 150000, "at least one automatic cost", gen, check),
		pbt.S("many", 6, 300, "at least one automatic cost", genCrowd(300, 3000), checkCrowd),
		pbt.S("huge", 1, 12, "at least one automatic cost", genCrowd(65600, 80000), checkCrowd),
		pbt.S("calculate", 4000, 100000, "at least one automatic cost", func(t *rapid.T) calc {
			w, _ := world.Draw(t, world.Opt{MaxRows: 6, MaxUsers: 2, Auto: true, Odd: true})
			c := calc{W: w, User: rapid.IntRange(0, 3).Draw(t, "user"), Fail: rapid.IntRange(0, 12).Draw(t, "fail")}
			for i := rapid.IntRange(1, 4).Draw(t, "ncost"); i > 0; i-- {
				c.Cost = append(c.Cost, rapid.IntRange(-32768, 32767).Draw(t, "cost"))
			}
			return c
		}, checkCalc),
	)
}
