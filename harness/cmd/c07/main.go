// C07: user dictionaries extend the system dictionary without disturbing it.
package main

import (
	"fmt"
	"path/filepath"
	"slices"
	"strconv"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/dictcheck"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W    *world.World
	V1   []bool // user dictionaries in the first format
	Text pbt.Str
}

func gen(max int, rows int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: max, Odd: rows > 2})
		w.Oov = []string{"simple"}
		c := caseT{W: w}
		used := map[int]bool{}
		for i := range w.Sys.Rows {
			used[w.Sys.Rows[i].Pos] = true
		}
		for i := range w.Users {
			if rows < len(w.Users[i].Rows) {
				// the rest of the rows would only cost time; references stay valid
				keep := rows
				for _, r := range w.Users[i].Rows {
					for _, q := range append(append(append([]world.Ref(nil), r.A...), r.B...), r.W...) {
						if q.Own && q.Row >= keep {
							keep = q.Row + 1
						}
					}
					if r.DicForm >= keep {
						keep = r.DicForm + 1
					}
				}
				w.Users[i].Rows = w.Users[i].Rows[:keep]
			}
			v1 := world.Chance(t, "v1", 15)
			for _, r := range w.Users[i].Rows {
				v1 = v1 && used[r.Pos]
			}
			c.V1 = append(c.V1, v1)
		}
		c.Text = pbt.Str(world.DrawText(t, w, alpha, 5))
		return c
	}
}

func classes(c caseT, st *pbt.Stats) {
	w := c.W
	sys := map[int]bool{}
	for _, r := range w.Sys.Rows {
		sys[r.Pos] = true
	}
	for i, u := range w.Users {
		st.ClassIf(c.V1[i], "first format version")
		for _, r := range u.Rows {
			st.ClassIf(!sys[r.Pos], "part of speech new in a user dictionary")
			st.ClassIf(!sys[r.Pos] && i > 0, "part of speech new in a later user dictionary")
			st.ClassIf(sys[r.Pos], "user word with a part of speech of the system")
			for _, q := range append(append(append([]world.Ref(nil), r.A...), r.B...), r.W...) {
				st.ClassIf(q.Own, "reference to the same user dictionary")
				st.ClassIf(q.Own && i > 0, "reference inside a later user dictionary")
				st.ClassIf(!q.Own, "reference to the system dictionary")
			}
		}
	}
	st.ClassIf(len(w.Users) >= 2, "two or more user dictionaries")
	st.ClassIf(len(w.Users) >= 15, "fifteen user dictionaries")
	st.ClassIf(w.Utf16, "UTF-16")
	if len(w.Users) >= 2 {
		st.NonTrivial()
	}
}

func build(c caseT, dir string) (*world.Files, error) {
	w := c.W
	f := &world.Files{Dir: dir}
	f.CharDef = world.Write(filepath.Join(dir, "char.def"), w.Chars.Source())
	f.Sys = filepath.Join(dir, "system.dic")
	if err := world.BuildSystem(f.Sys, "", 0, w.Matrix.Source(), w.Sources(&w.Sys, false), w.Utf16); err != nil {
		return nil, fmt.Errorf("building the system dictionary: %v", err)
	}
	sys, err := dictionary.ReadSystemDictionary(f.Sys, w.Utf16)
	if err != nil {
		return nil, fmt.Errorf("reading the system dictionary: %v", err)
	}
	defer sys.Close()
	for i := range w.Users {
		p := filepath.Join(dir, "user"+strconv.Itoa(i)+".dic")
		u := &w.Users[i]
		if err := world.BuildUser(p, "", u.Time, sys, w.Sources(u, true), w.Utf16, c.V1[i]); err != nil {
			return nil, fmt.Errorf("building user dictionary %d: %v", i, err)
		}
		f.Users = append(f.Users, p)
	}
	return f, nil
}

// dict gives the dictionary of a number: 0 is the system.
func dict(w *world.World, n int) *world.Dict {
	if n == 0 {
		return &w.Sys
	}
	return &w.Users[n-1]
}

// set checks the set of lexicons as the library composes it.
func set(c caseT, f *world.Files) error {
	w := c.W
	sys, err := dictionary.ReadSystemDictionary(f.Sys, w.Utf16)
	if err != nil {
		return err
	}
	defer sys.Close()
	ls := dictionary.NewLexiconSet(sys.Lexicon)
	total := len(w.Sys.Rows)
	for i, p := range f.Users {
		u, err := dictionary.ReadUserDictionary(p, w.Utf16)
		if err != nil {
			return fmt.Errorf("reading user dictionary %d: %v", i, err)
		}
		defer u.Close()
		if ls.IsFull() {
			return fmt.Errorf("the set is full with %d user dictionaries", i)
		}
		ls.Add(u.Lexicon, int32(sys.Grammar.GetPartOfSpeechSize()))
		if u.Grammar != nil {
			sys.Grammar.AddPosList(u.Grammar)
		}
		total += len(w.Users[i].Rows)
	}
	if ls.IsFull() != (len(f.Users) >= 15) {
		return fmt.Errorf("the set reports full=%v with %d user dictionaries", ls.IsFull(), len(f.Users))
	}
	if int(ls.Size()) != total {
		return fmt.Errorf("the set has %d words, the sources %d", ls.Size(), total)
	}
	for round := 0; round < 2; round++ {
		for n := 0; n <= len(w.Users); n++ {
			d := dict(w, n)
			for i := range d.Rows {
				id := int32(uint32(n)<<28 | uint32(i))
				what := fmt.Sprintf("dictionary %d row %d", n, i)
				x := dictcheck.Expect(w, d, i, uint32(n))
				wi := ls.GetWordInfo(id)
				if err := dictcheck.Info(what, wi, sys.Grammar.GetPartOfSpeechString(wi.PosId), &x); err != nil {
					return err
				}
				if ls.GetLeftId(id) != x.Left || ls.GetRightId(id) != x.Right || ls.GetCost(id) != x.Cost || ls.GetDictionaryId(id) != n {
					return fmt.Errorf("%s: parameters %d,%d,%d dictionary %d, the source says %d,%d,%d", what, ls.GetLeftId(id), ls.GetRightId(id), ls.GetCost(id), ls.GetDictionaryId(id), x.Left, x.Right, x.Cost)
				}
			}
		}
	}
	text := string(c.Text)
	for off := 0; off < len(text); off++ {
		var want []dictcheck.Hit
		for n := 0; n <= len(w.Users); n++ {
			want = append(want, dictcheck.Found(dict(w, n), text, off, uint32(n))...)
		}
		got, err := dictcheck.Drain(ls.Lookup([]byte(text), off), len(want), off%3)
		sortHits(want)
		sortHits(got)
		if err != nil || !slices.Equal(got, want) {
			return fmt.Errorf("looking up %q at %d gives %v (%v), want %v", text, off, got, err, want)
		}
	}
	return nil
}

func sortHits(h []dictcheck.Hit) {
	slices.SortFunc(h, func(a, b dictcheck.Hit) int {
		if a.End != b.End {
			return a.End - b.End
		}
		if uint32(a.Id) < uint32(b.Id) {
			return -1
		}
		return 1
	})
}

// open checks the words as a tokenizer on the opened dictionary sees them.
func open(c caseT, f *world.Files, st *pbt.Stats) error {
	w := c.W
	var fail error
	var ran bool
	var jd *gosudachi.JapaneseDictionary
	cap := &world.Capture{Fn: func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
		ran = true
		text := in.GetText()
		var want, got []dictcheck.Hit
		for n := 0; n <= len(w.Users); n++ {
			want = append(want, dictcheck.Found(dict(w, n), text, 0, uint32(n))...)
		}
		for end := 1; end <= len(text); end++ {
			for _, node := range lattice.GetNodes(0, end) {
				if node.IsOOV() {
					continue
				}
				id := uint32(node.GetWordId())
				got = append(got, dictcheck.Hit{Id: int32(id), End: end})
				n, i := int(id>>28), int(id&0xfffffff)
				if n > len(w.Users) || i >= len(dict(w, n).Rows) {
					fail = fmt.Errorf("text %q: a candidate has id %#x, which is no word", text, id)
					return nil
				}
				what := fmt.Sprintf("text %q: candidate of dictionary %d row %d", text, n, i)
				x := dictcheck.Expect(w, dict(w, n), i, uint32(n))
				wi := node.GetWordInfo()
				if err := dictcheck.Info(what, wi, jd.GetPartOfSpeechString(wi.PosId), &x); err != nil {
					fail = err
					return nil
				}
				if node.GetPathCost() != int(x.Cost) || node.GetDictionaryId() != n {
					fail = fmt.Errorf("%s: cost %d dictionary %d, want %d %d", what, node.GetPathCost(), node.GetDictionaryId(), x.Cost, n)
					return nil
				}
			}
		}
		sortHits(want)
		sortHits(got)
		if !slices.Equal(got, want) {
			fail = fmt.Errorf("text %q: candidates at the start are %v, want %v", text, got, want)
		}
		return nil
	}}
	jd, err := w.Open(f, world.OpenOpt{PathFirst: []gosudachi.PathRewritePlugin{cap}, NoPath: true})
	if err != nil {
		return fmt.Errorf("opening the dictionary with %d user dictionaries: %v", len(f.Users), err)
	}
	defer jd.Close()
	tok := jd.Create()
	budget := 40
	for n := len(w.Users); n >= 0; n-- {
		d := dict(w, n)
		for i := range d.Rows {
			if d.Rows[i].NoIndex || budget == 0 || len(d.Rows[i].Head) > 300 {
				continue
			}
			budget--
			ran = false
			if _, err := tok.Tokenize("C", string(d.Rows[i].Head)); err != nil {
				return fmt.Errorf("tokenizing the word %q: %v", string(d.Rows[i].Head), err)
			}
			if !ran {
				pbt.Must(fmt.Errorf("the capturing plugin was not called"))
			}
			if fail != nil {
				return fail
			}
			st.Class("word tokenized")
		}
	}
	return nil
}

func check(c caseT, st *pbt.Stats) error {
	classes(c, st)
	dir, rm := world.Dir()
	defer rm()
	f, err := build(c, dir)
	if err != nil {
		return err
	}
	if err := set(c, f); err != nil {
		return err
	}
	return open(c, f, st)
}

// sixteen: one dictionary more than allowed, whatever they contain.
func checkSixteen(c caseT, st *pbt.Stats) error {
	if len(c.W.Users) == 0 {
		return nil
	}
	st.NonTrivial()
	dir, rm := world.Dir()
	defer rm()
	f, err := build(c, dir)
	if err != nil {
		return err
	}
	k := len(f.Users)
	for n := 15; n <= 18; n++ {
		f.Users = f.Users[:k]
		for len(f.Users) < n {
			f.Users = append(f.Users, f.Users[len(f.Users)%k])
		}
		f.Users = f.Users[:n]
		jd, err := c.W.Open(f, world.OpenOpt{NoPath: true})
		if n <= 15 {
			if err != nil {
				return fmt.Errorf("%d user dictionaries are refused: %v", n, err)
			}
			jd.Close()
		} else if err == nil {
			jd.Close()
			return fmt.Errorf("%d user dictionaries are accepted", n)
		}
	}
	return nil
}

// --- many words

func checkBulk(b world.Bulk, st *pbt.Stats) error {
	b.Classes(st)
	w := b.World()
	w.Chars.Ranges = nil
	w.Oov = []string{"simple"}
	text := ""
	for n := 0; n <= len(w.Users); n++ {
		rows := dict(w, n).Rows
		text += string(rows[len(rows)/2].Head + rows[len(rows)-1].Head)
	}
	return check(caseT{W: w, V1: make([]bool, len(w.Users)), Text: pbt.Str(text)}, st)
}

// --- many parts of speech

// posT has a part of speech for each word.
type posT struct {
	Sys   int
	Users []int
	Utf16 bool
}

func genPos(t *rapid.T) posT {
	c := posT{Sys: rapid.IntRange(1, 20).Draw(t, "sys"), Utf16: rapid.Bool().Draw(t, "utf16")}
	// ids have 16 bits, one for the sign
	total := world.Pick(t, "total", []int{300, 32767, 32768, 32769, 32770, 40000, 65535, 65540, 66000, 70000})
	left := total - c.Sys
	for k := rapid.IntRange(0, 2).Draw(t, "users"); k > 0 && left > 1; k-- {
		n := rapid.IntRange(1, min(left-1, 32768-c.Sys)).Draw(t, "n")
		c.Users = append(c.Users, n)
		left -= n
	}
	for left > 0 {
		n := min(left, 32768-c.Sys)
		c.Users = append(c.Users, n)
		left -= n
	}
	return c
}

func checkPos(c posT, st *pbt.Stats) error {
	w := &world.World{Utf16: c.Utf16, Matrix: world.Matrix{L: 1, R: 1}, Oov: []string{"simple"}}
	rows := func(n int) (d world.Dict) {
		d.Newline = "\n"
		for ; n > 0; n-- {
			k := len(w.POS)
			w.POS = append(w.POS, world.Pos6{"P", pbt.Str(strconv.Itoa(k)), "*", "*", "*", "*"})
			h := pbt.Str(fmt.Sprintf("%c%c%c", 'a'+k%26, 'a'+k/26%26, 'a'+k/676%26))
			d.Rows = append(d.Rows, world.Row{Head: h, Surface: h, Reading: h, Norm: h, Pos: k, DicForm: -1, Unit: "A"})
		}
		return d
	}
	w.Sys = rows(c.Sys)
	for _, n := range c.Users {
		w.Users = append(w.Users, rows(n))
	}
	d := w.Users[len(w.Users)-1].Rows
	st.NonTrivial()
	cs := caseT{W: w, V1: make([]bool, len(w.Users)), Text: d[len(d)-1].Head + d[0].Head}
	if len(w.POS) <= 32768 {
		st.Class("as many parts of speech as ids, or fewer")
		return check(cs, st)
	}
	st.Class("more parts of speech than ids")
	dir, rm := world.Dir()
	defer rm()
	f, err := build(cs, dir)
	if err != nil {
		return err
	}
	jd, err := w.Open(f, world.OpenOpt{NoPath: true})
	if err != nil {
		return nil
	}
	defer jd.Close()
	for _, u := range w.Users {
		for _, i := range []int{0, len(u.Rows) / 2, len(u.Rows) - 1} {
			ms, err := jd.Create().Tokenize("C", string(u.Rows[i].Head))
			if err != nil {
				return err
			}
			want, ok := w.POS[u.Rows[i].Pos].List(), false
			for k := 0; k < ms.Length(); k++ {
				ok = ok || slices.Equal(ms.Get(k).PartOfSpeech(), want)
			}
			if !ok {
				return fmt.Errorf("opening with %d parts of speech succeeds, but %q has none of %v", len(w.POS), string(u.Rows[i].Head), want)
			}
		}
	}
	return nil
}

func main() {
	pbt.Main("C07",
		pbt.S("parts of speech", 16, 300, "many parts of speech in several dictionaries", genPos, checkPos),
		pbt.S("cross", 16000, 200000, "two or more user dictionaries", gen(4, 8), check),
		pbt.S("full", 2500, 20000, "two or more user dictionaries", gen(15, 2), check),
		pbt.S("many", 12, 300, "hundreds of rows in several dictionaries", func(t *rapid.T) world.Bulk { return world.DrawBulk(t, 20, 1500, 4) }, checkBulk),
		pbt.S("huge", 3, 60, "tens of thousands of rows", func(t *rapid.T) world.Bulk {
			b := world.DrawBulk(t, 60000, 100000, 1)
			b.Users = append(b.Users, 1<<16+rapid.IntRange(1000, 20000).Draw(t, "over"))
			b.Alpha, b.MaxLen = pbt.Str(world.Pick(t, "alpha", []string{"abcdefghijklmnopqrstuvwxyz", "アイウエオカキクケコ漢字仮名𠮷"})), max(b.MaxLen, 5)
			b.Refs = b.Refs || world.Chance(t, "refs", 50)
			return b
		}, checkBulk),
		pbt.S("homographs", 24, 600, "hundreds of rows in several dictionaries", func(t *rapid.T) world.Bulk {
			b := world.DrawBulk(t, 300, 900, 0)
			b.Users = []int{rapid.IntRange(100, 300).Draw(t, "un")}
			b.Refs, b.Homo, b.POS = true, world.Pick(t, "homo", []int{100, 255}), world.Pick(t, "pos", []int{270, 300, 520, 700})
			return b
		}, checkBulk),
		pbt.S("million", 1, 6, "over 2^20 rows", func(t *rapid.T) world.Bulk {
			b := world.DrawBulk(t, 1, 300, 2)
			b.Alpha = pbt.Str(world.Pick(t, "alpha", []string{"abcdefghijklmnopqrstuvwxyz", "アイウエオカキクケコ漢字仮名𠮷"}))
			b.N, b.MaxLen, b.Plain = 1<<20+rapid.IntRange(1, 3000).Draw(t, "over"), 6, true
			b.Refs = false // searching among so many takes long
			return b
		}, checkBulk),
		pbt.S("sixteen", 800, 4000, "a list of sixteen or more user dictionaries", gen(2, 3), checkSixteen),
	)
}
