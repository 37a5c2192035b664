// C13: modes A and B split exactly the mode-C morphemes that list units.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"

	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W     *world.World
	Texts []pbt.Str
}

func gen(profile int) func(t *rapid.T) caseT { return genLong(profile, 0) }

func genLong(profile, long int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 3, Input: true, Path: true, NoFail: true, Profile: profile, Long: long})
		var heads []string
		cheap := func(d *world.Dict) {
			for i := range d.Rows {
				r := &d.Rows[i]
				if len(r.A)+len(r.B) > 1 {
					heads = append(heads, string(r.Head))
				}
				if len(r.A)+len(r.B) > 1 && world.Chance(t, "cheap", 75) {
					r.Cost, r.NoIndex = -20000+r.Cost/8, false
				}
			}
		}
		cheap(&w.Sys)
		for i := range w.Users {
			cheap(&w.Users[i])
		}
		c := caseT{W: w}
		for i := rapid.IntRange(1, 4).Draw(t, "ntexts"); i > 0; i-- {
			x := world.DrawText(t, w, alpha, 6)
			if len(heads) > 0 && rapid.Bool().Draw(t, "withsplit") {
				x = world.Pick(t, "head", heads) + x
			}
			c.Texts = append(c.Texts, pbt.Str(x))
		}
		return c
	}
}

// show gives all attributes of a morpheme.
func show(m *gosudachi.Morpheme) string {
	id := fmt.Sprintf("%#x", m.GetWordId())
	if m.GetDictionaryId() < 0 {
		id = "-"
	}
	return fmt.Sprintf("%d-%d %q word %s dict %d unknown %v %s norm %q dictform %q reading %q", m.Begin(), m.End(), m.Surface(), id, m.GetDictionaryId(), m.IsOOV(),
		strings.Join(m.PartOfSpeech(), ","), m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm())
}

func showList(l *gosudachi.MorphemeList) []string {
	var out []string
	for i := 0; i < l.Length(); i++ {
		out = append(out, show(l.Get(i)))
	}
	return out
}

func check(c caseT, st *pbt.Stats) error {
	w := c.W
	// the last path plugin sees the final path and can map positions
	var path []*gosudachi.LatticeNode
	var input *gosudachi.InputText
	cap := &world.Capture{Fn: func(text *gosudachi.InputText, p *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
		path, input = append([]*gosudachi.LatticeNode{}, (*p)...), text
		return nil
	}}
	e, err := w.Setup(world.OpenOpt{PathLast: []gosudachi.PathRewritePlugin{cap}})
	if err != nil {
		return err
	}
	defer e.Close()
	dict := func(n int) *world.Dict {
		if n == 0 {
			return &w.Sys
		}
		return &w.Users[n-1]
	}
	// unit is what a unit must look like
	unit := func(text []rune, at, n, row int) (string, int) {
		d := dict(n)
		r := &d.Rows[row]
		end := at + len(r.Head)
		b, x := input.GetOriginalIndex(at), input.GetOriginalIndex(end)
		df := string(r.Surface)
		if r.DicForm >= 0 {
			df = string(d.Rows[r.DicForm].Surface)
		}
		return fmt.Sprintf("%d-%d %q word %#x dict %d unknown %v %s norm %q dictform %q reading %q", b, x, string(text[b:x]), n<<28|row, n, false,
			w.POS[r.Pos].Join(), r.ReadNorm(), df, r.ReadReading()), end
	}
	for _, s := range c.Texts {
		text := string(s)
		path = nil
		ms, err := e.Tok.Tokenize("C", text)
		if err != nil {
			st.Class("no analysis")
			continue
		}
		runes := world.Runes(text)
		cs := showList(ms)
		in, p := input, path
		if len(p) != len(cs) {
			return fmt.Errorf("%q: a path of %d nodes gives %d morphemes", text, len(p), len(cs))
		}
		for _, mode := range []string{"A", "B"} {
			got, err := e.Tok.Tokenize(mode, text)
			if err != nil {
				return fmt.Errorf("%q is analysed in mode C; mode %s: %v", text, mode, err)
			}
			gs := showList(got)
			input = in
			k := 0
			for i := range cs {
				exp := []string{cs[i]}
				if n := ms.Get(i).GetDictionaryId(); n >= 0 {
					r := &dict(n).Rows[ms.Get(i).GetWordId()&0xfffffff]
					refs := r.A
					if mode == "B" {
						refs = r.B
					}
					if len(refs) >= 2 {
						exp = nil
						at := p[i].GetBegin()
						for _, q := range refs {
							un := 0
							if q.Own {
								un = n
							}
							var x string
							x, at = unit(runes, at, un, q.Row)
							exp = append(exp, x)
							st.ClassIf(n > 0 && q.Own, "unit of the same user dictionary")
							st.ClassIf(n > 1 && q.Own, "unit of a later user dictionary")
							st.ClassIf(n > 0 && !q.Own, "user word with a unit of the system dictionary")
						}
						if at != p[i].GetEnd() {
							return fmt.Errorf("%q: morpheme %d is %q but covers other text", text, i, string(r.Head))
						}
						st.Class("split in mode " + mode)
						st.NonTrivial()
						st.ClassIf(len(w.Input) > 0 && in.GetText() != text, "split in rewritten text")
						st.ClassIf(at-p[i].GetBegin() > 255, "more than 255 bytes split")
						st.ClassIf(mode == "B" && len(r.A) > len(r.B), "modes A and B differ")
					}
					st.ClassIf(len(refs) == 1, "one unit")
				} else {
					st.ClassIf(!ms.Get(i).IsOOV(), "joined number")
				}
				end := k + len(exp)
				if end > len(gs) || strings.Join(gs[k:end], "\n") != strings.Join(exp, "\n") {
					if end > len(gs) {
						end = len(gs)
					}
					return fmt.Errorf("%q in mode %s: morpheme %d (%s) must become\n%s\nbut is\n%s", text, mode, i, cs[i], strings.Join(exp, "\n"), strings.Join(gs[k:end], "\n"))
				}
				k += len(exp)
				// the morpheme alone
				for round := 0; round < 2; round++ {
					if x := showList(ms.Get(i).Split(mode)); strings.Join(x, "\n") != strings.Join(exp, "\n") {
						return fmt.Errorf("%q: splitting morpheme %d (%s) in mode %s must give\n%s\nbut gives\n%s", text, i, cs[i], mode, strings.Join(exp, "\n"), strings.Join(x, "\n"))
					}
				}
				if x := showList(ms.Get(i).Split("C")); len(x) != 1 || x[0] != cs[i] {
					return fmt.Errorf("%q: splitting morpheme %d (%s) in mode C gives %q", text, i, cs[i], x)
				}
			}
			if k != len(gs) {
				return fmt.Errorf("%q in mode %s has %d morphemes too many: %q", text, mode, len(gs)-k, gs[k:])
			}
		}
		if x := showList(ms); strings.Join(x, "\n") != strings.Join(cs, "\n") {
			return fmt.Errorf("%q: the mode C result changes from\n%s\nto\n%s", text, strings.Join(cs, "\n"), strings.Join(x, "\n"))
		}
	}
	return nil
}

// --- words of many units

// parts describes a dictionary with words of many units by a few numbers.
type parts struct {
	A, B, User int // how many units; the word is in the user dictionary
	Words      int // the word that many times in the text
	Seed       int
}

func checkParts(c parts, st *pbt.Stats) error {
	letters := []rune("あいうえ漢字")
	w := &world.World{POS: []world.Pos6{{"名詞", "普通名詞", "一般", "*", "*", "*"}}, Matrix: world.Matrix{L: 1, R: 1}, Oov: []string{"simple"}, Simple: world.Simple{Cost: 1000}}
	for _, r := range letters {
		w.Sys.Rows = append(w.Sys.Rows, world.Row{Head: pbt.Str(r), Surface: pbt.Str(r), Reading: pbt.Str(r), Cost: 500, DicForm: -1, Unit: "A"})
	}
	for i := 0; i+1 < len(letters); i++ { // words of two characters
		h := pbt.Str(string(letters[i : i+2]))
		w.Sys.Rows = append(w.Sys.Rows, world.Row{Head: h, Surface: h, Reading: h, Cost: 500, DicForm: -1, Unit: "A"})
	}
	long := world.Row{Cost: -3000, DicForm: -1, Unit: "C"}
	x := uint32(c.Seed)*2654435761 + 1
	head := ""
	for i := 0; i < c.A; i++ {
		x = x*1664525 + 1013904223
		k := int(x>>16) % len(letters)
		head += string(letters[k])
		long.A = append(long.A, world.Ref{Kind: "id", Row: k})
	}
	// B: pairs where there are such words, as far as wanted
	for i := 0; i < c.A; i++ {
		k := long.A[i].Row
		if len(long.B)+c.A-i > c.B && i+1 < c.A && long.A[i+1].Row == k+1 {
			long.B = append(long.B, world.Ref{Kind: "id", Row: len(letters) + k})
			i++
			continue
		}
		long.B = append(long.B, long.A[i])
	}
	long.Head, long.Surface, long.Reading, long.Norm = pbt.Str(head), pbt.Str(head), "ナガイ", "長い"
	if c.User > 0 {
		w.Users = []world.Dict{{Rows: []world.Row{long}}}
	} else {
		w.Sys.Rows = append(w.Sys.Rows, long)
	}
	st.ClassIf(c.A > 64, "more than 64 units")
	st.ClassIf(c.A*c.Words > 300, "more than 300 morphemes")
	return check(caseT{W: w, Texts: []pbt.Str{pbt.Str(strings.Repeat(head, c.Words) + "い"), pbt.Str("い" + head)}}, st)
}

func main() {
	const rule = "a morpheme of a mode-C result is split in mode A or B"
	pbt.Main("C13",
		pbt.S("mixed", 12000, 600000, rule, gen(0), check),
		pbt.S("numeric", 3000, 150000, rule, gen(1), check),
		pbt.S("katakana", 3000, 150000, rule, gen(2), check),
		pbt.S("natural", 3000, 150000, rule, gen(world.ProfileNatural), check),
		pbt.S("parts", 80, 4000, rule, func(t *rapid.T) parts {
			return parts{rapid.IntRange(2, 127).Draw(t, "a"), rapid.IntRange(2, 127).Draw(t, "b"), rapid.IntRange(0, 1).Draw(t, "user"), rapid.IntRange(1, 8).Draw(t, "words"), rapid.IntRange(0, 1<<20).Draw(t, "seed")}
		}, checkParts),
		pbt.S("long", 600, 30000, rule, genLong(0, 25), check),
	)
}
