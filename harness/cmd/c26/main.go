// C26: tokenizers sharing one dictionary can run concurrently.
package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"

	"verifharness/pbt"
	"verifharness/world"
)

type call struct {
	Mode string
	Text pbt.Str
	Dump bool
}

type caseT struct {
	W      *world.World
	Tasks  [][]call // of one goroutine each
	Rounds int
	Create bool // each goroutine makes its own tokenizer
	Other  bool // another dictionary over the same files is opened and used too
	Yield  int  // harness plugins give way every so often
}

func gen(profile int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: 2, Input: true, Path: true, Inhibit: true, Profile: profile, NoFail: world.Chance(t, "nofail", 70)})
		if profile > 0 && profile < 3 && len(w.Path) == 0 {
			w.Path = append(w.Path, world.PathPlugin{Kind: []string{"numeric", "katakana"}[profile-1], Normalize: true, MinLength: 2, Pos: w.Simple.Pos})
		}
		c := caseT{W: w, Create: rapid.Bool().Draw(t, "create"), Other: world.Chance(t, "other", 20), Yield: rapid.IntRange(0, 3).Draw(t, "yield")}
		c.Rounds = rapid.IntRange(1, 4).Draw(t, "rounds")
		var texts []pbt.Str
		for i := rapid.IntRange(1, 5).Draw(t, "ntexts"); i > 0; i-- {
			x := world.DrawText(t, w, alpha, 8)
			texts = append(texts, pbt.Str(x))
		}
		for i := rapid.IntRange(2, 6).Draw(t, "ntasks"); i > 0; i-- {
			var cs []call
			for j := rapid.IntRange(1, 4).Draw(t, "ncalls"); j > 0; j-- {
				cs = append(cs, call{world.Pick(t, "mode", []string{"A", "B", "C"}), world.Pick(t, "text", texts), world.Chance(t, "dump", 20)})
			}
			c.Tasks = append(c.Tasks, cs)
		}
		return c
	}
}

// yielder gives way to other goroutines.
type yielder struct {
	n     atomic.Int32
	every int
}

func (y *yielder) yield() {
	if y.every > 0 && int(y.n.Add(1))%y.every == 0 {
		runtime.Gosched()
	}
}

type yieldInput struct{ *yielder }

func (p *yieldInput) GetConfigStruct() interface{} { return p }
func (p *yieldInput) SetUp() error                 { return nil }
func (p *yieldInput) Rewrite(b *gosudachi.InputTextBuilder) error {
	p.yield()
	return nil
}

func show(l *gosudachi.MorphemeList, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for i := 0; i < l.Length(); i++ {
		m := l.Get(i)
		wi := m.GetWordInfo()
		fmt.Fprintf(&b, "%d-%d %q %#x dict %d unknown %v %s %q %q %q units %v %v %v", m.Begin(), m.End(), m.Surface(), m.GetWordId(), m.GetDictionaryId(), m.IsOOV(), strings.Join(m.PartOfSpeech(), ","),
			m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure)
		for _, mode := range []string{"A", "B"} {
			s := m.Split(mode)
			for j := 0; j < s.Length(); j++ {
				fmt.Fprintf(&b, " [%s %#x %d-%d]", mode, s.GetWordId(j), s.GetBegin(j), s.GetEnd(j))
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func ask(tok *gosudachi.JapaneseTokenizer, c call) string {
	tok.DumpOutput = nil
	var b strings.Builder
	if c.Dump {
		tok.DumpOutput = &b
	}
	r := show(tok.Tokenize(c.Mode, string(c.Text)))
	return b.String() + r
}

func check(c caseT, st *pbt.Stats) error {
	y := &yielder{every: c.Yield}
	opts := world.OpenOpt{InputLast: []gosudachi.InputTextPlugin{&yieldInput{y}}, PathLast: []gosudachi.PathRewritePlugin{&world.Capture{Fn: func(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error {
		y.yield()
		return nil
	}}}}
	e, err := c.W.Setup(opts)
	if err != nil {
		return err
	}
	defer e.Close()
	// what each call gives alone, from a dictionary of its own
	alone, err := c.W.Open(e.Files, opts)
	if err != nil {
		return fmt.Errorf("the dictionary opens once, the second time: %v", err)
	}
	want := map[call]string{}
	tok := alone.Create()
	morphs := 0
	for _, t := range c.Tasks {
		for _, k := range t {
			if _, ok := want[k]; !ok {
				want[k] = ask(tok, k)
				morphs += strings.Count(want[k], "\n")
			}
		}
	}
	alone.Close()
	dicts := []*gosudachi.JapaneseDictionary{e.Dict}
	if c.Other {
		d, err := c.W.Open(e.Files, opts)
		if err != nil {
			return fmt.Errorf("the dictionary opens once, the second time: %v", err)
		}
		defer d.Close()
		dicts = append(dicts, d)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	errs := make([]error, len(c.Tasks))
	for i, t := range c.Tasks {
		d := dicts[i%len(dicts)]
		var tok *gosudachi.JapaneseTokenizer
		if !c.Create {
			tok = d.Create()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[i] = pbt.Try(fmt.Sprintf("goroutine %d", i), func() error {
				if tok == nil {
					tok = d.Create()
				}
				for r := 0; r < c.Rounds; r++ {
					for _, k := range t {
						if got := ask(tok, k); got != want[k] {
							return fmt.Errorf("goroutine %d: mode %s, text %q: beside others\n%s\nalone\n%s", i, k.Mode, string(k.Text), got, want[k])
						}
					}
				}
				return nil
			})
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if morphs > 2 {
		st.NonTrivial()
	}
	for _, p := range c.W.Path {
		st.Class("with " + p.Kind)
	}
	for _, k := range c.W.Input {
		st.Class("with " + k)
	}
	for _, k := range c.W.Oov {
		st.Class("with " + k)
	}
	st.ClassIf(c.Other, "two dictionaries")
	return nil
}

func main() {
	const rule = "more than two morphemes are found"
	pbt.Main("C26",
		pbt.S("any", 2500, 150000, rule, gen(0), check),
		pbt.S("numeric", 1000, 60000, rule, gen(1), check),
		pbt.S("katakana", 800, 40000, rule, gen(2), check),
		pbt.S("natural", 800, 40000, rule, gen(world.ProfileNatural), check),
	)
}
