// C29: plugins of the user's own take part like the built-in ones.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

// ownCand is a candidate an own provider returns.
type ownCand struct {
	N, Left, Right, Cost, Pos int // N: characters
	Known                     bool
	Units                     bool // it lists units if words make it up
}

// ownOov says what an own provider returns: at every character whose index
// leaves a rest below Rem by Mod.
type ownOov struct {
	At       int // among the built-in ones
	Mod, Rem int
	When     int // 0: always, 1: only without other candidates, 2: only beside others
	Cands    []ownCand
	FailAt   int // character at which it fails in the failing run, -1: never
}

// ownInput edits the text.
type ownInput struct {
	At    int
	Edits []model.Edit
	Fail  bool
}

// op is a step of an own path plugin.
type op struct {
	Kind       string
	A, B, C, D int
	S          pbt.Str
}

type ownPath struct {
	At   int
	Ops  []op
	Fail bool
}

type caseT struct {
	W     *world.World
	Oov   []ownOov
	In    []ownInput
	Path  []ownPath
	Texts []pbt.Str
	Mode  string
	SetUp int // the own plugin whose set-up fails, or -1
	Edit  [][3]int
}

func gen(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 1, Profile: rapid.IntRange(0, 3).Draw(t, "profile"), Input: rapid.Bool().Draw(t, "input"), Path: rapid.Bool().Draw(t, "path"), Inhibit: rapid.Bool().Draw(t, "inhibit"), NoSplits: rapid.Bool().Draw(t, "nosplits")})
	c := caseT{W: w, SetUp: -1, Mode: world.Pick(t, "mode", []string{"A", "B", "C", "C"})}
	for i := rapid.IntRange(0, 2).Draw(t, "noov"); i > 0; i-- {
		o := ownOov{At: rapid.IntRange(0, 2).Draw(t, "at"), Mod: rapid.IntRange(1, 3).Draw(t, "mod"), When: rapid.IntRange(0, 2).Draw(t, "when"), FailAt: -1}
		o.Rem = rapid.IntRange(1, o.Mod).Draw(t, "rem")
		for k := rapid.IntRange(0, 3).Draw(t, "ncand"); k > 0; k-- {
			o.Cands = append(o.Cands, ownCand{rapid.IntRange(1, 4).Draw(t, "n"), rapid.IntRange(0, w.Matrix.R-1).Draw(t, "l"), rapid.IntRange(0, w.Matrix.L-1).Draw(t, "r"), world.Pick(t, "cost", []int{0, 1, -1, 5, -5, 30, -300, 1000, 32767, -32768}), world.Pick(t, "row", w.Sys.Rows).Pos, rapid.Bool().Draw(t, "known"), rapid.Bool().Draw(t, "units")})
		}
		if world.Chance(t, "fail", 12) {
			o.FailAt = rapid.IntRange(0, 4).Draw(t, "failat")
		}
		c.Oov = append(c.Oov, o)
	}
	for i := rapid.IntRange(0, 2).Draw(t, "nin"); i > 0; i-- {
		c.In = append(c.In, ownInput{rapid.IntRange(0, 2).Draw(t, "at"), model.DrawEdits(t, alpha, 3), world.Chance(t, "fail", 10)})
	}
	for i := rapid.IntRange(0, 2).Draw(t, "npath"); i > 0; i-- {
		p := ownPath{At: rapid.IntRange(0, 2).Draw(t, "at"), Fail: world.Chance(t, "fail", 10)}
		for k := rapid.IntRange(0, 8).Draw(t, "nops"); k > 0; k-- {
			o := op{Kind: world.Pick(t, "op", []string{"look", "insert", "insert", "remove", "join", "join", "joinoov", "joinoov", "empty"})}
			o.A, o.B, o.C, o.D = rapid.IntRange(0, 9).Draw(t, "a"), rapid.IntRange(0, 9).Draw(t, "b"), rapid.IntRange(-3, 3).Draw(t, "c"), rapid.IntRange(0, 9).Draw(t, "d")
			if o.Kind == "join" && rapid.Bool().Draw(t, "given") {
				o.S = pbt.Str(world.Pick(t, "form", []string{"x", "正規", "é"}))
			}
			p.Ops = append(p.Ops, o)
		}
		c.Path = append(c.Path, p)
	}
	for i := rapid.IntRange(1, 3).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 8)))
	}
	for i := rapid.IntRange(0, 2).Draw(t, "nedit"); i > 0; i-- {
		c.Edit = append(c.Edit, [3]int{rapid.IntRange(0, w.Matrix.L-1).Draw(t, "el"), rapid.IntRange(0, w.Matrix.R-1).Draw(t, "er"), world.Pick(t, "ec", []int{0, -7, 100, 32767})})
	}
	if n := len(c.Oov) + len(c.In) + len(c.Path) + 1; world.Chance(t, "setup", 25) {
		c.SetUp = rapid.IntRange(0, n-1).Draw(t, "which")
	}
	return c
}

// run is what the plugins share.
type run struct {
	c       *caseT
	armed   bool // plugins may fail
	live    bool // the dictionary is open: edits and path steps are made
	failed  error
	bad     error         // what a plugin found wrong
	pos     map[int]int16 // ids of the parts of speech of the system dictionary
	sysPos  []int16
	d       *gosudachi.JapaneseDictionary
	seq     *model.Seq // the text as the input plugins leave it
	nextIn  int
	lat     *state
	nontriv map[string]bool
	ops     bool
}

func (r *run) wrong(f string, a ...any) {
	if r.bad == nil {
		r.bad = fmt.Errorf(f, a...)
	}
}

type ownError struct{ what string }

func (e *ownError) Error() string { return "own plugin error: " + e.what }

func (r *run) fail(what string) error {
	r.failed = &ownError{what}
	return r.failed
}

// setUp is the set-up of one own plugin.
type setUp struct {
	r     *run
	n     int
	times int
}

func (s *setUp) do() error {
	s.times++
	if s.n == s.r.c.SetUp {
		return s.r.fail(fmt.Sprint("set-up of ", s.n))
	}
	return nil
}

func (s *setUp) used() {
	if s.times != 1 {
		s.r.wrong("own plugin %d is used after %d set-ups", s.n, s.times)
	}
}

// --- input text

type input struct {
	setUp
	in ownInput
}

func (p *input) GetConfigStruct() interface{} { return p }
func (p *input) SetUp() error                 { return p.do() }
func (p *input) Rewrite(b *gosudachi.InputTextBuilder) error {
	p.used()
	if !p.r.live {
		return nil
	}
	if p.r.armed && p.in.Fail {
		return p.r.fail("input")
	}
	// the harness's sequence has to be where this plugin is called
	order := p.r.inputOrder()
	for ; p.r.nextIn < len(order) && order[p.r.nextIn] != p.n; p.r.nextIn++ {
		if order[p.r.nextIn] >= 0 {
			p.r.wrong("own input plugin %d is called before %d", p.n, order[p.r.nextIn])
			return nil
		}
		p.r.builtin(-1 - order[p.r.nextIn])
	}
	if p.r.nextIn == len(order) {
		p.r.wrong("own input plugin %d is called out of order", p.n)
		return nil
	}
	p.r.nextIn++
	if string(b.GetText()) != string(p.r.seq.R) {
		p.r.wrong("own input plugin %d sees %q, the plugins before left %q", p.n, string(b.GetText()), string(p.r.seq.R))
		return nil
	}
	for _, e := range p.in.Edits {
		e.Apply(b, p.r.seq)
	}
	return nil
}

func (r *run) builtin(k int) {
	w := r.c.W
	if w.Input[k] == "default" {
		model.NewRewriting(w.Rewrite).Apply(r.seq)
		return
	}
	marks := map[rune]bool{}
	for _, m := range w.Prolonged.Marks {
		marks[[]rune(string(m))[0]] = true
	}
	model.Prolong(r.seq, marks, []rune(string(w.Prolonged.Replacement)))
}

// order merges own plugins (their numbers) into built-in ones (-1-index).
func order(n int, at []int, first int) []int {
	var out []int
	for i := 0; i <= n; i++ {
		for k, a := range at {
			if a == i || i == n && a > n {
				out = append(out, first+k)
			}
		}
		if i < n {
			out = append(out, -1-i)
		}
	}
	return out
}

func (r *run) inputOrder() []int {
	var at []int
	for _, p := range r.c.In {
		at = append(at, p.At)
	}
	return order(len(r.c.W.Input), at, 0)
}

func (r *run) oovOrder() []int {
	var at []int
	for _, p := range r.c.Oov {
		at = append(at, p.At)
	}
	return order(len(r.c.W.Oov), at, len(r.c.In))
}

func (r *run) pathOrder() []int {
	var at []int
	for _, p := range r.c.Path {
		at = append(at, p.At)
	}
	return order(len(r.c.W.Path), at, len(r.c.In)+len(r.c.Oov))
}

// --- unknown words

func (o *ownOov) gives(i int, other bool) bool {
	return i%o.Mod < o.Rem && (o.When == 0 || o.When == 1 && !other || o.When == 2 && other)
}

func (x *ownCand) surface(n, k int) string { return fmt.Sprintf("own%d.%d", n, k) }

// units divides a text into at most n words.
func units(rows []world.Row, s string, n int) []int32 {
	if s == "" {
		return []int32{}
	}
	if n == 0 {
		return nil
	}
	for i, r := range rows {
		if h := string(r.Head); h != "" && strings.HasPrefix(s, h) {
			if rest := units(rows, s[len(h):], n-1); rest != nil {
				return append([]int32{int32(i)}, rest...)
			}
		}
	}
	return nil
}

type oov struct {
	setUp
	o ownOov
}

func (p *oov) GetConfigStruct() interface{}      { return p }
func (p *oov) SetUp(g *dictionary.Grammar) error { return p.do() }
func (p *oov) ProvideOOV(in *gosudachi.InputText, offset int, other bool) ([]*gosudachi.LatticeNode, error) {
	p.used()
	text := in.GetText()
	if offset < 0 || offset >= len(text) || !utf8.RuneStart(text[offset]) {
		p.r.wrong("unknown words of %q are asked for at %d", text, offset)
		return nil, nil
	}
	i := utf8.RuneCountInString(text[:offset])
	if p.r.armed && i == p.o.FailAt {
		return nil, p.r.fail("unknown words")
	}
	if !p.o.gives(i, other) {
		return nil, nil
	}
	rest := []rune(text[offset:])
	var out []*gosudachi.LatticeNode
	for k, x := range p.o.Cands {
		var n *gosudachi.LatticeNode
		switch {
		case x.Known:
			n = &gosudachi.LatticeNode{Begin: 7, End: 3}
		case k%2 == 0:
			n = gosudachi.CreateNodeOfOOV()
		default:
			n = &gosudachi.LatticeNode{}
			n.SetOOV()
		}
		n.SetParameter(int16(x.Left), int16(x.Right), int16(x.Cost))
		s := x.surface(p.n, k)
		covered := string(rest[:min(x.N, len(rest))])
		wi := &dictionary.WordInfo{Surface: s, HeadwordLength: int16(len(covered)), PosId: p.r.pos[x.Pos], NormalizedForm: "n" + s, DictionaryForm: "d" + s, ReadingForm: "r" + s}
		if x.Units {
			wi.AUnitSplit = units(p.r.c.W.Sys.Rows, covered, 4)
			wi.BUnitSplit = units(p.r.c.W.Sys.Rows, covered, 2)
		}
		n.SetWordInfo(wi)
		out = append(out, n)
	}
	return out, nil
}

// offered is model.Offered with the own providers.
func (r *run) offered(t *model.Text, i int) []model.Cand {
	w := r.c.W
	ask := func(k int, other bool) (out []model.Cand) {
		if k < 0 {
			if w.Oov[-1-k] == "mecab" {
				return model.MecabOov(w, t, i, other)
			}
			return model.SimpleOov(w, t, i, other)
		}
		o := &r.c.Oov[k-len(r.c.In)]
		if !o.gives(i, other) {
			return nil
		}
		for j, x := range o.Cands {
			c := model.Cand{Begin: t.At[i], End: t.At[min(i+x.N, len(t.Runes))], Left: x.Left, Right: x.Right, Cost: x.Cost, Dict: -1, Pos: x.Pos, Surface: x.surface(k, j)}
			if x.Known {
				c.Row = -1
			}
			out = append(out, c)
		}
		return
	}
	out := model.Words(w, t, i)
	ord := r.oovOrder()
	if t.Cats[i]&world.NOOOVBOW == 0 {
		for _, k := range ord {
			out = append(out, ask(k, len(out) > 0)...)
		}
	}
	if len(out) == 0 {
		out = ask(ord[0], false)
	}
	return out
}

// --- paths

// tok is what can be seen of a node.
type tok struct {
	b, e                  int
	surf, norm, dic, read string
	pos                   int16
	oov                   bool
	dict                  int
	length                int16
	n                     *gosudachi.LatticeNode
}

func see(n *gosudachi.LatticeNode) tok {
	wi := n.GetWordInfo()
	return tok{n.GetBegin(), n.GetEnd(), wi.Surface, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, wi.PosId, n.IsOOV(), n.GetDictionaryId(), wi.HeadwordLength, n}
}

func show(ts []tok) string {
	var p []string
	for _, t := range ts {
		p = append(p, fmt.Sprintf("%d-%d %q %q %q %q pos %d unknown %v dict %d len %d", t.b, t.e, t.surf, t.norm, t.dic, t.read, t.pos, t.oov, t.dict, t.length))
	}
	return strings.Join(p, "; ")
}

// state is the lattice and path as the model has them.
type state struct {
	ends map[int][]*gosudachi.LatticeNode
	path []tok
}

func (s *state) nodes(b, e int) (out []*gosudachi.LatticeNode) {
	for _, n := range s.ends[e] {
		if n.GetBegin() == b {
			out = append(out, n)
		}
	}
	return
}

func same(a, b []*gosudachi.LatticeNode) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type path struct {
	setUp
	p ownPath
}

func (p *path) GetConfigStruct() interface{}      { return p }
func (p *path) SetUp(g *dictionary.Grammar) error { return p.do() }
func (p *path) Rewrite(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	p.used()
	r := p.r
	if !r.live {
		return nil
	}
	if r.armed && p.p.Fail {
		return r.fail("path")
	}
	if !r.ops {
		return nil
	}
	text := model.NewText(&r.c.W.Chars, in.GetText())
	s := r.lat
	s.path = nil
	for _, n := range *path {
		s.path = append(s.path, see(n))
	}
	n := len(text.Runes)
	if len(s.path) == 0 {
		return nil
	}
	for _, o := range p.p.Ops {
		from := o.A % n
		b, e := text.At[from], text.At[from+1+o.B%(n-from)]
		i := o.A % len(s.path)
		j := i + 1 + o.B%(len(s.path)-i)
		if o.D > 5 { // where something is
			t := s.path[i]
			b, e = t.b, t.e
		}
		what := fmt.Sprintf("%q: own path plugin %d, step %+v", text.S, p.n, o)
		switch o.Kind {
		case "insert":
			x := &gosudachi.LatticeNode{}
			x.SetParameter(0, 0, int16(o.C))
			x.SetWordInfo(&dictionary.WordInfo{Surface: "ins", HeadwordLength: int16(e - b), PosId: s.path[i].pos, NormalizedForm: "i", DictionaryForm: "j", ReadingForm: "k"})
			lattice.Insert(b, e, x)
			s.ends[e] = append(s.ends[e], x)
			if x.GetBegin() != b || x.GetEnd() != e {
				r.wrong("%s: the candidate is put at %d to %d, want %d to %d", what, x.GetBegin(), x.GetEnd(), b, e)
			}
			r.nontriv["candidate added"] = true
		case "remove":
			l := s.ends[e]
			if len(l) == 0 {
				continue
			}
			k := o.D % len(l)
			x := l[k]
			lattice.Remove(x.GetBegin(), e, x)
			s.ends[e] = append(append([]*gosudachi.LatticeNode{}, l[:k]...), l[k+1:]...)
			r.nontriv["candidate removed"] = true
		case "join":
			ts := s.path[i:j]
			t := tok{b: ts[0].b, e: ts[len(ts)-1].e, pos: ts[0].pos, dict: -1}
			for _, x := range ts {
				t.surf += x.surf
				t.norm += x.norm
				t.dic += x.dic
				t.read += x.read
				t.length += x.length
			}
			if o.S != "" {
				t.norm = string(o.S)
				r.nontriv["joined with a form given"] = true
			}
			got, err := gosudachi.ConcatenateNodes(path, i, j, lattice, string(o.S))
			if err != nil {
				r.wrong("%s: %v", what, err)
				return nil
			}
			t.n = got
			if see(got) != t {
				r.wrong("%s: joining %s gives %s, want %s", what, show(ts), show([]tok{see(got)}), show([]tok{t}))
				return nil
			}
			s.path = append(append(append([]tok{}, s.path[:i]...), t), s.path[j:]...)
			if len(ts) > 1 {
				r.nontriv["joined"] = true
			}
		case "joinoov":
			ts := s.path[i:j]
			t := tok{b: ts[0].b, e: ts[len(ts)-1].e, pos: r.sysPos[o.D%len(r.sysPos)], dict: -1, oov: true}
			for _, x := range ts {
				t.surf += x.surf
				t.length += x.length
			}
			t.norm, t.dic = t.surf, t.surf
			var best *gosudachi.LatticeNode
			for _, x := range s.nodes(t.b, t.e) {
				if best == nil || x.GetPathCost() < best.GetPathCost() {
					best = x
				}
			}
			got, err := gosudachi.ConcatenateOov(path, i, j, t.pos, lattice)
			if err != nil {
				r.wrong("%s: %v", what, err)
				return nil
			}
			if best != nil {
				if got != best {
					r.wrong("%s: joining gives %s (cost %d), want the cheapest candidate %s (cost %d)", what, show([]tok{see(got)}), got.GetPathCost(), show([]tok{see(best)}), best.GetPathCost())
					return nil
				}
				t = see(best)
				r.nontriv["replaced with a candidate"] = true
			} else {
				r.nontriv["joined to an unknown word"] = true
			}
			t.n = got
			if see(got) != t {
				r.wrong("%s: joining %s gives %s, want %s", what, show(ts), show([]tok{see(got)}), show([]tok{t}))
				return nil
			}
			s.path = append(append(append([]tok{}, s.path[:i]...), t), s.path[j:]...)
		case "empty":
			if _, err := gosudachi.ConcatenateNodes(path, j, i+o.D%2, lattice, string(o.S)); err == nil {
				r.wrong("%s: joining from %d to %d is not refused", what, j, i+o.D%2)
				return nil
			}
			if _, err := gosudachi.ConcatenateOov(path, j, j, r.sysPos[0], lattice); err == nil {
				r.wrong("%s: joining from %d to %d is not refused", what, j, j)
				return nil
			}
			r.nontriv["nothing to join"] = true
		}
		if !same(lattice.GetNodesWithEnd(e), s.ends[e]) {
			r.wrong("%s: %d candidates end at %d, want %d (or others)", what, len(lattice.GetNodesWithEnd(e)), e, len(s.ends[e]))
			return nil
		}
		want := s.nodes(b, e)
		if got := lattice.GetNodes(b, e); !same(got, want) {
			r.wrong("%s: %d candidates from %d to %d, want %d (or others)", what, len(got), b, e, len(want))
			return nil
		}
		var best *gosudachi.LatticeNode
		for _, x := range want {
			if best == nil || x.GetPathCost() < best.GetPathCost() {
				best = x
			}
		}
		if got := lattice.GetMinimumNode(b, e); got != best {
			r.wrong("%s: the cheapest candidate from %d to %d is %v, want %v", what, b, e, got, best)
			return nil
		}
		if got := lattice.HasPreviousNode(e); got != (len(s.ends[e]) > 0) {
			r.wrong("%s: there are candidates that end at %d: %v", what, e, got)
			return nil
		}
		if len(*path) != len(s.path) {
			r.wrong("%s: the path has %d morphemes, want %d", what, len(*path), len(s.path))
			return nil
		}
		for k, x := range *path {
			if see(x) != s.path[k] {
				r.wrong("%s: morpheme %d of the path is %s, want %s", what, k, show([]tok{see(x)}), show(s.path[k:k+1]))
				return nil
			}
		}
	}
	return nil
}

// first looks at the analysis before all path plugins.
type first struct {
	r *run
	l *model.Lattice
}

func (p *first) GetConfigStruct() interface{}      { return p }
func (p *first) SetUp(g *dictionary.Grammar) error { return nil }
func (p *first) Rewrite(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	r := p.r
	if !r.live {
		return nil
	}
	l := p.l
	order := r.inputOrder()
	for ; r.nextIn < len(order); r.nextIn++ {
		if order[r.nextIn] >= 0 {
			r.wrong("own input plugin %d is not called", order[r.nextIn])
			return nil
		}
		r.builtin(-1 - order[r.nextIn])
	}
	if err := r.seq.Same(in); err != nil {
		r.wrong("after the input plugins: %v", err)
		return nil
	}
	r.lat = &state{ends: map[int][]*gosudachi.LatticeNode{}}
	var cands []model.Cand
	for _, cs := range l.At {
		cands = append(cands, cs...)
	}
	ids := map[string][]model.Cand{}
	keyC := func(c model.Cand) string {
		return fmt.Sprint(c.Begin, c.End, c.Cost, c.Dict < 0, c.Dict < 0 && c.Row == 0, c.Surface, r.c.W.POS[c.Pos].Join())
	}
	keyN := func(n *gosudachi.LatticeNode) string {
		wi := n.GetWordInfo()
		return fmt.Sprint(n.GetBegin(), n.GetEnd(), n.GetPathCost(), n.GetDictionaryId() < 0, n.IsOOV(), wi.Surface, strings.Join(r.d.GetPartOfSpeechString(wi.PosId), ","))
	}
	for _, c := range cands {
		ids[keyC(c)] = append(ids[keyC(c)], c)
	}
	seen := map[string]bool{}
	for i := 1; i <= len(l.T.S); i++ {
		ns := lattice.GetNodesWithEnd(i)
		r.lat.ends[i] = append([]*gosudachi.LatticeNode{}, ns...)
		for _, n := range ns {
			if n.GetEnd() != i {
				r.wrong("%q: a candidate that ends at %d is listed at %d", l.T.S, n.GetEnd(), i)
			}
			k := keyN(n)
			if len(ids[k]) == 0 {
				r.wrong("%q: %s is a candidate, but nothing gave it (words, unknown words)", l.T.S, k)
				return nil
			}
			seen[k] = true
			wi := n.GetWordInfo()
			if s := wi.Surface; strings.HasPrefix(s, "own") && n.GetDictionaryId() < 0 && (wi.NormalizedForm != "n"+s || wi.DictionaryForm != "d"+s || wi.ReadingForm != "r"+s) {
				r.wrong("%q: the forms of %s are %q %q %q", l.T.S, s, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm)
			}
		}
	}
	var missing []string
	for k := range ids {
		if !seen[k] {
			missing = append(missing, k)
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		r.wrong("%q: %q are no candidates", l.T.S, missing)
		return nil
	}
	at := 0
	var members [][]model.Cand
	for _, n := range *path {
		if n.GetBegin() != at {
			r.wrong("%q: the path has a gap at %d", l.T.S, at)
			return nil
		}
		at = n.GetEnd()
		members = append(members, ids[keyN(n)])
		if s := n.GetWordInfo().Surface; strings.HasPrefix(s, "own") {
			r.nontriv["own candidate chosen"] = true
		}
	}
	best, _ := l.Best()
	if total, ok := l.PathCost(members); at != len(l.T.S) || !ok || total != best {
		r.wrong("%q: the path costs %d (allowed: %v) and ends at %d, the best costs %d", l.T.S, total, ok, at, best)
	}
	return nil
}

// last sees the path all plugins leave.
type last struct {
	r    *run
	path []tok
}

func (p *last) GetConfigStruct() interface{}    { return p }
func (p *last) SetUp(*dictionary.Grammar) error { return nil }
func (p *last) Rewrite(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	p.path = nil
	for _, n := range *path {
		p.path = append(p.path, see(n))
	}
	return nil
}

// edit is an own plugin that changes connection costs.
type edit struct{ setUp }

func (p *edit) GetConfigStruct() interface{}      { return p }
func (p *edit) SetUp(g *dictionary.Grammar) error { return p.do() }
func (p *edit) Edit(g *dictionary.Grammar) error {
	p.used()
	for _, x := range p.r.c.Edit {
		g.SetConnectCost(int16(x[0]), int16(x[1]), int16(x[2]))
	}
	return nil
}

func check(c caseT, st *pbt.Stats) error {
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	f, err := w.Materialise(dir)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	r := &run{c: &c, pos: map[int]int16{}, nontriv: map[string]bool{}}
	// the model's world: the last word on each connection is the own edits'
	wm := *w
	wm.Inhibit = nil
	wm.Matrix.Lines = append([][3]int{}, w.Matrix.Lines...)
	for _, x := range w.Inhibit {
		wm.Matrix.Lines = append(wm.Matrix.Lines, [3]int{x[0], x[1], 32767})
	}
	wm.Matrix.Lines = append(wm.Matrix.Lines, c.Edit...)

	var ins []gosudachi.InputTextPlugin
	var oovs []gosudachi.OovProviderPlugin
	var paths []gosudachi.PathRewritePlugin
	var ups []*setUp
	bi, bo, bp := w.InputPlugins(f), w.OovPlugins(f), w.PathPlugins()
	for _, k := range r.inputOrder() {
		if k < 0 {
			ins = append(ins, bi[-1-k])
		} else {
			p := &input{setUp{r: r, n: k}, c.In[k]}
			ins, ups = append(ins, p), append(ups, &p.setUp)
		}
	}
	for _, k := range r.oovOrder() {
		if k < 0 {
			oovs = append(oovs, bo[-1-k])
		} else {
			p := &oov{setUp{r: r, n: k}, c.Oov[k-len(c.In)]}
			oovs, ups = append(oovs, p), append(ups, &p.setUp)
		}
	}
	fp, lp := &first{r: r}, &last{r: r}
	paths = append(paths, fp)
	ownPaths := 0
	for _, k := range r.pathOrder() {
		if k < 0 {
			paths = append(paths, bp[-1-k])
		} else {
			p := &path{setUp{r: r, n: k}, c.Path[k-len(c.In)-len(c.Oov)]}
			paths, ups = append(paths, p), append(ups, &p.setUp)
			ownPaths++
		}
	}
	paths = append(paths, lp)
	ed := &edit{setUp{r: r, n: len(c.In) + len(c.Oov) + len(c.Path)}}
	ups = append(ups, &ed.setUp)
	edits := append(w.EditPlugins(), ed)

	// parts of speech are asked for before: own providers already work for
	// the automatic costs of user dictionaries
	if d, err := dictionary.ReadSystemDictionary(f.Sys, w.Utf16); err == nil {
		for i := range w.POS {
			if id := d.Grammar.GetPartOfSpeechId(w.POS[i].List()); id >= 0 {
				r.pos[i] = id
				r.sysPos = append(r.sysPos, id)
			}
		}
		d.Close()
	}
	d, err := gosudachi.NewJapaneseDictionary(w.Config(f), ins, oovs, paths, edits)
	if c.SetUp >= 0 {
		if err == nil {
			d.Close()
			return fmt.Errorf("the set-up of own plugin %d fails, but the dictionary opens", c.SetUp)
		}
		st.Class("set-up fails")
		st.NonTrivial()
		if r.failed == nil {
			return pbt.Skip("%v", err)
		}
		if !errors.Is(err, r.failed) && !strings.Contains(err.Error(), r.failed.Error()) {
			return fmt.Errorf("the set-up fails with %q, opening with %q", r.failed, err)
		}
		return nil
	}
	if err != nil {
		return pbt.Skip("the configuration cannot be set up: %v", err)
	}
	defer d.Close()
	for _, u := range ups {
		if u.times != 1 {
			return fmt.Errorf("own plugin %d is set up %d times", u.n, u.times)
		}
	}
	if r.bad != nil {
		return r.bad
	}
	r.live, r.d = true, d
	tk := d.Create()
	for pass := 0; pass < 3; pass++ {
		// with edits of the lattice, then with failures, then without
		r.ops, r.armed = pass == 0, pass == 1
		for _, s := range c.Texts {
			if s == "" {
				continue
			}
			if err := analyse(&c, r, &wm, fp, lp, d, tk, string(s), st); err != nil {
				return fmt.Errorf("pass %d: %v", pass, err)
			}
		}
	}
	for _, u := range ups {
		if u.times != 1 {
			return fmt.Errorf("own plugin %d is set up %d times", u.n, u.times)
		}
	}
	for k := range r.nontriv {
		st.Class(k)
		st.NonTrivial()
	}
	return nil
}

func analyse(c *caseT, r *run, wm *world.World, fp *first, lp *last, d *gosudachi.JapaneseDictionary, tk *gosudachi.JapaneseTokenizer, s string, st *pbt.Stats) error {
	// what the input plugins make of the text
	r.seq = model.NewSeq(s)
	for _, k := range r.inputOrder() {
		if k < 0 {
			r.builtin(-1 - k)
			continue
		}
		for _, e := range c.In[k].Edits {
			e.On(r.seq)
		}
	}
	final := string(r.seq.R)
	l := model.NewLatticeOf(wm, final, r.offered)
	_, ok := l.Best()
	ok = ok && l.Stuck < 0
	r.seq, r.nextIn, r.failed, fp.l, lp.path = model.NewSeq(s), 0, nil, l, nil
	ms, err := tk.Tokenize(c.Mode, s)
	if r.bad != nil {
		return fmt.Errorf("%q: %v", s, r.bad)
	}
	if r.failed != nil {
		st.Class("failing plugin")
		st.NonTrivial()
		if err == nil {
			return fmt.Errorf("%q: a plugin failed (%v), but the text is analysed", s, r.failed)
		}
		if !errors.Is(err, r.failed) && !strings.Contains(err.Error(), r.failed.Error()) {
			return fmt.Errorf("%q: a plugin failed with %q, the error is %q", s, r.failed, err)
		}
		return nil
	}
	if !ok {
		st.Class("no analysis")
		if err == nil {
			return fmt.Errorf("%q (rewritten %q) is analysed although there is no segmentation", s, final)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q (rewritten %q): %v", s, final, err)
	}
	if r.lat == nil || final != "" && lp.path == nil {
		return fmt.Errorf("%q: the path plugins are not called", s)
	}
	if err := result(c, r, ms, lp.path, s, d); err != nil {
		return fmt.Errorf("%q (rewritten %q), mode %s: %v", s, final, c.Mode, err)
	}
	return nil
}

// result compares the morphemes with the path the last plugin left; words
// that list units are split.
func result(c *caseT, r *run, ms *gosudachi.MorphemeList, path []tok, s string, d *gosudachi.JapaneseDictionary) error {
	rs := world.Runes(s)
	org := func(at int) int {
		return r.seq.Org[utf8.RuneCountInString(string(r.seq.R)[:at])]
	}
	k := 0
	for _, t := range path {
		wi := t.n.GetWordInfo()
		units := wi.AUnitSplit
		if c.Mode == "B" {
			units = wi.BUnitSplit
		}
		if c.Mode != "C" && len(units) > 1 {
			at := t.b
			for _, id := range units {
				if k >= ms.Length() {
					return fmt.Errorf("%d morphemes for the path %s", ms.Length(), show(path))
				}
				rows := c.W.Sys.Rows
				if n := uint32(id) >> 28; n > 0 {
					rows = c.W.Users[n-1].Rows
				}
				end := at + len(rows[id&0xfffffff].Head)
				m := ms.Get(k)
				k++
				if m.GetWordId() != int(uint32(id)) || m.GetDictionaryId() != int(uint32(id)>>28) || m.IsOOV() || m.Begin() != org(at) || m.End() != org(end) {
					return fmt.Errorf("morpheme %d is %d-%d, word %#x of dictionary %d, unknown %v; the path has %s, whose unit from %d to %d is %#x", k-1, m.Begin(), m.End(), m.GetWordId(), m.GetDictionaryId(), m.IsOOV(), show([]tok{t}), org(at), org(end), uint32(id))
				}
				at = end
			}
			if strings.HasPrefix(wi.Surface, "own") {
				r.nontriv["own candidate split"] = true
			}
			continue
		}
		if k >= ms.Length() {
			return fmt.Errorf("%d morphemes for the path %s", ms.Length(), show(path))
		}
		m := ms.Get(k)
		k++
		b, e := org(t.b), org(t.e)
		surface := string(rs[b:e])
		if m.Begin() != b || m.End() != e || string([]rune(m.Surface())) != surface || strings.Join(m.PartOfSpeech(), ",") != strings.Join(d.GetPartOfSpeechString(t.pos), ",") || m.DictionaryForm() != t.dic || m.NormalizedForm() != t.norm || m.ReadingForm() != t.read || m.IsOOV() != t.oov || m.GetDictionaryId() != t.dict {
			return fmt.Errorf("morpheme %d is %d-%d %q %v %q %q %q unknown %v dict %d, the path has %s", k-1, m.Begin(), m.End(), m.Surface(), m.PartOfSpeech(), m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), m.IsOOV(), m.GetDictionaryId(), show([]tok{t}))
		}
	}
	if k != ms.Length() {
		return fmt.Errorf("%d morphemes, want %d", ms.Length(), k)
	}
	return nil
}

func main() {
	const rule = "an own plugin changes the analysis, joins, or fails"
	pbt.Main("C29",
		pbt.S("plugins", 12000, 250000, rule, gen, check),
	)
}
