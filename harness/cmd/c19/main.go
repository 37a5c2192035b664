// C19: numeric joining yields correct decimal values and touches only numbers.
package main

import (
	"fmt"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

var (
	numPos   = world.Pos6{"名詞", "数詞", "*", "*", "*", "*"}
	nounPos  = world.Pos6{"名詞", "普通名詞", "一般", "*", "*", "*"}
	punctPos = world.Pos6{"補助記号", "読点", "*", "*", "*", "*"}
)

// spy keeps the grammar.
type spy struct{ g *dictionary.Grammar }

func (s *spy) GetConfigStruct() interface{}      { return s }
func (s *spy) SetUp(g *dictionary.Grammar) error { s.g = g; return nil }
func (s *spy) Rewrite(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error {
	return nil
}

const natural = "0123456789０１２３４５６７８９〇一二三四五六七八九十百千万億兆,.，．、。円年月日約第ア漢abゝ①½"

func naturalChars() world.CharDef {
	var c world.CharDef
	for _, r := range natural {
		k := world.NaturalCats(r)
		if r == '①' || r == '½' {
			k = world.NUMERIC
		}
		if k != 0 {
			c.Ranges = append(c.Ranges, world.Range{Lo: r, Hi: r, Cats: k})
		}
	}
	for i := 0; i < 16; i++ {
		c.Props = append(c.Props, world.CatProp{Cat: 1 << i, Len: 1})
	}
	return c
}

var (
	chars  = naturalChars()
	shared = sync.OnceValue(func() *world.Env {
		// single-character words, numerals cheap
		w := &world.World{POS: []world.Pos6{numPos, nounPos, punctPos}, Matrix: world.Matrix{L: 1, R: 1}, Chars: chars,
			Oov: []string{"simple"}, Simple: world.Simple{Cost: 10000, Pos: 1}, Input: []string{"default"}, Rewrite: &world.Rewrite{}}
		for _, r := range "0123456789〇一二三四五六七八九十百千万億兆,.円年月日約第" {
			pos := 0
			if strings.ContainsRune(",.", r) {
				pos = 2
			} else if strings.ContainsRune("円年月日約第", r) {
				pos = 1
			}
			w.Sys.Rows = append(w.Sys.Rows, world.Row{Head: pbt.Str(string(r)), Surface: pbt.Str(string(r)), Cost: 10, Pos: pos, DicForm: -1, Unit: "A",
				Reading: pbt.Str("よみ" + string(r))})
		}
		for _, h := range []string{"10", "百万", "二十", "99"} {
			w.Sys.Rows = append(w.Sys.Rows, world.Row{Head: pbt.Str(h), Surface: pbt.Str(h), Cost: 5, DicForm: -1, Unit: "A"})
		}
		e, err := w.Setup(world.OpenOpt{PathFirst: []gosudachi.PathRewritePlugin{theSpy}})
		pbt.Must(err)
		return e
	})
	theSpy = &spy{}
)

// node is a morpheme given to the plugin.
type node struct {
	Text, Norm pbt.Str
	Pos        int  // 0 numeral, 1 noun, 2 punctuation
	Units      bool // a word that lists units
}

type caseT struct {
	Nodes     []node
	Normalize bool
}

// tok is what a node is.
type tok struct {
	b, e             int
	surf, norm       string
	dict, read       string
	pos              int16
	oov              bool
	dictID, id, cost int
	units            int // how many units and parts it lists
	n                *gosudachi.LatticeNode
}

func snap(path []*gosudachi.LatticeNode) []tok {
	var out []tok
	for _, n := range path {
		wi := n.GetWordInfo()
		out = append(out, tok{n.GetBegin(), n.GetEnd(), wi.Surface, wi.NormalizedForm, wi.DictionaryForm, wi.ReadingForm, wi.PosId, n.IsOOV(),
			n.GetDictionaryId(), n.GetWordId(), n.GetPathCost(), len(wi.AUnitSplit) + len(wi.BUnitSplit), n})
	}
	return out
}

func show(ts []tok) string {
	var p []string
	for _, t := range ts {
		p = append(p, fmt.Sprintf("%s(%s pos %d)", t.surf, t.norm, t.pos))
	}
	return strings.Join(p, " ")
}

// safe checks that everything but correct joining is as before. It returns
// how many groups were joined.
func safe(text *model.Text, before, after []tok, numeric int16, normalize bool) (int, error) {
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\nbefore: %s\nafter:  %s", fmt.Sprintf(f, a...), show(before), show(after))
	}
	joined := 0
	i := 0
	for _, a := range after {
		if i >= len(before) {
			return 0, fail("a morpheme too many")
		}
		b := before[i]
		if a == b {
			i++
			continue
		}
		j := i
		var surf, norm, dict, read string
		for j < len(before) && before[j].e <= a.e {
			m := before[j]
			common := text.Common(m.b, m.e)
			if common&(world.NUMERIC|world.KANJINUMERIC) == 0 && m.norm != "," && m.norm != "." {
				return 0, fail("%q is not numeric but part of %q", m.surf, a.surf)
			}
			surf, norm, dict, read = surf+m.surf, norm+m.norm, dict+m.dict, read+m.read
			j++
		}
		if j == i || a.b != b.b || a.e != before[j-1].e {
			return 0, fail("%q (%d to %d) does not cover morphemes", a.surf, a.b, a.e)
		}
		if a.surf != surf || a.dict != dict || a.read != read {
			return 0, fail("the joined morpheme has surface %q, dictionary form %q, reading %q, want %q, %q, %q", a.surf, a.dict, a.read, surf, dict, read)
		}
		if b.pos != numeric || a.pos != numeric {
			return 0, fail("%q begins with a morpheme that is not a numeral (part of speech %d, joined %d)", a.surf, b.pos, a.pos)
		}
		if j-i == 1 && a.norm == norm {
			return 0, fail("%q, a numeral with the right normalized form, was replaced", a.surf)
		}
		if a.units != 0 {
			return 0, fail("%q, which is joined, lists units", a.surf)
		}
		if a.oov || a.dictID != -1 {
			return 0, fail("%q: unknown word %v, dictionary %d", a.surf, a.oov, a.dictID)
		}
		v, ok := model.Number(norm)
		if !ok {
			return 0, fail("%q is not a well-formed number", norm)
		}
		if normalize {
			g, ok := model.PlainDecimal(a.norm)
			if !ok {
				return 0, fail("the normalized form of %q is %q: not a plain decimal number", norm, a.norm)
			}
			if g.Cmp(v) != 0 {
				return 0, fail("the normalized form of %q is %q, want %s", norm, a.norm, v.FloatString(30))
			}
		} else {
			if j-i == 1 {
				return 0, fail("%q replaced although normalization is off", a.surf)
			}
			if a.norm != norm {
				return 0, fail("the normalized form of %q is %q (normalization is off)", norm, a.norm)
			}
		}
		joined++
		i = j
	}
	if i != len(before) {
		return 0, fail("morphemes are missing")
	}
	return joined, nil
}

func rewrite(c caseT) (text *model.Text, before, after []tok, numeric int16, err error) {
	shared()
	g := theSpy.g
	var s strings.Builder
	for _, n := range c.Nodes {
		s.WriteString(string(n.Text))
	}
	cc := dictionary.NewCharacterCategory()
	pbt.Must(cc.ReadCharacterDefinition(strings.NewReader(chars.Source())))
	in := gosudachi.NewInputTextBuilder(s.String(), &dictionary.Grammar{CharCategory: cc}).Build()
	text = model.NewText(&chars, s.String())
	ids := []int16{g.GetPartOfSpeechId(numPos.List()), g.GetPartOfSpeechId(nounPos.List()), g.GetPartOfSpeechId(punctPos.List())}
	var path []*gosudachi.LatticeNode
	at := 0
	for i, n := range c.Nodes {
		x := &gosudachi.LatticeNode{}
		x.SetRange(at, at+len(n.Text))
		x.SetParameter(0, 0, int16(i))
		x.SetWordInfo(&dictionary.WordInfo{Surface: string(n.Text), HeadwordLength: int16(len(n.Text)), PosId: ids[n.Pos], NormalizedForm: string(n.Norm),
			DictionaryForm: fmt.Sprintf("d%d", i), ReadingForm: fmt.Sprintf("r%d", i)})
		if n.Units {
			x.GetWordInfo().AUnitSplit, x.GetWordInfo().BUnitSplit = []int32{1, 2}, []int32{1, 2}
		}
		path = append(path, x)
		at += len(n.Text)
	}
	before = snap(path)
	b := c.Normalize
	p := gosudachi.NewJoinNumericPlugin(&gosudachi.JoinNumericPluginConfig{EnableNormalize: &b})
	if e := p.SetUp(g); e != nil {
		return nil, nil, nil, 0, fmt.Errorf("the plugin cannot be set up: %v", e)
	}
	if e := p.Rewrite(in, &path, gosudachi.NewLattice(g)); e != nil {
		return nil, nil, nil, 0, fmt.Errorf("%s: %v", show(before), e)
	}
	return text, before, snap(path), ids[0], nil
}

var full = map[rune]rune{'０': '0', '１': '1', '２': '2', '３': '3', '４': '4', '５': '5', '６': '6', '７': '7', '８': '8', '９': '9', '，': ',', '．': '.'}

// genAny draws any sequence of numeric and other morphemes.
func genAny(max int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		c := caseT{Normalize: rapid.IntRange(0, 3).Draw(t, "normalize") > 0}
		for i := rapid.IntRange(0, max).Draw(t, "n"); i > 0; i-- {
			var s string
			n := node{}
			switch rapid.IntRange(0, 11).Draw(t, "kind") {
			case 0, 1, 2, 3:
				s = string(world.Pick(t, "d", []rune("0123456789")))
			case 4:
				s = string(world.Pick(t, "k", []rune("〇一二九")))
			case 5, 6:
				s = string(world.Pick(t, "u", []rune("十百千万億兆")))
			case 7:
				s = string(world.Pick(t, "c", []rune(",，")))
				n.Pos = 2
			case 8:
				s = string(world.Pick(t, "p", []rune(".．")))
				n.Pos = 2
			case 9:
				s = world.Pick(t, "m", []string{"10", "000", "123", "百万", "二十", "1,234", "1.5", "１２３", "一〇"})
			case 10:
				s = world.Pick(t, "o", []string{"円", "年", "約", "、", "ア", "①", "½", "ab"})
				n.Pos = 1
			default:
				s = world.Pick(t, "w", []string{"1", "2", "000"})
			}
			n.Text = pbt.Str(s)
			n.Norm = pbt.Str(strings.Map(func(r rune) rune {
				if x, ok := full[r]; ok {
					return x
				}
				return r
			}, s))
			if world.Chance(t, "othernorm", 6) {
				n.Norm = pbt.Str(world.Pick(t, "norm", []string{"1", "〇", "x", ",", ".", "1,000", "百", "2.5", "円"}))
			}
			if world.Chance(t, "otherpos", 6) {
				n.Pos = rapid.IntRange(0, 2).Draw(t, "pos")
			}
			n.Units = world.Chance(t, "units", 6)
			c.Nodes = append(c.Nodes, n)
		}
		return c
	}
}

func checkAny(c caseT, st *pbt.Stats) error {
	text, before, after, numeric, err := rewrite(c)
	if err != nil {
		return err
	}
	joined, err := safe(text, before, after, numeric, c.Normalize)
	if err != nil {
		return err
	}
	if joined > 0 && len(after) > 1 {
		st.NonTrivial()
	}
	all := show(before)
	st.ClassIf(joined > 1, "two numbers or more")
	st.ClassIf(strings.Contains(all, "(, ") || strings.Contains(all, "(. "), "separators")
	st.ClassIf(!c.Normalize && joined > 0, "normalization off")
	st.ClassIf(joined == 0 && len(before) > 1, "nothing joined")
	return nil
}

// numT is a number in canonical form, in pieces, with what is around it.
type numT struct {
	Before []pbt.Str // other morphemes (a separator last)
	Pieces []pbt.Str
	After  pbt.Str // a separator that does not belong to the number, or nothing
}

type textT struct {
	Nums      []numT
	Last      []pbt.Str
	Normalize bool
	Full      bool // full-width forms in the text
}

const kanji = "〇一二三四五六七八九"

func drawDigits(t *rapid.T, n int, first bool) string {
	style := rapid.IntRange(0, 3).Draw(t, "style")
	var b strings.Builder
	for i := 0; i < n; i++ {
		lo := 0
		if i == 0 && first {
			lo = 1
		}
		d := rapid.IntRange(lo, 9).Draw(t, "digit")
		k := style == 1 || style == 2 && rapid.Bool().Draw(t, "kanji")
		if k {
			b.WriteRune([]rune(kanji)[d])
		} else {
			b.WriteByte(byte('0' + d))
		}
	}
	return b.String()
}

func commas(s string) string {
	r := []rune(s)
	var b strings.Builder
	for i, c := range r {
		if i > 0 && (len(r)-i)%3 == 0 {
			b.WriteByte(',')
		}
		b.WriteRune(c)
	}
	return b.String()
}

// drawSub draws a value below 10000 or, without bound, any digits.
func drawSub(t *rapid.T, bounded, point bool) string {
	withPoint := func(s string) string {
		if point && world.Chance(t, "point", 35) {
			s += "." + drawDigits(t, rapid.IntRange(1, 5).Draw(t, "decimals"), false)
		}
		return s
	}
	if rapid.Bool().Draw(t, "small units") {
		var b strings.Builder
		for _, u := range "千百十" {
			if rapid.Bool().Draw(t, "unit") {
				if rapid.Bool().Draw(t, "mult") {
					b.WriteString(drawDigits(t, 1, true))
				}
				b.WriteRune(u)
			}
		}
		if b.Len() == 0 || rapid.Bool().Draw(t, "ones") {
			b.WriteString(withPoint(drawDigits(t, 1, true)))
		}
		return b.String()
	}
	if point && world.Chance(t, "zero", 15) {
		return withPoint("0")
	}
	if !bounded && world.Chance(t, "many and a small unit", 20) {
		s := drawDigits(t, rapid.IntRange(1, 6).Draw(t, "ndigits"), true)
		if rapid.Bool().Draw(t, "commas") {
			s = commas(s)
		}
		if point && rapid.Bool().Draw(t, "point") {
			s += "." + drawDigits(t, rapid.IntRange(1, 4).Draw(t, "decimals"), false)
		} else if rapid.Bool().Draw(t, "ones") {
			return s + string(world.Pick(t, "unit", []rune("十百千"))) + drawDigits(t, 1, true)
		}
		return s + string(world.Pick(t, "unit", []rune("十百千")))
	}
	if bounded {
		s := drawDigits(t, rapid.IntRange(1, 4).Draw(t, "ndigits"), true)
		if len([]rune(s)) == 4 && rapid.Bool().Draw(t, "comma4") {
			s = commas(s)
		}
		return withPoint(s)
	}
	n := rapid.IntRange(1, 24).Draw(t, "ndigits")
	if world.Chance(t, "very many", 5) {
		n = rapid.IntRange(25, 90).Draw(t, "nvery")
	}
	s := drawDigits(t, n, true)
	if world.Chance(t, "hundreds", 2) {
		s = manyDigits(t, true)
	}
	if rapid.Bool().Draw(t, "commas") {
		s = commas(s)
	}
	if point && world.Chance(t, "hundreds of decimals", 2) {
		return s + "." + manyDigits(t, false)
	}
	return withPoint(s)
}

// manyDigits draws some hundred digits.
func manyDigits(t *rapid.T, first bool) string {
	block := drawDigits(t, rapid.IntRange(1, 4).Draw(t, "nblock"), first)
	if rapid.Bool().Draw(t, "zeros") {
		block = world.Pick(t, "zero", []string{"0", "〇"})
	}
	s := drawDigits(t, rapid.IntRange(1, 3).Draw(t, "nfirst"), first)
	n := world.Pick(t, "nmany", []int{90, 101, 126, 130, 254, 257, 259, 300, 513, 700})
	for k := 0; k < n; k += len([]rune(block)) {
		s += block
	}
	if rapid.Bool().Draw(t, "end") {
		s += drawDigits(t, rapid.IntRange(1, 3).Draw(t, "nend"), false)
	}
	return s
}

// genWide draws groups of digits whose lengths look alike in eight bits.
func genWide(t *rapid.T) caseT {
	c := caseT{Normalize: rapid.IntRange(0, 3).Draw(t, "normalize") > 0}
	// a unit, many digits, a point: does what follows the unit fit below it?
	form := []int{5, 2, 6, 0}
	for i := rapid.IntRange(1, 7).Draw(t, "n"); i > 0; i-- {
		kind := rapid.IntRange(0, 5).Draw(t, "kind")
		if len(c.Nodes) == 0 && len(form) == 4 && world.Chance(t, "form", 80) {
			form = nil
		}
		if len(form) > 0 {
			kind, form = form[0], form[1:]
		}
		n := node{}
		switch kind {
		case 0, 1:
			n.Text = pbt.Str(strings.Repeat(world.Pick(t, "d", []string{"1", "0", "5"}), rapid.IntRange(1, 3).Draw(t, "few")))
		case 2:
			n.Text = pbt.Str(strings.Repeat(world.Pick(t, "d", []string{"1", "0", "一"}), world.Pick(t, "many", []int{97, 127, 128, 131, 255, 256, 257, 258, 259, 260, 515})))
		case 3, 4:
			n.Text, n.Pos = pbt.Str(world.Pick(t, "s", []string{",", ",", "."})), 2
		case 6:
			n.Text, n.Pos = ".", 2
		default:
			n.Text = pbt.Str(string(world.Pick(t, "u", []rune("十千万兆円"))))
		}
		n.Norm = n.Text
		c.Nodes = append(c.Nodes, n)
	}
	return c
}

func drawNumber(t *rapid.T) string {
	var units []rune
	for _, u := range "兆億万" {
		if world.Chance(t, "large", 25) {
			units = append(units, u)
		}
	}
	if len(units) == 0 || rapid.Bool().Draw(t, "rest") {
		units = append(units, 0)
	}
	var b strings.Builder
	for i, u := range units {
		last := i == len(units)-1
		// a decimal point only where nothing smaller follows
		b.WriteString(drawSub(t, i > 0, last))
		if u != 0 {
			b.WriteRune(u)
		}
	}
	return b.String()
}

func pieces(t *rapid.T, s string, single bool) []pbt.Str {
	var out []pbt.Str
	kind := func(r rune) int {
		switch {
		case r == ',':
			return 0
		case r == '.':
			return 1
		case r >= '0' && r <= '9':
			return 2
		case r == '〇':
			return 4 // shares one category with its neighbours, not both
		}
		return 3
	}
	last := -1
	for _, r := range s {
		k := kind(r)
		if !single && k == last && k >= 2 && rapid.Bool().Draw(t, "glue") {
			out[len(out)-1] += pbt.Str(r)
		} else {
			out = append(out, pbt.Str(r))
		}
		last = k
	}
	return out
}

func genText(single bool) func(t *rapid.T) textT {
	return func(t *rapid.T) textT {
		c := textT{Normalize: rapid.IntRange(0, 3).Draw(t, "normalize") > 0}
		c.Full = rapid.Bool().Draw(t, "full")
		others := []pbt.Str{"円", "年", "約", "第", "ア", "ゝ", "、"}
		for i := rapid.IntRange(1, 3).Draw(t, "numbers"); i > 0; i-- {
			s := drawNumber(t)
			n := numT{Pieces: pieces(t, s, single)}
			if len(c.Nums) > 0 || rapid.Bool().Draw(t, "before") {
				for k := rapid.IntRange(1, 2).Draw(t, "nbefore"); k > 0; k-- {
					n.Before = append(n.Before, world.Pick(t, "other", others))
				}
			}
			var seps []pbt.Str
			if !strings.Contains(s, ",") {
				seps = append(seps, ",")
			}
			if !strings.Contains(s, ".") {
				seps = append(seps, ".")
			}
			if len(seps) > 0 && world.Chance(t, "leading", 15) {
				n.Before = append(n.Before, world.Pick(t, "sep", seps))
			}
			// a separator of a kind that the number has too is taken for a
			// malformed number, except a comma after a group of thousands
			seps = seps[:0]
			if !strings.Contains(s, ".") {
				seps = append(seps, ".")
			}
			if i := strings.LastIndexAny(s, ",十百千万億兆"); !strings.Contains(s, ",") || s[i] == ',' && !strings.Contains(s, ".") {
				seps = append(seps, ",")
			}
			if len(n.Before) > 0 && (n.Before[len(n.Before)-1] == "," || n.Before[len(n.Before)-1] == ".") {
				seps = nil
			}
			if len(seps) > 0 && world.Chance(t, "trailing", 30) {
				n.After = world.Pick(t, "sep", seps)
			}
			c.Nums = append(c.Nums, n)
		}
		for k := rapid.IntRange(0, 2).Draw(t, "nlast"); k > 0; k-- {
			c.Last = append(c.Last, world.Pick(t, "other", others))
		}
		return c
	}
}

// want gives the expected morphemes (text and normalized form).
func (c *textT) want() [][2]string {
	var out [][2]string
	for _, n := range c.Nums {
		for _, b := range n.Before {
			out = append(out, [2]string{string(b), string(b)})
		}
		s := ""
		for _, p := range n.Pieces {
			s += string(p)
		}
		norm := s
		if c.Normalize {
			v, ok := model.Number(s)
			if !ok {
				pbt.Must(fmt.Errorf("the generator gave %q", s))
			}
			norm = v.FloatString(len(s) + 20)
			norm = strings.TrimRight(strings.TrimRight(norm, "0"), ".")
			if norm == "" {
				norm = "0"
			}
		}
		out = append(out, [2]string{s, norm})
		if n.After != "" {
			out = append(out, [2]string{string(n.After), string(n.After)})
		}
	}
	for _, b := range c.Last {
		out = append(out, [2]string{string(b), string(b)})
	}
	return out
}

func classes(c *textT, st *pbt.Stats) {
	multi := 0
	for _, n := range c.Nums {
		s := ""
		for _, p := range n.Pieces {
			s += string(p)
		}
		if len(n.Pieces) > 1 {
			multi++
		}
		st.ClassIf(strings.Contains(s, "."), "decimal point")
		st.ClassIf(strings.Contains(s, ","), "thousands comma")
		st.ClassIf(strings.ContainsAny(s, "十百千"), "small unit")
		st.ClassIf(strings.ContainsAny(s, "万億兆"), "large unit")
		st.ClassIf(strings.ContainsAny(s, "万億兆") && strings.Contains(s, "."), "large unit and point")
		st.ClassIf(n.After != "", "separator after the number")
		st.ClassIf(len(n.Before) > 0 && strings.ContainsAny(string(n.Before[len(n.Before)-1]), ",."), "separator before the number")
		st.ClassIf(len([]rune(s)) > 16, "17 characters or more")
		st.ClassIf(len([]rune(s)) > 256, "more than 256 characters")
		st.ClassIf(len(n.Pieces) > 300, "more than 300 pieces")
	}
	st.ClassIf(!c.Normalize, "normalization off")
	if multi > 0 {
		st.NonTrivial()
	}
}

// samePlain compares normalized forms, tolerating leading zeros.
func samePlain(got, want string) bool {
	if got == want {
		return true
	}
	g, ok := model.PlainDecimal(got)
	w, ok2 := model.PlainDecimal(want)
	return ok && ok2 && g.Cmp(w) == 0
}

func compare(got, want [][2]string) error {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i][0] == want[i][0] && samePlain(got[i][1], want[i][1])
	}
	if !ok {
		return fmt.Errorf("got  %q\nwant %q", got, want)
	}
	return nil
}

// checkCanonical: every number is joined as a whole (direct calls).
func checkCanonical(c textT, st *pbt.Stats) error {
	d := caseT{Normalize: c.Normalize}
	other := func(s pbt.Str) {
		pos := 1
		if s == "," || s == "." {
			pos = 2
		}
		d.Nodes = append(d.Nodes, node{Text: s, Norm: s, Pos: pos})
	}
	for _, n := range c.Nums {
		for _, b := range n.Before {
			other(b)
		}
		for _, p := range n.Pieces {
			pos := 0
			if p == "," || p == "." {
				pos = 2
			}
			d.Nodes = append(d.Nodes, node{Text: p, Norm: p, Pos: pos})
		}
		if n.After != "" {
			other(n.After)
		}
	}
	for _, b := range c.Last {
		other(b)
	}
	text, before, after, numeric, err := rewrite(d)
	if err != nil {
		return err
	}
	if _, err := safe(text, before, after, numeric, c.Normalize); err != nil {
		return err
	}
	var got [][2]string
	for _, a := range after {
		got = append(got, [2]string{a.surf, a.norm})
	}
	if err := compare(got, c.want()); err != nil {
		return fmt.Errorf("%s:\n%v", show(before), err)
	}
	classes(&c, st)
	return nil
}

var env [2]*world.Env

// tokenizer gives a tokenizer with the plugin, normalization on or off.
func tokenizer(normalize bool) *gosudachi.JapaneseTokenizer {
	i := 0
	if normalize {
		i = 1
	}
	if env[i] == nil {
		w := *shared().W
		w.Path = []world.PathPlugin{{Kind: "numeric", Normalize: normalize}}
		e, err := w.Setup(world.OpenOpt{})
		pbt.Must(err)
		env[i] = e
	}
	return env[i].Tok
}

// checkTokenize: the same through tokenization.
func checkTokenize(c textT, st *pbt.Stats) error {
	want := c.want()
	var b strings.Builder
	for i := range want {
		s := want[i][0]
		if c.Full {
			s = strings.Map(func(r rune) rune {
				switch {
				case r >= '0' && r <= '9':
					return r - '0' + '０'
				case r == ',':
					return '，'
				case r == '.':
					return '．'
				}
				return r
			}, s)
		}
		want[i][0] = s
		b.WriteString(s)
	}
	ms, err := tokenizer(c.Normalize).Tokenize("C", b.String())
	if err != nil {
		return fmt.Errorf("%q: %v", b.String(), err)
	}
	var got [][2]string
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		got = append(got, [2]string{m.Surface(), m.NormalizedForm()})
	}
	if err := compare(got, want); err != nil {
		return fmt.Errorf("%q:\n%v", b.String(), err)
	}
	classes(&c, st)
	return nil
}

type worldT struct {
	W     *world.World
	Texts []pbt.Str
}

func genWorld(t *rapid.T) worldT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 14, MaxUsers: 1, Profile: 1, NoFail: true, Input: true})
	w.Path = []world.PathPlugin{{Kind: "numeric", Normalize: rapid.IntRange(0, 3).Draw(t, "normalize") > 0}}
	c := worldT{W: w}
	for i := rapid.IntRange(1, 4).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 12)))
	}
	return c
}

// checkWorld compares the path before and after the plugin in any configuration.
func checkWorld(c worldT, st *pbt.Stats) error {
	var before []tok
	var verr error
	joined := 0
	g := &spy{}
	e, err := c.W.Setup(world.OpenOpt{
		PathFirst: []gosudachi.PathRewritePlugin{g, &world.Capture{Fn: func(_ *gosudachi.InputText, path *[]*gosudachi.LatticeNode, _ *gosudachi.Lattice) error {
			before = snap(*path)
			return nil
		}}},
		PathLast: []gosudachi.PathRewritePlugin{&world.Capture{Fn: func(in *gosudachi.InputText, path *[]*gosudachi.LatticeNode, _ *gosudachi.Lattice) error {
			n, err := safe(model.NewText(&c.W.Chars, in.GetText()), before, snap(*path), g.g.GetPartOfSpeechId(numPos.List()), c.W.Path[0].Normalize)
			if err != nil && verr == nil {
				verr = err
			}
			joined += n
			return nil
		}}},
	})
	if err != nil {
		return err
	}
	defer e.Close()
	ran := 0
	for _, s := range c.Texts {
		if _, err := e.Tok.Tokenize("C", string(s)); err == nil {
			ran++
		}
		if verr != nil {
			return fmt.Errorf("%q: %v", string(s), verr)
		}
	}
	if ran == 0 {
		return pbt.Skip("no text could be analysed")
	}
	if joined > 0 {
		st.NonTrivial()
	}
	st.ClassIf(len(c.W.Users) > 0 && joined > 0, "with a user dictionary")
	return nil
}

func main() {
	pbt.Main("C19",
		pbt.S("any", 150000, 4000000, "something was joined and another morpheme remains", genAny(14), checkAny),
		pbt.S("wide", 4000, 100000, "something was joined and another morpheme remains", genWide, checkAny),
		pbt.S("canonical", 100000, 2000000, "a number of more than one piece", genText(false), checkCanonical),
		pbt.S("tokenize", 50000, 1000000, "a number of more than one piece", genText(true), checkTokenize),
		pbt.S("worlds", 4000, 60000, "something was joined", genWorld, checkWorld),
	)
}
