// C18: character categories and input-text queries follow the category definition.
package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	Def   world.CharDef
	Texts []pbt.Str
	Edits []model.Edit
	Extra []rune
}

func drawText(t *rapid.T, alpha []rune, max int) string {
	var b strings.Builder
	for i := rapid.IntRange(0, max).Draw(t, "len"); i > 0; i-- {
		r := world.Pick(t, "char", alpha)
		if world.Chance(t, "any", 8) {
			r = rapid.Rune().Draw(t, "rune")
		}
		for n := world.Pick(t, "rep", []int{1, 1, 2, 3}); n > 0; n-- {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func gen(max int) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		alpha := world.Alphabet(t, 0)
		c := caseT{Def: world.DrawChars(t, alpha)}
		for i := rapid.IntRange(1, 3).Draw(t, "ntexts"); i > 0; i-- {
			c.Texts = append(c.Texts, pbt.Str(drawText(t, alpha, max)))
		}
		if world.Chance(t, "edited", 30) {
			c.Edits = model.DrawEdits(t, alpha, 3)
		}
		if world.Chance(t, "many ranges", 1) {
			// what the alphabet is comes after them
			var many []world.Range
			for i := world.Pick(t, "nranges", []int{70, 130, 260, 1030, 4100}); i > 0; i-- {
				many = append(many, world.Range{Lo: 0x20000 + rune(i*2), Hi: 0x20000 + rune(i*2), Cats: world.KANJI})
			}
			c.Def.Ranges = append(many, c.Def.Ranges...)
		}
		for i := rapid.IntRange(0, 4).Draw(t, "nextra"); i > 0; i-- {
			c.Extra = append(c.Extra, rapid.Rune().Draw(t, "extra"))
		}
		return c
	}
}

// queries compares every query on a prepared text.
func queries(in *gosudachi.InputText, t *model.Text, st *pbt.Stats) error {
	n := len(t.Runes)
	for i := 0; i <= n; i++ {
		b := t.At[i]
		if i < n {
			if g := in.GetCharCategoryTypes(b); g != t.Cats[i] {
				return fmt.Errorf("character %d (%U) has categories %#x, want %#x", i, t.Runes[i], g, t.Cats[i])
			}
			if g, w := in.GetCharCategoryContinuousLength(b), t.RunEnd(b)-b; g != w {
				return fmt.Errorf("the run from byte %d has %d bytes, want %d", b, g, w)
			}
			if g := in.CanBow(b); g != t.CanBegin(i) {
				return fmt.Errorf("a word may begin at byte %d: %v, want %v", b, g, t.CanBegin(i))
			}
			for k := b; k < t.At[i+1]; k++ {
				if g := in.IsCharAlignment(k); g != (k == b) {
					return fmt.Errorf("byte %d is the first of a character: %v", k, g)
				}
				if k > b && in.CanBow(k) {
					return fmt.Errorf("a word may begin at byte %d inside a character", k)
				}
				if g := in.GetOffsetTextLength(k); g != i {
					return fmt.Errorf("byte %d belongs to character %d, want %d", k, g, i)
				}
			}
			for k := 0; k <= n-i+2; k++ {
				w := len(t.S) - b
				if i+k < n {
					w = t.At[i+k] - b
				}
				if g := in.GetCodePointsOffsetLength(b, k); g != w {
					return fmt.Errorf("%d characters from byte %d take %d bytes, want %d", k, b, g, w)
				}
			}
		}
		for j := i; j <= n; j++ {
			e := t.At[j]
			if g := in.GetSubstring(b, e); g != t.S[b:e] {
				return fmt.Errorf("bytes %d to %d are %q, want %q", b, e, g, t.S[b:e])
			}
			if g := in.CodePointCount(b, e); g != j-i {
				return fmt.Errorf("bytes %d to %d hold %d characters, want %d", b, e, g, j-i)
			}
			if j > i {
				w := t.Common(b, e)
				if g := in.GetCharCategoryTypesRange(b, e); g != w {
					return fmt.Errorf("bytes %d to %d share categories %#x, want %#x", b, e, g, w)
				}
				st.ClassIf(j-i > 2 && w != 0, "three characters or more share a category")
				var node gosudachi.LatticeNode
				node.SetRange(b, e)
				if g := gosudachi.GetCharCategoryTypes(in, &node); g != w {
					return fmt.Errorf("a node from %d to %d has categories %#x, want %#x", b, e, g, w)
				}
			}
		}
		if i < n {
			st.ClassIf(!t.CanBegin(i), "character at which no word begins")
			st.ClassIf(t.Cats[i]&(t.Cats[i]-1) != 0, "character of several categories")
			if t.RunEnd(b) != t.At[i+1] {
				st.NonTrivial()
			}
		}
	}
	return nil
}

func check(c caseT, st *pbt.Stats) error {
	cc := dictionary.NewCharacterCategory()
	if err := cc.ReadCharacterDefinition(strings.NewReader(c.Def.Source())); err != nil {
		return fmt.Errorf("reading the definition: %v", err)
	}
	g := &dictionary.Grammar{CharCategory: cc}
	ask := append([]rune{0, 'a', 0x10ffff}, c.Extra...)
	for _, r := range c.Def.Ranges {
		ask = append(ask, r.Lo-1, r.Lo, r.Hi, r.Hi+1)
	}
	for _, r := range ask {
		if r < 0 {
			continue
		}
		if got, want := cc.GetCategoryTypes(r), model.Cats(&c.Def, r); got != want {
			return fmt.Errorf("%U has categories %#x, want %#x", r, got, want)
		}
	}
	for _, x := range c.Texts {
		text := string(x)
		b := gosudachi.NewInputTextBuilder(text, g)
		s := model.NewSeq(text)
		for _, e := range c.Edits {
			e.Apply(b, s)
		}
		if err := queries(b.Build(), model.NewText(&c.Def, string(s.R)), st); err != nil {
			return fmt.Errorf("%q: %v", string(s.R), err)
		}
	}
	return nil
}

// --- runs of more than 2^16 bytes

type hugeT struct {
	Def  world.CharDef
	Text []piece
	At   []int // where to ask, in characters modulo the length
	Wide []int // how many characters to ask for
}

type piece struct {
	S pbt.Str
	N int
}

func genHuge(t *rapid.T) hugeT {
	alpha := world.Alphabet(t, 0)
	c := hugeT{Def: world.DrawChars(t, alpha)}
	short := func() {
		for i := rapid.IntRange(0, 2).Draw(t, "nshort"); i > 0; i-- {
			c.Text = append(c.Text, piece{pbt.Str(drawText(t, alpha, 4)), 1})
		}
	}
	short()
	for i := rapid.IntRange(1, 2).Draw(t, "nlong"); i > 0; i-- {
		r := string(world.Pick(t, "char", alpha))
		if rapid.Bool().Draw(t, "two") {
			r += string(world.Pick(t, "char2", alpha))
		}
		bytes := world.Pick(t, "bytes", []int{300, 32766, 32768, 65535, 65536, 65537, 70000, 131072, 140000}) + rapid.IntRange(-3, 3).Draw(t, "off")
		c.Text = append(c.Text, piece{pbt.Str(r), bytes/len(r) + 1})
		short()
	}
	c.At = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 4, 12).Draw(t, "at")
	c.Wide = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 1, 4).Draw(t, "wide")
	return c
}

func checkHuge(c hugeT, st *pbt.Stats) error {
	cc := dictionary.NewCharacterCategory()
	if err := cc.ReadCharacterDefinition(strings.NewReader(c.Def.Source())); err != nil {
		return fmt.Errorf("reading the definition: %v", err)
	}
	var sb strings.Builder
	for _, p := range c.Text {
		for i := 0; i < p.N; i++ {
			sb.WriteString(string(p.S))
		}
	}
	t := model.NewText(&c.Def, sb.String())
	in := gosudachi.NewInputTextBuilder(t.S, &dictionary.Grammar{CharCategory: cc}).Build()
	n := len(t.Runes)
	long := 0
	for i := 0; i < n; i++ {
		b := t.At[i]
		if g := in.GetCharCategoryTypes(b); g != t.Cats[i] {
			return fmt.Errorf("character %d (%U) has categories %#x, want %#x", i, t.Runes[i], g, t.Cats[i])
		}
		w := t.RunEnd(b) - b
		long = max(long, w)
		if g := in.GetCharCategoryContinuousLength(b); g != w {
			return fmt.Errorf("the run from byte %d has %d bytes, want %d", b, g, w)
		}
		if g := in.CanBow(b); g != t.CanBegin(i) {
			return fmt.Errorf("a word may begin at byte %d: %v, want %v", b, g, t.CanBegin(i))
		}
		for k := b; k < t.At[i+1]; k++ {
			if g := in.IsCharAlignment(k); g != (k == b) {
				return fmt.Errorf("byte %d is the first of a character: %v", k, g)
			}
			if g := in.GetOffsetTextLength(k); g != i {
				return fmt.Errorf("byte %d belongs to character %d, want %d", k, g, i)
			}
		}
	}
	for _, a := range append(c.At, 0, 1<<20) {
		i := a % n
		if a == 1<<20 {
			i = n - 1
		}
		b := t.At[i]
		for _, k := range append(c.Wide, 0, 1, 2, 1<<20) {
			j := i + k%(n-i+2)
			if k == 1<<20 {
				j = t.Char[t.RunEnd(b)]
			}
			e := t.At[min(j, n)]
			if g := in.GetCodePointsOffsetLength(b, j-i); g != e-b {
				return fmt.Errorf("%d characters from byte %d take %d bytes, want %d", j-i, b, g, e-b)
			}
			if j = min(j, n); j == i {
				continue
			}
			if g := in.GetSubstring(b, e); g != t.S[b:e] {
				return fmt.Errorf("bytes %d to %d differ from the text", b, e)
			}
			if g := in.CodePointCount(b, e); g != j-i {
				return fmt.Errorf("bytes %d to %d hold %d characters, want %d", b, e, g, j-i)
			}
			if g, w := in.GetCharCategoryTypesRange(b, e), t.Common(b, e); g != w {
				return fmt.Errorf("bytes %d to %d share categories %#x, want %#x", b, e, g, w)
			}
		}
	}
	st.ClassIf(n > 65535, "more than 65,535 characters")
	st.ClassIf(long > 32767, "run of more than 32,767 bytes")
	if long > 65535 {
		st.Class("run of more than 65,535 bytes")
		st.NonTrivial()
	}
	return nil
}

// --- definition files as text

type fileT struct {
	Src  pbt.Str
	Text pbt.Str
	Ask  []rune
}

func genFile(t *rapid.T) fileT {
	alpha := world.Alphabet(t, 0)
	def := world.DrawChars(t, alpha)
	lines := strings.Split(strings.TrimSuffix(def.Source(), "\n"), "\n")
	frags := []string{"", "0x", "0x41", "0x0041", "0x041", "0x4", "0x12345", "0x10FFFF", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "0xg", "0x-1", "0x+1", "41", "0X41", "0x41..", "0x41..0x5A", "0x41..5A", "0x5A..0x41",
		"0x41...0x42", "..0x41", "0x41..0x42..0x43", "ALPHA", "alpha", "NOSUCH", "DEFAULT", "#", "#x", "USER1", "0x1_0", "0x 41", "0x41-0x42", "ＡＬＰＨＡ"}
	for i := rapid.IntRange(0, 2).Draw(t, "nmut"); i > 0; i-- {
		k := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
		cells := strings.Split(lines[k], " ")
		j := rapid.IntRange(0, len(cells)-1).Draw(t, "cell")
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			cells = append(cells[:j:j], cells[j+1:]...)
		case 1, 2:
			cells[j] = world.Pick(t, "frag", frags)
		case 3:
			cells = append(cells, world.Pick(t, "frag", frags))
		case 4:
			lines = append(lines, world.Pick(t, "frag", frags)+" "+world.Pick(t, "frag", frags))
		}
		lines[k] = strings.Join(cells, world.Pick(t, "sep", []string{" ", " ", "\t", "  "}))
	}
	nl := world.Pick(t, "nl", []string{"\n", "\n", "\r\n"})
	c := fileT{Src: pbt.Str(strings.Join(lines, nl)), Text: pbt.Str(drawText(t, alpha, 6))}
	if rapid.Bool().Draw(t, "final") {
		c.Src += pbt.Str(nl)
	}
	c.Ask = append([]rune("@ABYZ[\x03\x04\x05\U00012345"), rapid.SliceOfN(rapid.Rune(), 0, 3).Draw(t, "ask")...)
	return c
}

var hexNum = regexp.MustCompile(`^0x[0-9A-Fa-f]+$`)

// parse reads a definition; refuse is the reason for refusing it, or "";
func parse(src string) (def world.CharDef, refuse string) {
	for i, l := range strings.Split(src, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, "#") || strings.Trim(l, " \t") == "" {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 2 {
			return def, fmt.Sprintf("line %d has one field", i+1)
		}
		if !strings.HasPrefix(f[0], "0x") {
			continue // a property line
		}
		parts := strings.Split(f[0], "..")
		var n []rune
		for _, p := range parts {
			if !hexNum.MatchString(p) {
				return def, fmt.Sprintf("line %d has no number", i+1)
			}
			v, err := strconv.ParseUint(p[2:], 16, 64)
			if err != nil || v > 0x7fffffff {
				return def, fmt.Sprintf("line %d has a number that is too large", i+1)
			}
			n = append(n, rune(v))
		}
		if len(n) > 2 {
			return def, fmt.Sprintf("line %d has more than two ends of a range", i+1)
		}
		if len(n) == 1 {
			n = append(n, n[0])
		}
		if n[0] > n[1] {
			return def, fmt.Sprintf("line %d has a range that ends before it begins", i+1)
		}
		var cats uint32
		for _, x := range f[1:] {
			if strings.HasPrefix(x, "#") {
				break
			}
			known := false
			for k, name := range world.CatNames {
				if x == name {
					cats |= 1 << k
					known = true
				}
			}
			if !known {
				return def, fmt.Sprintf("line %d has an unknown category", i+1)
			}
		}
		def.Ranges = append(def.Ranges, world.Range{Lo: n[0], Hi: n[1], Cats: cats})
	}
	return def, ""
}

func checkFile(c fileT, st *pbt.Stats) error {
	def, refuse := parse(string(c.Src))
	cc := dictionary.NewCharacterCategory()
	err := cc.ReadCharacterDefinition(strings.NewReader(string(c.Src)))
	if (err != nil) != (refuse != "") {
		return fmt.Errorf("definition %q: error %v; reason for refusing it: %q", string(c.Src), err, refuse)
	}
	if err != nil {
		st.Class("refused: line " + strings.Join(strings.Fields(refuse)[2:], " "))
		st.NonTrivial()
		return nil
	}
	st.Class("accepted")
	ask := append([]rune(nil), c.Ask...)
	for _, r := range def.Ranges {
		ask = append(ask, r.Lo-1, r.Lo, r.Hi, r.Hi+1)
	}
	for _, r := range ask {
		if r < 0 || r > 0x10ffff {
			continue
		}
		if got, want := cc.GetCategoryTypes(r), model.Cats(&def, r); got != want {
			return fmt.Errorf("%U has categories %#x, want %#x (definition %q)", r, got, want, string(c.Src))
		}
	}
	in := gosudachi.NewInputTextBuilder(string(c.Text), &dictionary.Grammar{CharCategory: cc}).Build()
	return queries(in, model.NewText(&def, string(c.Text)), st)
}

// --- the definition that comes with the library

type embT struct {
	Runes []rune
	Text  pbt.Str
}

func checkEmbedded(c embT, st *pbt.Stats) error {
	fd, err := data.Assets.Open("char.def")
	pbt.Must(err)
	defer fd.Close()
	var src strings.Builder
	buf := make([]byte, 4096)
	for {
		n, err := fd.Read(buf)
		src.Write(buf[:n])
		if err != nil {
			break
		}
	}
	def, refuse := parse(src.String())
	if refuse != "" {
		return fmt.Errorf("the definition that comes with the library: %s", refuse)
	}
	cc := dictionary.NewCharacterCategory()
	if err := cc.ReadCharacterDefinition(strings.NewReader(src.String())); err != nil {
		return fmt.Errorf("the definition that comes with the library: %v", err)
	}
	for _, r := range c.Runes {
		if got, want := cc.GetCategoryTypes(r), model.Cats(&def, r); got != want {
			return fmt.Errorf("%U has categories %#x, want %#x", r, got, want)
		}
	}
	in := gosudachi.NewInputTextBuilder(string(c.Text), &dictionary.Grammar{CharCategory: cc}).Build()
	return queries(in, model.NewText(&def, string(c.Text)), st)
}

func main() {
	const rule = "a run of at least two characters"
	pbt.Main("C18",
		pbt.S("queries", 50000, 1000000, rule, gen(10), check),
		pbt.S("longer", 1500, 30000, rule, gen(60), check),
		pbt.S("huge", 150, 3000, "a run of more than 65,535 bytes", genHuge, checkHuge),
		pbt.S("files", 30000, 600000, "the definition is refused, or "+rule, genFile, checkFile),
		pbt.S("embedded", 1200, 50000, rule, func(t *rapid.T) embT {
			c := embT{Text: pbt.Str(drawText(t, world.Alphabet(t, 0), 10))}
			for i := 0; i < 30; i++ {
				c.Runes = append(c.Runes, rapid.Rune().Draw(t, "r"), rapid.Int32Range(0, 0x33ff).Draw(t, "low"))
			}
			return c
		}, checkEmbedded),
	)
}
