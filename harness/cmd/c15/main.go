// C15: default input rewriting normalizes as its definition says and keeps offsets.
package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/data"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	Def   world.Rewrite
	Texts []pbt.Str
	Edits []model.Edit // made before the plugin runs
	Blow  []world.Blow `json:",omitempty"` // one per text: what makes it long
	Keys  []world.Blow `json:",omitempty"` // the same for the sequences that are replaced
	With  []world.Blow `json:",omitempty"` // and for what replaces them
}

var grammar = &dictionary.Grammar{CharCategory: dictionary.NewCharacterCategory()}

func drawText(t *rapid.T, alpha []rune, def *world.Rewrite) string {
	var keys []string
	for _, p := range def.Replace {
		keys = append(keys, string(p[0]))
	}
	var b strings.Builder
	for i := rapid.IntRange(0, 10).Draw(t, "pieces"); i > 0; i-- {
		switch rapid.IntRange(0, 7).Draw(t, "piece") {
		case 0, 1:
			if len(keys) > 0 {
				b.WriteString(world.Pick(t, "key", keys))
			}
		case 2:
			if len(keys) > 0 { // the beginning of a key
				k := []rune(world.Pick(t, "key", keys))
				b.WriteString(string(k[:rapid.IntRange(1, len(k)).Draw(t, "cut")]))
			}
		case 3:
			b.WriteRune(unicode.ToUpper(world.Pick(t, "char", alpha)))
		case 4:
			b.WriteRune(world.Pick(t, "special", []rune("ΣςİıǅßＡａㇰｶﾞ゙㍿㌔ﷺĿﬃⅷⅧ①½²Åのヴｳﾞ\u0301가각豈𝐀😀\ufffd\u200d")))
		case 5:
			b.WriteRune(rapid.Rune().Draw(t, "any"))
		default:
			b.WriteRune(world.Pick(t, "char", alpha))
		}
	}
	if world.Chance(t, "bad", 8) {
		b.WriteString(world.Pick(t, "badbytes", []string{"\xff", "\xe3\x81", "\x80a", "\x00"}))
	}
	return b.String()
}

func gen(t *rapid.T) caseT {
	alpha := world.Alphabet(t, 0)
	c := caseT{Def: *world.DrawRewrite(t, alpha)}
	for i := rapid.IntRange(1, 3).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(drawText(t, alpha, &c.Def)))
	}
	if world.Chance(t, "edited", 30) {
		c.Edits = model.DrawEdits(t, alpha, 3)
	}
	if world.Chance(t, "long", 2) {
		c.stretch(t)
	}
	return c
}

// stretch makes the definition and the texts long.
func (c *caseT) stretch(t *rapid.T) {
	for range c.Def.Replace {
		c.Keys = append(c.Keys, world.DrawBlow(t, 1, 1, 15, 16, 17, 33, 127, 254, 256, 300))
		c.With = append(c.With, world.DrawBlow(t, 1, 1, 17, 127, 129, 255, 257, 1000))
	}
	text := c.def()
	for i := range c.Texts {
		if len(c.Texts[i]) > 0 && rapid.Bool().Draw(t, "again") {
			c.Blow = append(c.Blow, world.DrawBlow(t, 20, 130, 260, 1000))
			continue
		}
		var b strings.Builder
		for k := rapid.IntRange(0, 5).Draw(t, "pieces"); k > 0; k-- {
			if len(text.Replace) > 0 && rapid.Bool().Draw(t, "key?") {
				key := []rune(string(world.Pick(t, "key", text.Replace)[0]))
				if world.Chance(t, "beginning", 25) {
					key = key[:len(key)-1]
				}
				b.WriteString(string(key))
			}
			b.WriteString(world.Pick(t, "char", []string{"", "a", "Ａ", "が", "ｶﾞ"}))
		}
		c.Texts[i] = pbt.Str(b.String())
		c.Blow = append(c.Blow, world.Blow{})
	}
}

// def is the definition with its long sequences.
func (c *caseT) def() *world.Rewrite {
	d := c.Def
	d.Replace = nil
	seen := map[string]bool{}
	for i, p := range c.Def.Replace {
		k, v := world.Blown(c.Keys, i, p[0]), world.Blown(c.With, i, p[1])
		if !seen[k] || len(c.Keys) == 0 {
			d.Replace = append(d.Replace, [2]pbt.Str{pbt.Str(k), pbt.Str(v)})
		}
		seen[k] = true
	}
	return &d
}

// genHuge draws a text that grows or shrinks by more characters than fit in
// 15 bits, or is as long.
func genHuge(t *rapid.T) caseT {
	n := rapid.IntRange(32700, 62000).Draw(t, "n")
	c := caseT{Def: world.Rewrite{Replace: [][2]pbt.Str{{"か", "b"}, {"き", "かき"}, {"くけ", "x"}}}}
	c.With = []world.Blow{{}, {}, {}}
	big := world.Blow{Len: 1, N: n}
	switch rapid.IntRange(0, 2).Draw(t, "what") {
	case 0:
		c.With[0] = big
	case 1:
		c.Keys = []world.Blow{{}, {Len: 1, N: n / 3}, {}}
	}
	var b strings.Builder
	d := c.def()
	for i := rapid.IntRange(4, 7).Draw(t, "pieces"); i > 0; i-- {
		b.WriteString(world.Pick(t, "piece", []string{string(d.Replace[0][0]), string(d.Replace[1][0]), string(d.Replace[2][0]), "さ", "Ｓ"}))
	}
	c.Texts = []pbt.Str{pbt.Str(b.String())}
	if len(c.Keys) == 0 && c.With[0].N == 0 {
		c.Texts[0] = "し" + c.Texts[0]
		c.Blow = []world.Blow{big}
	}
	return c
}

// apply runs the plugin on a text and compares with the model.
func apply(p *gosudachi.DefaultInputTextPlugin, x *model.Rewriting, text string, edits []model.Edit, st *pbt.Stats) error {
	b := gosudachi.NewInputTextBuilder(text, grammar)
	s := model.NewSeq(text)
	for _, e := range edits {
		e.Apply(b, s)
	}
	before := len(s.R)
	if err := p.Rewrite(b); err != nil {
		return fmt.Errorf("%q: %v", text, err)
	}
	rep, nrm := x.Apply(s)
	in := b.Build()
	if err := s.Same(in); err != nil {
		return fmt.Errorf("%q (after %d edits): %v", text, len(edits), err)
	}
	if in.OriginalText != text {
		return fmt.Errorf("%q: the original text becomes %q", text, in.OriginalText)
	}
	if rep+nrm > 1 {
		st.NonTrivial()
	}
	st.ClassIf(rep > 1, "two replacements or more")
	st.ClassIf(nrm > 1, "two normalized characters or more")
	st.ClassIf(len(s.R) > before, "text grows")
	st.ClassIf(len(s.R) < before, "text shrinks")
	st.ClassIf(rep > 0 && len(s.R)-before > 127, "text grows by more than 127 characters")
	st.ClassIf(rep > 0 && len(s.R)-before > 32767, "text grows by more than 32767 characters")
	st.ClassIf(rep > 0 && before-len(s.R) > 128, "text shrinks by more than 128 characters")
	st.ClassIf(len(edits) > 0, "text already edited")
	return nil
}

func check(c caseT, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	def := c.def()
	p := gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: world.Write(filepath.Join(dir, "rewrite.def"), def.Source())})
	if err := p.SetUp(); err != nil {
		return fmt.Errorf("setting up: %v", err)
	}
	x := model.NewRewriting(def)
	over := false
	for a := range x.Replace {
		for b := range x.Replace {
			over = over || a != b && strings.HasPrefix(a, b)
		}
	}
	st.ClassIf(over, "one key begins with another")
	st.ClassIf(len(c.Def.Ignore) > 0, "exempted characters")
	for round := 0; round < 2; round++ {
		for i, s := range c.Texts {
			if err := apply(p, x, world.Blown(c.Blow, i, s), c.Edits, st); err != nil {
				return err
			}
		}
	}
	return nil
}

// --- definition files as text, with and without mistakes

type fileT struct {
	Src   pbt.Str
	Texts []pbt.Str
}

func genFile(t *rapid.T) fileT {
	alpha := world.Alphabet(t, 0)
	def := world.DrawRewrite(t, alpha)
	var c fileT
	lines := strings.Split(strings.TrimSuffix(def.Source(), "\n"), "\n")
	for i := rapid.IntRange(0, 2).Draw(t, "nmut"); i > 0; i-- {
		k := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0:
			lines = append(lines, lines[k])
		case 1:
			lines[k] += world.Pick(t, "more", []string{" x", "x", "\tx", "  ", " #", "\u3000x"})
		case 2:
			lines[k] = world.Pick(t, "pre", []string{" ", "\t", "#", "ab", ""}) + lines[k]
		case 3:
			lines = append(lines, world.Pick(t, "line", []string{"ab", "a b c", "a", "é", "e\u0301", "", " ", "\t ", "#", "a\tb", "ab\tｃ", "\u00a0 a"}))
		case 4:
			lines = append(lines[:k:k], lines[k+1:]...)
			if len(lines) == 0 {
				lines = []string{""}
			}
		case 5:
			lines[k] = strings.ReplaceAll(lines[k], "\t", "    ")
		}
	}
	nl := world.Pick(t, "nl", []string{"\n", "\r\n"})
	c.Src = pbt.Str(strings.Join(lines, nl))
	if rapid.Bool().Draw(t, "final") {
		c.Src += pbt.Str(nl)
	}
	for i := 0; i < 2; i++ {
		c.Texts = append(c.Texts, pbt.Str(drawText(t, alpha, def)))
	}
	return c
}

// parse reads a definition; the reason for refusing it, or "".
func parse(src string) (*model.Rewriting, string) {
	x := &model.Rewriting{Exempt: map[rune]bool{}, Replace: map[string]string{}}
	for i, l := range strings.Split(src, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, "#") || strings.Trim(l, " \t") == "" {
			continue
		}
		f := strings.Fields(l)
		switch len(f) {
		case 1:
			r := []rune(f[0])
			if len(r) != 1 {
				return nil, fmt.Sprintf("line %d exempts a sequence", i+1)
			}
			x.Exempt[r[0]] = true
		case 2:
			if _, ok := x.Replace[f[0]]; ok {
				return nil, fmt.Sprintf("line %d replaces a sequence a second time", i+1)
			}
			x.Replace[f[0]] = f[1]
		default:
			return nil, fmt.Sprintf("line %d has %d fields", i+1, len(f))
		}
	}
	return x, ""
}

func checkFile(c fileT, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	if strings.HasSuffix(string(c.Src), "\r") {
		return nil
	}
	p := gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: world.Write(filepath.Join(dir, "rewrite.def"), string(c.Src))})
	err := p.SetUp()
	x, refuse := parse(string(c.Src))
	if (err != nil) != (refuse != "") {
		return fmt.Errorf("definition %q: error %v; reason for refusing it: %q", string(c.Src), err, refuse)
	}
	if err != nil {
		f := strings.Fields(refuse)
		st.Class("refused: line " + strings.Join(f[2:], " "))
		st.NonTrivial()
		return nil
	}
	st.Class("accepted")
	for _, s := range c.Texts {
		if err := apply(p, x, string(s), nil, st); err != nil {
			return err
		}
	}
	return nil
}

// --- the definition that comes with the library

type embT struct{ Texts []pbt.Str }

func checkEmbedded(c embT, st *pbt.Stats) error {
	fd, err := data.Assets.Open("rewrite.def")
	pbt.Must(err)
	defer fd.Close()
	var src strings.Builder
	buf := make([]byte, 4096)
	for {
		n, err := fd.Read(buf)
		src.Write(buf[:n])
		if err != nil {
			break
		}
	}
	x, refuse := parse(src.String())
	if refuse != "" {
		return fmt.Errorf("the definition that comes with the library: %s", refuse)
	}
	p := gosudachi.NewDefaultInputTextPlugin(nil)
	if err := p.SetUp(); err != nil {
		return fmt.Errorf("the definition that comes with the library: %v", err)
	}
	for _, s := range c.Texts {
		if err := apply(p, x, string(s), nil, st); err != nil {
			return err
		}
	}
	miss := gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: filepath.Join(pbt.TempDir, "missing.def")})
	if err := miss.SetUp(); err == nil {
		return fmt.Errorf("a missing definition file is accepted")
	}
	return nil
}

func main() {
	const rule = "at least two characters or sequences of a text are rewritten"
	pbt.Main("C15",
		pbt.S("rewrite", 30000, 1500000, rule, gen, check),
		pbt.S("huge", 12, 400, rule, genHuge, check),
		pbt.S("files", 20000, 800000, "the definition is refused, or "+rule, genFile, checkFile),
		pbt.S("embedded", 1500, 60000, rule, func(t *rapid.T) embT {
			def := &world.Rewrite{Replace: [][2]pbt.Str{{"ｶﾞ", ""}, {"ヴ", ""}, {"が", ""}, {"ﾊﾟ", ""}, {"ウ゛", ""}}}
			var c embT
			for i := 0; i < 10; i++ {
				c.Texts = append(c.Texts, pbt.Str(drawText(t, world.Alphabet(t, 0), def)))
			}
			return c
		}, checkEmbedded),
	)
}
