// C21: settings are read, merged and resolved as documented.
package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/world"
)

// entry is a plugin entry and what it stands for (nothing: it is refused).
type entry struct {
	JSON string
	Want string
}

// doc is a settings document.
type doc struct {
	Path, Sys, Char *string     `json:",omitempty"`
	Utf16           *bool       `json:",omitempty"`
	Users           *[]string   `json:",omitempty"`
	Lists           [4]*[]entry // input, oov, path, edit
	Order           []int       // order of the keys
	Spread          bool        // white space
	Pad             int         `json:",omitempty"` // more white space
	Bad             int         // 0: well-formed
}

type caseT struct {
	DefPath string
	Docs    []doc
	Ask     bool // the plugins are created after every document
}

var listKeys = []string{"inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}

func quote(v any) string {
	b, err := json.Marshal(v)
	pbt.Must(err)
	return string(b)
}

// String is the document as JSON.
func (d *doc) String() string {
	var f []string
	add := func(k, v string) { f = append(f, quote(k)+":"+v) }
	if d.Path != nil {
		add("path", quote(*d.Path))
	}
	if d.Sys != nil {
		add("systemDict", quote(*d.Sys))
	}
	if d.Char != nil {
		add("characterDefinitionFile", quote(*d.Char))
	}
	if d.Utf16 != nil {
		add("utf16String", quote(*d.Utf16))
	}
	if d.Users != nil {
		add("userDict", quote(*d.Users))
	}
	for i, l := range d.Lists {
		if l == nil {
			continue
		}
		var e []string
		for _, x := range *l {
			e = append(e, x.JSON)
		}
		add(listKeys[i], "["+strings.Join(e, ",")+"]")
	}
	for i, k := range d.Order {
		if i < len(f) {
			k %= len(f)
			f[i], f[k] = f[k], f[i]
		}
	}
	switch d.Bad {
	case 1:
		f = append(f, `"systemDict":5`)
	case 2:
		f = append(f, `"userDict":"user.dic"`)
	case 3:
		f = append(f, `"inputTextPlugin":{"class":"DefaultInputTextPlugin"}`)
	case 4:
		f = append(f, `"utf16String":"yes"`)
	case 5:
		f = append(f, `"path":`)
	case 6:
		f = append(f, `"pathRewritePlugin":"JoinNumericPlugin"`)
	}
	sep := ","
	if d.Spread {
		sep = " ,\n\t "
	}
	s := "{" + strings.Join(f, sep+strings.Repeat(" ", d.Pad)) + "}"
	if d.Pad > 0 {
		s = "{" + strings.Repeat("\n", d.Pad) + s[1:]
	}
	if d.Bad == 7 {
		s = s[:len(s)-1]
	}
	if d.Spread {
		s = " \n" + s + "\n"
	}
	return s
}

func drawPath(t *rapid.T) string {
	if world.Chance(t, "composed", 40) {
		// the first part says whether it is absolute, the last is never empty
		s := world.Pick(t, "start", []string{"", "", "/", "//", "./", "../"})
		for i := rapid.IntRange(0, 3).Draw(t, "nparts"); i > 0; i-- {
			s += world.Pick(t, "part", []string{"a", "..", ".", "b c", "d.e", "", "~", "C:"}) + "/"
		}
		return s + world.Pick(t, "last", []string{"x.dic", "..", ".", "y", "\\z", "$HOME", "%41"})
	}
	return world.Pick(t, "file", []string{"system.dic", "a/b.dic", "/abs/system.dic", "./x.dic", "../y.dic", "user 1.dic", "辞書.dic", "/", "a//b", ".hidden", "sub/../z.dic"})
}

type plug struct {
	name string
	opts func(t *rapid.T) (map[string]any, string)
}

func drawStrs(t *rapid.T) []string {
	return rapid.SliceOfN(rapid.SampledFrom([]string{"ー", "名詞", "*", "-", "一般", ""}), 0, 6).Draw(t, "strs")
}

func ptr[T any](v T) *T { return &v }

// opt draws an option: absent or present.
func opt(t *rapid.T, m map[string]any, key string, v any) string {
	if rapid.Bool().Draw(t, "has "+key) {
		m[key] = v
		return " " + key + "=" + quote(v)
	}
	return ""
}

var plugs = [4][]plug{
	{
		{"DefaultInputTextPlugin", func(t *rapid.T) (map[string]any, string) {
			m := map[string]any{}
			return m, opt(t, m, "rewriteDef", "my"+drawPath(t))
		}},
		{"ProlongedSoundMarkInputTextPlugin", func(t *rapid.T) (map[string]any, string) {
			m := map[string]any{}
			return m, opt(t, m, "prolongedSoundMarks", drawStrs(t)) + opt(t, m, "replacementSymbol", world.Pick(t, "sym", []string{"ー", "-", "", "〜〜"}))
		}},
	},
	{
		{"MeCabOovProviderPlugin", func(t *rapid.T) (map[string]any, string) {
			m := map[string]any{}
			return m, opt(t, m, "charDef", drawPath(t)) + opt(t, m, "unkDef", drawPath(t))
		}},
		{"SimpleOovProviderPlugin", func(t *rapid.T) (map[string]any, string) {
			m := map[string]any{}
			i := func() int { return rapid.IntRange(-32768, 32767).Draw(t, "int16") }
			return m, opt(t, m, "oovPOS", drawStrs(t)) + opt(t, m, "leftId", i()) + opt(t, m, "rightId", i()) + opt(t, m, "cost", i())
		}},
	},
	{
		{"JoinNumericPlugin", func(t *rapid.T) (map[string]any, string) {
			m := map[string]any{}
			if rapid.Bool().Draw(t, "other key") {
				m["joinKanjiNumeric"] = true
			}
			return m, opt(t, m, "enableNormalize", rapid.Bool().Draw(t, "b"))
		}},
		{"JoinKatakanaOovPlugin", func(t *rapid.T) (map[string]any, string) {
			m := map[string]any{}
			return m, opt(t, m, "oovPOS", drawStrs(t)) + opt(t, m, "minLength", rapid.IntRange(-1, 10).Draw(t, "min"))
		}},
	},
	{
		{"InhibitConnectionPlugin", func(t *rapid.T) (map[string]any, string) {
			m := map[string]any{}
			var ps [][2]int
			for i := rapid.IntRange(1, 3).Draw(t, "npairs"); i > 0; i-- {
				ps = append(ps, [2]int{rapid.IntRange(0, 99).Draw(t, "l"), rapid.IntRange(0, 99).Draw(t, "r")})
			}
			return m, opt(t, m, "inhibitedPair", ps)
		}},
	},
}

// describe says what a created plugin is, in the form of entry.Want.
func describe(p gosudachi.Plugin) string {
	add := func(key string, v any, has bool) string {
		if !has {
			return ""
		}
		return " " + key + "=" + quote(v)
	}
	name := strings.TrimPrefix(fmt.Sprintf("%T", p), "*gosudachi.")
	switch c := p.GetConfigStruct().(type) {
	case *gosudachi.DefaultInputTextPluginConfig:
		return name + add("rewriteDef", c.RewriteDef, c.RewriteDef != "")
	case *gosudachi.ProlongedSoundMarkInputTextPluginConfig:
		return name + add("prolongedSoundMarks", c.ProlongedSoundMarks, c.ProlongedSoundMarks != nil) + add("replacementSymbol", c.ReplacementSymbol, c.ReplacementSymbol != nil)
	case *gosudachi.MeCabOovProviderPluginConfig:
		return name + add("charDef", c.CharDef, c.CharDef != nil) + add("unkDef", c.UnkDef, c.UnkDef != nil)
	case *gosudachi.SimpleOovProviderPluginConfig:
		return name + add("oovPOS", c.OovPos, c.OovPos != nil) + add("leftId", c.LeftId, c.LeftId != nil) + add("rightId", c.RightId, c.RightId != nil) + add("cost", c.Cost, c.Cost != nil)
	case *gosudachi.JoinNumericPluginConfig:
		return name + add("enableNormalize", c.EnableNormalize, c.EnableNormalize != nil)
	case *gosudachi.JoinKatakanaOovPluginConfig:
		return name + add("oovPOS", c.OovPOS, c.OovPOS != nil) + add("minLength", c.MinLength, c.MinLength != nil)
	case *gosudachi.InhibitConnectionPlugin:
		return name + add("inhibitedPair", c.InhibitedPair, len(c.InhibitedPair) > 0)
	case *myOptions:
		return "custom " + c.made + add("a", c.A, c.A != nil) + add("b", c.B, len(c.B) > 0)
	}
	return name
}

// myOptions are the options of plugins of the harness.
type myOptions struct {
	made string
	A    *int
	B    []string
}

type myInput struct{ o myOptions }

func (p *myInput) GetConfigStruct() interface{}                { return &p.o }
func (p *myInput) SetUp() error                                { return nil }
func (p *myInput) Rewrite(b *gosudachi.InputTextBuilder) error { return nil }

type myOther struct{ o myOptions }

func (p *myOther) GetConfigStruct() interface{}    { return &p.o }
func (p *myOther) SetUp(*dictionary.Grammar) error { return nil }
func (p *myOther) Edit(*dictionary.Grammar) error  { return nil }
func (p *myOther) ProvideOOV(*gosudachi.InputText, int, bool) ([]*gosudachi.LatticeNode, error) {
	return nil, nil
}
func (p *myOther) Rewrite(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error {
	return nil
}

func mine(n string) bool { return strings.HasPrefix(n, "my.") }

// create creates the plugins of one kind.
func create(s *gosudachi.SettingsJSON, kind int) (out []string, err error) {
	switch kind {
	case 0:
		ps, e := s.GetInputTextPluginArray(func(n string) gosudachi.InputTextPlugin {
			if mine(n) {
				return &myInput{myOptions{made: n}}
			}
			return gosudachi.DefMakeInputTextPlugin(n)
		})
		for _, p := range ps {
			out = append(out, describe(p))
		}
		err = e
	case 1:
		ps, e := s.GetOovProviderPluginArray(func(n string) gosudachi.OovProviderPlugin {
			if mine(n) {
				return &myOther{myOptions{made: n}}
			}
			return gosudachi.DefMakeOovProviderPlugin(n)
		})
		for _, p := range ps {
			out = append(out, describe(p))
		}
		err = e
	case 2:
		ps, e := s.GetPathRewritePluginArray(func(n string) gosudachi.PathRewritePlugin {
			if mine(n) {
				return &myOther{myOptions{made: n}}
			}
			return gosudachi.DefMakePathRewritePlugin(n)
		})
		for _, p := range ps {
			out = append(out, describe(p))
		}
		err = e
	case 3:
		ps, e := s.GetEditConnectionCostPluginArray(func(n string) gosudachi.EditConnectionCostPlugin {
			if mine(n) {
				return &myOther{myOptions{made: n}}
			}
			return gosudachi.DefMakeEditConnectionCostPlugin(n)
		})
		for _, p := range ps {
			out = append(out, describe(p))
		}
		err = e
	}
	return out, err
}

func drawEntry(t *rapid.T, kind int) entry {
	if world.Chance(t, "refused", 12) {
		other := plugs[(kind+1+rapid.IntRange(0, 2).Draw(t, "otherkind"))%4][0].name
		return entry{JSON: world.Pick(t, "bad", []string{
			`{}`, `{"class":"NoSuchPlugin"}`, `{"name":""}`, `{"class":"com.worksap.nlp.sudachi.NoSuchPlugin","cost":5}`, `5`, `"` + plugs[kind][0].name + `"`, `[]`,
			`{"class":5}`, `{"name":["` + plugs[kind][0].name + `"]}`, `{"class":"` + other + `"}`, `{"name":"com.worksap.nlp.sudachi.` + other + `"}`,
			`{"class":"` + plugs[kind][0].name + ` "}`, `{"class":"com.worksap.nlp.` + plugs[kind][0].name + `"}`, `{"cost":5}`,
			map[int]string{0: `{"class":"ProlongedSoundMarkInputTextPlugin","prolongedSoundMarks":"ー"}`, 1: `{"class":"SimpleOovProviderPlugin","cost":70000}`,
				2: `{"class":"JoinNumericPlugin","enableNormalize":"yes"}`, 3: `{"class":"InhibitConnectionPlugin","inhibitedPair":[[1,"2"]]}`}[kind],
		})}
	}
	m := map[string]any{}
	name, want := "", ""
	if world.Chance(t, "custom", 15) {
		name = world.Pick(t, "myname", []string{"my.x", "my.y", "my.JoinNumericPlugin"})
		want = "custom " + name + opt(t, m, "a", rapid.IntRange(-5, 100000).Draw(t, "a"))
		if rapid.Bool().Draw(t, "b") {
			b := append(drawStrs(t), "x")
			m["b"] = b
			want += " b=" + quote(b)
		}
	} else {
		p := world.Pick(t, "plugin", plugs[kind])
		var w string
		m, w = p.opts(t)
		name, want = p.name, p.name+w
		if rapid.Bool().Draw(t, "long") {
			name = "com.worksap.nlp.sudachi." + name
		}
	}
	switch rapid.IntRange(0, 2).Draw(t, "key") {
	case 0:
		m["class"] = name
	case 1:
		m["name"] = name
	default:
		m["name"], m["class"] = name, name
	}
	return entry{quote(m), want}
}

func gen(t *rapid.T) caseT {
	c := caseT{DefPath: world.Pick(t, "defpath", []string{"", "/res", "/res/", "res", "./r"}), Ask: rapid.Bool().Draw(t, "ask")}
	for i := rapid.IntRange(1, 4).Draw(t, "ndocs"); i > 0; i-- {
		var d doc
		has := func(k string, n int) bool { return world.Chance(t, "has "+k, n) }
		if has("path", 30) {
			d.Path = ptr(world.Pick(t, "path", []string{"/p", "/p/q/", "own", "../own"}))
		}
		if has("sys", 60) {
			d.Sys = ptr(drawPath(t))
		}
		if has("char", 40) {
			d.Char = ptr(drawPath(t))
			if has("emptychar", 15) {
				*d.Char = ""
			}
		}
		if has("utf16", 40) {
			d.Utf16 = ptr(rapid.Bool().Draw(t, "utf16"))
		}
		if has("users", 50) {
			u := []string{}
			n := rapid.IntRange(0, 3).Draw(t, "nusers")
			if has("many users", 2) {
				n = rapid.IntRange(4, 40).Draw(t, "many")
			}
			for k := n; k > 0; k-- {
				u = append(u, drawPath(t))
			}
			d.Users = &u
		}
		for k := range d.Lists {
			if has("list", 45) {
				l := []entry{}
				for j := rapid.IntRange(0, 4).Draw(t, "nentries"); j > 0; j-- {
					l = append(l, drawEntry(t, k))
				}
				if len(l) > 0 && has("many entries", 2) {
					for j, m := rapid.IntRange(4, 40).Draw(t, "many"), len(l); j > 0; j-- {
						l = append(l, l[j%m])
					}
					for j := rapid.IntRange(0, 3).Draw(t, "nlast"); j > 0; j-- {
						l = append(l, drawEntry(t, k))
					}
				}
				d.Lists[k] = &l
			}
		}
		d.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 9).Draw(t, "order")
		d.Spread = rapid.Bool().Draw(t, "spread")
		if has("pad", 1) {
			d.Pad = world.Pick(t, "npad", []int{5000, 65536, 70000})
		}
		if has("bad", 6) {
			d.Bad = rapid.IntRange(1, 7).Draw(t, "badkind")
		}
		c.Docs = append(c.Docs, d)
	}
	return c
}

func samePath(got, want string) bool {
	return got == want || got != "" && want != "" && filepath.Clean(got) == filepath.Clean(want)
}

func check(c caseT, st *pbt.Stats) error {
	s := gosudachi.NewSettingsJSON()
	base, sys, char, utf16 := "", "", "", false
	var users []string
	var lists [4][]entry
	resolve := func(p string) string {
		if p == "" || filepath.IsAbs(p) || base == "" {
			return p
		}
		return filepath.Join(base, p)
	}
	var all []string
	errs, made, many := 0, 0, 0
	for i := range c.Docs {
		d := &c.Docs[i]
		src := d.String()
		all = append(all, src)
		fail := func(f string, a ...any) error {
			return fmt.Errorf("resource path %q, documents\n%s\n%s", c.DefPath, strings.Join(all, "\n"), fmt.Sprintf(f, a...))
		}
		err := s.ParseSettingsJSON(c.DefPath, strings.NewReader(src))
		if d.Bad > 0 {
			if err == nil {
				return fail("the last one is accepted although it is malformed")
			}
			st.Class("malformed document")
			return nil // the state is not specified then
		}
		if err != nil {
			return fail("the last one is refused: %v", err)
		}
		if d.Path != nil {
			base = *d.Path
		} else if base == "" {
			base = c.DefPath
		}
		if d.Sys != nil {
			sys = resolve(*d.Sys)
		}
		if d.Char != nil {
			char = resolve(*d.Char)
		}
		if d.Utf16 != nil {
			utf16 = *d.Utf16
		}
		if d.Users != nil {
			for _, u := range *d.Users {
				users = append(users, resolve(u))
			}
		}
		for k, l := range d.Lists {
			if l != nil {
				lists[k] = *l
			}
		}
		b := s.GetBaseConfig()
		if !samePath(b.SystemDict, sys) || !samePath(b.CharacterDefinitionFile, char) || b.Utf16String != utf16 {
			return fail("system dictionary %q, character definition %q, UTF-16 %v; want %q, %q, %v", b.SystemDict, b.CharacterDefinitionFile, b.Utf16String, sys, char, utf16)
		}
		ok := len(b.UserDict) == len(users)
		for k := range users {
			ok = ok && samePath(b.UserDict[k], users[k])
		}
		if !ok {
			return fail("user dictionaries %q, want %q", b.UserDict, users)
		}
		if !c.Ask && i < len(c.Docs)-1 {
			continue
		}
		for round := 0; round < 2; round++ {
			for k, l := range lists {
				bad := false
				var want []string
				for _, e := range l {
					bad = bad || e.Want == ""
					want = append(want, e.Want)
				}
				got, err := create(s, k)
				if bad {
					errs++
					if err == nil {
						return fail("%s: a faulty entry is accepted (%q)", listKeys[k], got)
					}
					continue
				}
				if err != nil {
					return fail("%s: %v", listKeys[k], err)
				}
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					return fail("%s gives %q, want %q", listKeys[k], got, want)
				}
				made += len(got)
				many = max(many, len(got))
			}
		}
	}
	if made > 1 {
		st.NonTrivial()
	}
	st.ClassIf(errs > 0, "entry refused")
	st.ClassIf(many > 16, "more than 16 plugins of a kind")
	st.ClassIf(len(users) > 15, "more than 15 user dictionaries")
	for _, a := range all {
		st.ClassIf(len(a) > 65536, "document of more than 64 KiB")
	}
	st.ClassIf(len(c.Docs) > 1, "several documents")
	st.ClassIf(len(users) > 1, "two user dictionaries or more")
	st.ClassIf(base != c.DefPath, "own path setting")
	return nil
}

// openT opens a whole configuration through settings.
type openT struct {
	W     *world.World
	Texts []pbt.Str
	First int  // which keys the first document has, with other values
	Def   bool // the directory is given as resource path
	Split int  // which keys come in the second document (the others in the third)
}

func genOpen(t *rapid.T) openT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 8, MaxUsers: 2, Input: true, Path: true, Inhibit: true, NoFail: true})
	c := openT{W: w, First: rapid.IntRange(0, 255).Draw(t, "first"), Split: rapid.IntRange(0, 255).Draw(t, "split"), Def: rapid.Bool().Draw(t, "def")}
	for i := rapid.IntRange(1, 4).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 7)))
	}
	return c
}

var others = map[string]any{
	"systemDict": "other.dic", "characterDefinitionFile": "/other.def", "utf16String": true,
	"inputTextPlugin":          []any{map[string]any{"class": "DefaultInputTextPlugin"}},
	"oovProviderPlugin":        []any{map[string]any{"class": "NoSuchPlugin"}},
	"pathRewritePlugin":        []any{map[string]any{"class": "JoinNumericPlugin"}, map[string]any{"class": "JoinNumericPlugin"}},
	"editConnectionCostPlugin": []any{map[string]any{"class": "InhibitConnectionPlugin", "inhibitedPair": [][2]int{{0, 0}}}},
}

var keys = []string{"systemDict", "characterDefinitionFile", "utf16String", "userDict", "inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}

func analyse(t *gosudachi.JapaneseTokenizer, mode, text string) string {
	ms, err := t.Tokenize(mode, text)
	if err != nil {
		return "error"
	}
	var b strings.Builder
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		fmt.Fprintf(&b, "%d-%d %d %#x %v %v %q; ", m.Begin(), m.End(), m.GetDictionaryId(), m.GetWordId(), m.IsOOV(), m.PartOfSpeech(), m.NormalizedForm())
	}
	return b.String()
}

func checkOpen(c openT, st *pbt.Stats) error {
	e, err := c.W.Setup(world.OpenOpt{})
	if err != nil {
		return err
	}
	defer e.Close()
	real := c.W.Settings(e.Files)
	s := gosudachi.NewSettingsJSON()
	docs := [3]map[string]any{{}, {}, {}}
	for i, k := range keys {
		if v, ok := others[k]; ok && c.First&(1<<i) != 0 {
			docs[0][k] = v
		}
		if v, ok := real[k]; ok {
			docs[1+c.Split>>i&1][k] = v
		}
	}
	def := e.Files.Dir
	if !c.Def {
		def = "/nonexistent"
		docs[0]["path"] = e.Files.Dir
	}
	var all string
	for _, d := range docs {
		all += quote(d) + "\n"
		if err := s.ParseSettingsJSON(def, strings.NewReader(quote(d))); err != nil {
			return fmt.Errorf("%s: %v", all, err)
		}
	}
	d, err := gosudachi.NewJapaneseDictionary(s.GetBaseConfig(), nil, nil, nil, nil)
	if err == nil {
		d.Close()
		return fmt.Errorf("a dictionary without a provider of unknown words opens")
	}
	in, err := s.GetInputTextPluginArray(gosudachi.DefMakeInputTextPlugin)
	if err != nil {
		return fmt.Errorf("%s: %v", all, err)
	}
	oov, err := s.GetOovProviderPluginArray(gosudachi.DefMakeOovProviderPlugin)
	if err != nil {
		return fmt.Errorf("%s: %v", all, err)
	}
	path, err := s.GetPathRewritePluginArray(gosudachi.DefMakePathRewritePlugin)
	if err != nil {
		return fmt.Errorf("%s: %v", all, err)
	}
	edit, err := s.GetEditConnectionCostPluginArray(gosudachi.DefMakeEditConnectionCostPlugin)
	if err != nil {
		return fmt.Errorf("%s: %v", all, err)
	}
	d, err = gosudachi.NewJapaneseDictionary(s.GetBaseConfig(), in, oov, path, edit)
	if err != nil {
		return fmt.Errorf("%s: the configuration opens directly, through settings: %v", all, err)
	}
	defer d.Close()
	t := d.Create()
	n := 0
	for _, x := range c.Texts {
		for _, mode := range []string{"C", "A"} {
			want, got := analyse(e.Tok, mode, string(x)), analyse(t, mode, string(x))
			if want != got {
				return fmt.Errorf("%s: %q in mode %s: %s\nconfigured directly: %s", all, string(x), mode, got, want)
			}
			n += len(want)
		}
	}
	if n > 0 && len(c.W.Input)+len(c.W.Path) > 0 {
		st.NonTrivial()
	}
	st.ClassIf(c.Def, "resource path given")
	st.ClassIf(!c.Def, "own path setting")
	st.ClassIf(len(c.W.Users) > 0, "user dictionaries")
	st.ClassIf(len(c.W.Inhibit) > 0, "inhibited pairs")
	return nil
}

func main() {
	pbt.Main("C21",
		pbt.S("documents", 100000, 2000000, "at least two plugins are created", gen, check),
		pbt.S("open", 10000, 200000, "text is analysed with input or path plugins", genOpen, checkOpen),
	)
}
