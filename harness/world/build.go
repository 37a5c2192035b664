package world

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
)

// Dir makes a fresh scratch directory for a case; the function removes it.
func Dir() (string, func()) {
	d, err := os.MkdirTemp(pbt.TempDir, "case")
	pbt.Must(err)
	return d, func() { _ = os.RemoveAll(d) }
}

// Write writes a file of the harness.
func Write(path, text string) string {
	pbt.Must(os.WriteFile(path, []byte(text), 0644))
	return path
}

// BuildSystem builds a system dictionary file from sources.
func BuildSystem(path, desc string, tm int64, matrix string, sources []string, utf16 bool) error {
	h, err := dictionary.NewDictionaryHeader(dictionary.SystemDictVersion, tm, desc).ToBytes()
	if err != nil {
		return err
	}
	f, err := os.Create(path)
	pbt.Must(err)
	defer f.Close()
	n, err := f.Write(h)
	pbt.Must(err)
	b := dictionary.NewDictionaryBuilder(int64(n), nil, utf16)
	store := dictionary.NewPosTable()
	for _, s := range sources {
		if err := b.BuildLexicon(store, strings.NewReader(s)); err != nil {
			return err
		}
	}
	if err := b.WriteGrammar(store, strings.NewReader(matrix), f); err != nil {
		return err
	}
	return b.WriteLexicon(f, store)
}

// BuildUser builds a user dictionary file. v1 gives the first format version,
// which has no part-of-speech table.
func BuildUser(path, desc string, tm int64, sys *dictionary.BinaryDictionary, sources []string, utf16, v1 bool) error {
	version := uint64(dictionary.UserDictVersion2)
	if v1 {
		version = dictionary.UserDictVersion
	}
	h, err := dictionary.NewDictionaryHeader(version, tm, desc).ToBytes()
	if err != nil {
		return err
	}
	f, err := os.Create(path)
	pbt.Must(err)
	defer f.Close()
	n, err := f.Write(h)
	pbt.Must(err)
	b := dictionary.NewDictionaryBuilder(int64(n), sys.Lexicon, utf16)
	store := dictionary.NewPosTableUser(sys.Grammar)
	for _, s := range sources {
		if err := b.BuildLexicon(store, strings.NewReader(s)); err != nil {
			return err
		}
	}
	if !v1 {
		if err := b.WriteGrammarUser(&store.PosTable, f); err != nil {
			return err
		}
	}
	return b.WriteLexicon(f, store)
}

// Files are the paths of a materialised world.
type Files struct {
	Dir     string
	Sys     string
	Users   []string
	CharDef string
	UnkDef  string
	Rewrite string
}

// Materialise writes all definition files and builds all dictionaries.
func (w *World) Materialise(dir string) (*Files, error) {
	f := &Files{Dir: dir}
	f.CharDef = Write(filepath.Join(dir, "char.def"), w.Chars.Source())
	f.UnkDef = Write(filepath.Join(dir, "unk.def"), w.UnkSource())
	if w.Rewrite != nil {
		f.Rewrite = Write(filepath.Join(dir, "rewrite.def"), w.Rewrite.Source())
	}
	f.Sys = filepath.Join(dir, "system.dic")
	if err := BuildSystem(f.Sys, string(w.Sys.Desc), w.Sys.Time, w.Matrix.Source(), w.Sources(&w.Sys, false), w.Utf16); err != nil {
		return nil, fmt.Errorf("building the system dictionary: %v", err)
	}
	if len(w.Users) > 0 {
		sys, err := dictionary.ReadSystemDictionary(f.Sys, w.Utf16)
		if err != nil {
			return nil, fmt.Errorf("reading the system dictionary: %v", err)
		}
		defer sys.Close()
		for i := range w.Users {
			p := filepath.Join(dir, "user"+strconv.Itoa(i)+".dic")
			u := &w.Users[i]
			if err := BuildUser(p, string(u.Desc), u.Time, sys, w.Sources(u, true), w.Utf16, false); err != nil {
				return nil, fmt.Errorf("building user dictionary %d: %v", i, err)
			}
			f.Users = append(f.Users, p)
		}
	}
	return f, nil
}

// Plugins of a world.
func (w *World) InputPlugins(f *Files) []gosudachi.InputTextPlugin {
	var in []gosudachi.InputTextPlugin
	for _, k := range w.Input {
		switch k {
		case "default":
			in = append(in, gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: f.Rewrite}))
		case "prolonged":
			var ms []string
			for _, m := range w.Prolonged.Marks {
				ms = append(ms, string(m))
			}
			rep := string(w.Prolonged.Replacement)
			in = append(in, gosudachi.NewProlongedSoundMarkInputTextPlugin(&gosudachi.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &ms, ReplacementSymbol: &rep}))
		}
	}
	return in
}

// OovPlugins of a world.
func (w *World) OovPlugins(f *Files) []gosudachi.OovProviderPlugin {
	var out []gosudachi.OovProviderPlugin
	for _, k := range w.Oov {
		switch k {
		case "mecab":
			cd, ud := f.CharDef, f.UnkDef
			out = append(out, gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud}))
		case "simple":
			pos := w.POS[w.Simple.Pos].List()
			l, r, c := int16(w.Simple.Left), int16(w.Simple.Right), int16(w.Simple.Cost)
			out = append(out, gosudachi.NewSimpleOovProviderPlugin(&gosudachi.SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &c}))
		}
	}
	return out
}

// PathPlugins of a world.
func (w *World) PathPlugins() []gosudachi.PathRewritePlugin {
	var out []gosudachi.PathRewritePlugin
	for _, p := range w.Path {
		switch p.Kind {
		case "numeric":
			b := p.Normalize
			out = append(out, gosudachi.NewJoinNumericPlugin(&gosudachi.JoinNumericPluginConfig{EnableNormalize: &b}))
		case "katakana":
			pos := w.POS[p.Pos].List()
			n := p.MinLength
			out = append(out, gosudachi.NewJoinKatakanaOovPlugin(&gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &pos, MinLength: &n}))
		}
	}
	return out
}

// EditPlugins of a world.
func (w *World) EditPlugins() []gosudachi.EditConnectionCostPlugin {
	if len(w.Inhibit) == 0 {
		return nil
	}
	var ps []*[]int
	for _, p := range w.Inhibit {
		x := []int{p[0], p[1]}
		ps = append(ps, &x)
	}
	return []gosudachi.EditConnectionCostPlugin{gosudachi.NewInhibitConnectionPlugin(ps)}
}

// OpenOpt adds harness plugins around those of the world.
type OpenOpt struct {
	PathFirst []gosudachi.PathRewritePlugin
	PathLast  []gosudachi.PathRewritePlugin
	NoPath    bool
	InputLast []gosudachi.InputTextPlugin
	OovFirst  []gosudachi.OovProviderPlugin
	NoUsers   bool
}

// Config is the base configuration.
func (w *World) Config(f *Files) *gosudachi.BaseConfig {
	return &gosudachi.BaseConfig{SystemDict: f.Sys, CharacterDefinitionFile: f.CharDef, UserDict: f.Users, Utf16String: w.Utf16}
}

// Open opens the dictionary of a materialised world.
func (w *World) Open(f *Files, o OpenOpt) (*gosudachi.JapaneseDictionary, error) {
	in := append(w.InputPlugins(f), o.InputLast...)
	path := append([]gosudachi.PathRewritePlugin(nil), o.PathFirst...)
	if !o.NoPath {
		path = append(path, w.PathPlugins()...)
	}
	path = append(path, o.PathLast...)
	c := w.Config(f)
	if o.NoUsers {
		c.UserDict = nil
	}
	return gosudachi.NewJapaneseDictionary(c, in, append(append([]gosudachi.OovProviderPlugin(nil), o.OovFirst...), w.OovPlugins(f)...), path, w.EditPlugins())
}

// Capture is a path rewriting plugin of the harness that sees the path.
type Capture struct {
	Fn func(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error
}

// GetConfigStruct implements gosudachi.Plugin.
func (c *Capture) GetConfigStruct() interface{} { return c }

// SetUp implements gosudachi.PathRewritePlugin.
func (c *Capture) SetUp(*dictionary.Grammar) error { return nil }

// Rewrite implements gosudachi.PathRewritePlugin.
func (c *Capture) Rewrite(text *gosudachi.InputText, path *[]*gosudachi.LatticeNode, lattice *gosudachi.Lattice) error {
	if c.Fn == nil {
		return nil
	}
	return c.Fn(text, path, lattice)
}

// MemFile is an in-memory io.WriteSeeker.
type MemFile struct {
	B   []byte
	pos int
}

// Write implements io.Writer.
func (m *MemFile) Write(p []byte) (int, error) {
	if need := m.pos + len(p); need > len(m.B) {
		m.B = append(m.B, make([]byte, need-len(m.B))...)
	}
	copy(m.B[m.pos:], p)
	m.pos += len(p)
	return len(p), nil
}

// Seek implements io.Seeker.
func (m *MemFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		m.pos = int(off)
	case io.SeekCurrent:
		m.pos += int(off)
	default:
		m.pos = len(m.B) + int(off)
	}
	return int64(m.pos), nil
}

// SameFile compares two files bytewise.
func SameFile(a, b string) (bool, error) {
	x, err := os.ReadFile(a)
	if err != nil {
		return false, err
	}
	y, err := os.ReadFile(b)
	if err != nil {
		return false, err
	}
	return bytes.Equal(x, y), nil
}

// Env is an open world.
type Env struct {
	W     *World
	Files *Files
	Dict  *gosudachi.JapaneseDictionary
	Tok   *gosudachi.JapaneseTokenizer
	rm    func()
}

// Close releases everything.
func (e *Env) Close() {
	if e.Dict != nil {
		e.Dict.Close()
	}
	e.rm()
}

// Setup materialises and opens a world for a property that is about what
// happens afterwards: when that fails the case is skipped.
func (w *World) Setup(o OpenOpt) (*Env, error) {
	dir, rm := Dir()
	e := &Env{W: w, rm: rm}
	var err error
	pe := pbt.Catch(func() {
		e.Files, err = w.Materialise(dir)
		if err == nil {
			e.Dict, err = w.Open(e.Files, o)
		}
		if err == nil {
			e.Tok = e.Dict.Create()
		}
	})
	if pe != nil {
		err = pe
	}
	if err != nil {
		e.Close()
		return nil, pbt.Skip("the configuration cannot be set up: %v", err)
	}
	return e, nil
}
