// C27: opening and closing dictionaries leaves nothing behind.
package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/world"
)

// step is an operation on one of the slots.
type step struct {
	Op    string // open, close, binary, use
	Slot  int
	Fault string // of opening
	File  string // the wrong file of the fault
	Users int    // number of user dictionaries
	At    int    // position of the fault among the user dictionaries
	Read  string // which function opens a binary dictionary
}

type caseT struct {
	W     *world.World
	Texts []pbt.Str
	Steps []step
}

var faults = []string{"system", "chardef", "user", "user", "user", "many", "rewritedef", "unkdef", "chardef2", "simplepos", "katakanapos", "numericpos",
	"noprovider", "input", "oov", "path", "edit setup", "edit", "cost", "inhibit"}

// wrong files
var wrong = []string{"missing", "empty", "short", "nearly", "version", "dir", "text", "other"}

func gen(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 6, MaxUsers: 2, Input: true, Path: true, NoFail: true, Auto: true})
	c := caseT{W: w}
	for i := rapid.IntRange(1, 3).Draw(t, "ntexts"); i > 0; i-- {
		c.Texts = append(c.Texts, pbt.Str(world.DrawText(t, w, alpha, 5)))
	}
	for i := rapid.IntRange(2, 12).Draw(t, "nsteps"); i > 0; i-- {
		s := step{Op: world.Pick(t, "op", []string{"open", "open", "open", "close", "close", "binary"}), Slot: rapid.IntRange(0, 3).Draw(t, "slot")}
		switch s.Op {
		case "open":
			s.Users = -1
			if world.Chance(t, "users", 20) {
				s.Users = rapid.IntRange(0, 15).Draw(t, "nusers")
			}
			if rapid.Bool().Draw(t, "fails") {
				s.Fault = world.Pick(t, "fault", faults)
				s.File = world.Pick(t, "file", wrong)
				s.At = rapid.IntRange(0, 15).Draw(t, "at")
			}
		case "binary":
			s.Read = world.Pick(t, "read", []string{"NewBinaryDictionary", "ReadSystemDictionary", "ReadUserDictionary"})
			s.File = world.Pick(t, "file", append([]string{"", "", ""}, wrong...))
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// failing is a plugin of the harness that cannot be set up.
type failing struct{ setup, rest bool }

func (p *failing) GetConfigStruct() interface{} { return p }

func (p *failing) err(b bool) error {
	if b {
		return fmt.Errorf("refused")
	}
	return nil
}

type failInput struct{ failing }

func (p *failInput) SetUp() error                              { return p.err(p.setup) }
func (p *failInput) Rewrite(*gosudachi.InputTextBuilder) error { return p.err(p.rest) }

type failOov struct{ failing }

func (p *failOov) SetUp(*dictionary.Grammar) error { return p.err(p.setup) }
func (p *failOov) ProvideOOV(*gosudachi.InputText, int, bool) ([]*gosudachi.LatticeNode, error) {
	return nil, p.err(p.rest)
}

type failPath struct{ failing }

func (p *failPath) SetUp(*dictionary.Grammar) error { return p.err(p.setup) }
func (p *failPath) Rewrite(*gosudachi.InputText, *[]*gosudachi.LatticeNode, *gosudachi.Lattice) error {
	return nil
}

type failEdit struct{ failing }

func (p *failEdit) SetUp(*dictionary.Grammar) error { return p.err(p.setup) }
func (p *failEdit) Edit(*dictionary.Grammar) error  { return p.err(p.rest) }

// env is the state of a case.
type env struct {
	c     caseT
	e     *world.Env
	dir   string
	want  []string // analyses of the texts with all user dictionaries
	slots [4]*slot
}

type slot struct {
	d     *gosudachi.JapaneseDictionary
	b     *dictionary.BinaryDictionary
	files []string
	want  []string
	gone  bool // closed
}

// bad makes a wrong file; other is a dictionary of the other type.
func (v *env) bad(kind, other string) string {
	p := filepath.Join(v.dir, "bad-"+kind)
	good, err := os.ReadFile(v.e.Files.Sys)
	pbt.Must(err)
	switch kind {
	case "missing":
		return p
	case "empty":
		return world.Write(p, "")
	case "short":
		return world.Write(p, string(good[:100]))
	case "nearly":
		return world.Write(p, string(good[:271]))
	case "version":
		return world.Write(p, "12345678"+string(good[8:]))
	case "dir":
		pbt.Must(os.MkdirAll(p, 0755))
		return p
	case "text":
		return world.Write(p, strings.Repeat("no dictionary\n", 100))
	}
	return other
}

func show(d *gosudachi.JapaneseDictionary, texts []pbt.Str) []string {
	var out []string
	tok := d.Create()
	for _, t := range texts {
		ms, err := tok.Tokenize("C", string(t))
		if err != nil {
			out = append(out, "error")
			continue
		}
		var b strings.Builder
		for i := 0; i < ms.Length(); i++ {
			m := ms.Get(i)
			fmt.Fprintf(&b, "%d-%d %d %#x %v %v %q %q; ", m.Begin(), m.End(), m.GetDictionaryId(), m.GetWordId(), m.IsOOV(), m.PartOfSpeech(), m.NormalizedForm(), m.ReadingForm())
		}
		out = append(out, b.String())
	}
	return out
}

// open opens the dictionary, with the fault of the step.
func (v *env) open(s step) (*gosudachi.JapaneseDictionary, []string, error) {
	w, f := v.c.W, v.e.Files
	conf := *w.Config(f)
	conf.UserDict = append([]string(nil), conf.UserDict...)
	if s.Users >= 0 && len(f.Users) > 0 {
		conf.UserDict = nil
		for i := 0; i < s.Users; i++ {
			conf.UserDict = append(conf.UserDict, f.Users[i%len(f.Users)])
		}
	}
	in, oov, path, edit := w.InputPlugins(f), w.OovPlugins(f), w.PathPlugins(), w.EditPlugins()
	none := []string{"no", "such", "part", "of", "speech", "!"}
	text := func(kind string) string {
		if kind == "missing" || kind == "dir" || kind == "short" {
			k := map[string]string{"missing": "missing", "dir": "dir", "short": "missing"}[kind]
			return v.bad(k, "")
		}
		return world.Write(filepath.Join(v.dir, "bad.def"), "A 1 1\n0x0 1 1 1 \n\nx x x x x\n")
	}
	switch s.Fault {
	case "system":
		other := f.Dir
		if len(f.Users) > 0 {
			other = f.Users[0]
		}
		conf.SystemDict = v.bad(s.File, other)
	case "chardef":
		conf.CharacterDefinitionFile = text(s.File)
	case "user":
		at := s.At % (len(conf.UserDict) + 1)
		conf.UserDict = append(append(append([]string(nil), conf.UserDict[:at]...), v.bad(s.File, f.Sys)), conf.UserDict[at:]...)
	case "many":
		u := f.Sys // never reached if there are no user dictionaries
		if len(f.Users) > 0 {
			u = f.Users[0]
		}
		for len(conf.UserDict) < 16+s.At%3 {
			conf.UserDict = append(conf.UserDict, u)
		}
	case "rewritedef":
		in = append(in, gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: text(s.File)}))
	case "unkdef":
		cd, ud := f.CharDef, text(s.File)
		oov = append(oov, gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud}))
	case "chardef2":
		cd, ud := text(s.File), f.UnkDef
		oov = append(oov, gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud}))
	case "simplepos":
		z := int16(0)
		oov = append(oov, gosudachi.NewSimpleOovProviderPlugin(&gosudachi.SimpleOovProviderPluginConfig{OovPos: &none, LeftId: &z, RightId: &z, Cost: &z}))
	case "katakanapos":
		n := 1
		path = append(path, gosudachi.NewJoinKatakanaOovPlugin(&gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &none, MinLength: &n}))
	case "numericpos":
		path = append(path, &failPath{failing{setup: true}}, gosudachi.NewJoinNumericPlugin(nil))
	case "noprovider":
		oov = nil
	case "input":
		in = append(in, &failInput{failing{setup: true}})
	case "oov":
		oov = append(oov, &failOov{failing{setup: true}})
	case "path":
		path = append(path, &failPath{failing{setup: true}})
	case "edit setup":
		edit = append(edit, &failEdit{failing{setup: true}})
	case "edit":
		edit = append(edit, &failEdit{failing{rest: true}})
	case "cost": // fails where the cost of a user word is worked out
		if s.At%2 == 0 {
			oov = append([]gosudachi.OovProviderPlugin{&failOov{failing{rest: true}}}, oov...)
		} else {
			in = append(in, &failInput{failing{rest: true}})
		}
	case "inhibit":
		edit = append(edit, &failEdit{failing{setup: s.At%2 == 0, rest: true}}, gosudachi.NewInhibitConnectionPlugin(nil))
	}
	d, err := gosudachi.NewJapaneseDictionary(&conf, in, oov, path, edit)
	return d, append([]string{conf.SystemDict}, conf.UserDict...), err
}

// held counts the descriptors and mappings of files in the directory.
func held(dir string) (fds, maps map[string]int) {
	fds, maps = map[string]int{}, map[string]int{}
	es, err := os.ReadDir("/proc/self/fd")
	pbt.Must(err)
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(p, dir+"/") {
			fds[p]++
		}
	}
	f, err := os.Open("/proc/self/maps")
	pbt.Must(err)
	defer f.Close()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		if _, p, ok := strings.Cut(sc.Text(), dir+"/"); ok {
			maps[dir+"/"+p]++
		}
	}
	return
}

// audit checks that only files of open dictionaries are held, and that those
// dictionaries work.
func (v *env) audit(what string) error {
	open := map[string]int{}
	for _, s := range v.slots {
		if s != nil && !s.gone {
			for _, f := range s.files {
				open[f]++
			}
		}
	}
	fds, maps := held(v.dir)
	for p, n := range fds {
		if n > open[p] {
			return fmt.Errorf("after %s %d descriptors of %s are open, for %d open dictionaries", what, n, filepath.Base(p), open[p])
		}
	}
	for p, n := range maps {
		if n > open[p] {
			return fmt.Errorf("after %s %d mappings of %s are left, for %d open dictionaries", what, n, filepath.Base(p), open[p])
		}
	}
	for i, s := range v.slots {
		if s == nil || s.gone {
			continue
		}
		if s.d != nil {
			got := show(s.d, v.c.Texts)
			for k := range got {
				if got[k] != s.want[k] {
					return fmt.Errorf("after %s dictionary %d analyses %q as\n%s\nbefore as\n%s", what, i, string(v.c.Texts[k]), got[k], s.want[k])
				}
			}
		} else if got := words(s.b); got != s.want[0] {
			return fmt.Errorf("after %s dictionary file %d has the contents\n%s\nbefore\n%s", what, i, got, s.want[0])
		}
	}
	return nil
}

// words describes the contents of a binary dictionary.
func words(b *dictionary.BinaryDictionary) string {
	var s strings.Builder
	for i := int32(0); i < b.Lexicon.Size(); i++ {
		wi := b.Lexicon.GetWordInfo(i)
		fmt.Fprintf(&s, "%q %d %q %q; ", wi.Surface, b.Lexicon.GetCost(i), wi.NormalizedForm, wi.ReadingForm)
	}
	return s.String()
}

func check(c caseT, st *pbt.Stats) error {
	e, err := c.W.Setup(world.OpenOpt{})
	if err != nil {
		return err
	}
	defer e.Close()
	v := &env{c: c, e: e, dir: e.Files.Dir}
	v.want = show(e.Dict, c.Texts)
	e.Dict.Close()
	e.Dict = nil
	// a descriptor must not be closed by the collector
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	defer func() {
		for _, s := range v.slots {
			if s != nil && !s.gone {
				if s.d != nil {
					s.d.Close()
				} else {
					s.b.Close()
				}
			}
		}
	}()
	if err := v.audit("opening and closing once"); err != nil {
		return err
	}
	byUsers := map[int][]string{} // analyses by the number of user dictionaries
	noCost := map[int]bool{}      // numbers of files with which opening fails
	failed, opened, max := 0, 0, 0
	for i, s := range c.Steps {
		what := fmt.Sprintf("step %d (%s slot %d", i, s.Op, s.Slot)
		if s.Fault != "" {
			what += ", fault " + s.Fault
			if s.File != "" {
				what += " " + s.File
			}
		}
		what += ")"
		cur := v.slots[s.Slot]
		if s.Op != "close" && cur != nil && !cur.gone {
			if err := v.close(cur); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := v.audit("closing before " + what); err != nil {
				return err
			}
		}
		switch s.Op {
		case "close":
			if cur == nil {
				continue
			}
			if cur.gone {
				st.Class("closed again")
			}
			if err := v.close(cur); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		case "binary":
			p := e.Files.Sys
			if s.File != "" || s.Read == "ReadUserDictionary" {
				other := e.Files.CharDef
				if len(e.Files.Users) > 0 {
					other = e.Files.Users[0]
				}
				if s.Read == "ReadUserDictionary" && s.File != "" {
					other = e.Files.Sys
				}
				p = v.bad(s.File, other)
			}
			var b *dictionary.BinaryDictionary
			if err := pbt.Try(what, func() (err error) {
				b, err = map[string]func(string, bool) (*dictionary.BinaryDictionary, error){"NewBinaryDictionary": dictionary.NewBinaryDictionary,
					"ReadSystemDictionary": dictionary.ReadSystemDictionary, "ReadUserDictionary": dictionary.ReadUserDictionary}[s.Read](p, c.W.Utf16)
				if err != nil {
					b = nil
				}
				return nil
			}); err != nil {
				return err
			}
			v.slots[s.Slot] = nil
			if b != nil {
				v.slots[s.Slot] = &slot{b: b, files: []string{p}, want: []string{words(b)}}
				st.Class("dictionary file opened")
			} else {
				st.Class("dictionary file refused")
				failed++
			}
			what += " with " + s.Read + " of " + filepath.Base(p)
		case "open":
			var d *gosudachi.JapaneseDictionary
			var files []string
			var oerr error
			if err := pbt.Try(what, func() error { d, files, oerr = v.open(s); return nil }); err != nil {
				return err
			}
			v.slots[s.Slot] = nil
			if oerr != nil {
				failed++
				st.Class("failed: " + s.Fault)
				if s.Fault == "" && len(files) <= 16 {
					// with other user dictionaries than in the first opening the
					// text of a word without a cost may have no analysis
					n := len(files)
					if s.Users < 0 || n-1 == len(c.W.Users) || !c.W.AutoCosts() || byUsers[n] != nil {
						return fmt.Errorf("%s: %v", what, oerr)
					}
					noCost[n] = true
					st.Class("a cost cannot be worked out")
				}
				break
			}
			if s.Fault == "many" && len(files) > 16 || s.Fault == "user" || s.Fault == "system" {
				d.Close()
				return fmt.Errorf("%s with %d files succeeds", what, len(files))
			}
			n := &slot{d: d, files: files, want: show(d, c.Texts)}
			v.slots[s.Slot] = n
			opened++
			want := v.want
			if s.Users >= 0 && s.Fault == "" {
				if noCost[len(files)] {
					return fmt.Errorf("%s succeeds, before it failed", what)
				}
				want = byUsers[len(files)]
				byUsers[len(files)] = n.want
			}
			if s.Fault == "" && want != nil {
				for k := range want {
					if n.want[k] != want[k] {
						return fmt.Errorf("%s: %q is analysed as\n%s\nwhen it was open before as\n%s", what, string(c.Texts[k]), n.want[k], want[k])
					}
				}
			}
		}
		if err := v.audit(what); err != nil {
			return err
		}
		k := 0
		for _, s := range v.slots {
			if s != nil && !s.gone {
				k++
			}
		}
		if k > max {
			max = k
		}
	}
	for i, s := range v.slots {
		if s != nil {
			if err := v.close(s); err != nil {
				return fmt.Errorf("closing slot %d in the end: %v", i, err)
			}
			if err := v.audit(fmt.Sprintf("closing slot %d in the end", i)); err != nil {
				return err
			}
		}
	}
	if failed > 0 && opened > 0 {
		st.NonTrivial()
	}
	st.ClassIf(max > 1, "several open at a time")
	runtime.GC()
	return nil
}

func (v *env) close(s *slot) error {
	return pbt.Try("closing", func() error {
		if s.d != nil {
			s.d.Close()
		} else if err := s.b.Close(); err != nil && !s.gone {
			return fmt.Errorf("closing fails: %v", err)
		}
		s.gone = true
		return nil
	})
}

func main() {
	pbt.Main("C27",
		pbt.S("histories", 12000, 500000, "an opening fails and another succeeds", gen, check),
	)
}
