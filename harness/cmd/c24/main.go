// C24: dictionary headers round-trip and wrong files are refused.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/world"
)

const (
	sysVersion   = 0x7366d3f18bd111e7
	userVersion1 = 0xa50f31188bd211e7
	userVersion2 = 0x9fdeb5a90168d868
)

type header struct {
	Version uint64
	Time    int64
	Desc    pbt.Str
}

type headT struct {
	H      header
	Before int // bytes in front of it
	After  pbt.Str
	Cut    int
}

func drawDesc(t *rapid.T, max int) pbt.Str {
	n := rapid.IntRange(0, 12).Draw(t, "n")
	if max > 0 && world.Chance(t, "long", 40) {
		n = max + rapid.IntRange(-6, 6).Draw(t, "around")
	}
	unit := world.Pick(t, "unit", []string{"x", "é", "辞", "𠮷", "\xff", " ", "\n", "\x01"})
	var b strings.Builder
	for b.Len() < n {
		if rapid.IntRange(0, 5).Draw(t, "other") == 0 {
			b.WriteString(world.Pick(t, "char", []string{"a", "書", "\t", "\x80", "😀"}))
		} else {
			b.WriteString(unit)
		}
	}
	return pbt.Str(b.String())
}

func drawTime(t *rapid.T) int64 {
	switch rapid.IntRange(0, 3).Draw(t, "timekind") {
	case 0:
		return world.Pick(t, "time", []int64{0, 1, -1, 1 << 31, 1<<31 - 1, 1 << 32, -1 << 63, 1<<63 - 1, 253402300799, 253402300800})
	case 1:
		return rapid.Int64().Draw(t, "time")
	}
	return rapid.Int64Range(0, 4102444800).Draw(t, "time")
}

func drawVersion(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 4).Draw(t, "verkind") {
	case 0:
		return rapid.Uint64().Draw(t, "version")
	case 1: // near a known one
		return world.Pick(t, "known", []uint64{sysVersion, userVersion1, userVersion2}) ^ 1<<rapid.IntRange(0, 63).Draw(t, "bit")
	}
	return world.Pick(t, "known", []uint64{sysVersion, userVersion1, userVersion2})
}

func genHead(t *rapid.T) headT {
	c := headT{H: header{drawVersion(t), drawTime(t), drawDesc(t, 256)}}
	if world.Chance(t, "before", 40) {
		c.Before = rapid.IntRange(1, 600).Draw(t, "nbefore")
	}
	c.After = drawDesc(t, 0)
	c.Cut = rapid.IntRange(0, 271).Draw(t, "cut")
	return c
}

func checkHead(c headT, st *pbt.Stats) error {
	desc := string(c.H.Desc)
	b, err := dictionary.NewDictionaryHeader(c.H.Version, c.H.Time, desc).ToBytes()
	if len(desc) > 256 {
		st.Class("description too long")
		st.NonTrivial()
		if err == nil {
			return fmt.Errorf("a description of %d bytes is accepted", len(desc))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("a header with a description of %d bytes is refused: %v", len(desc), err)
	}
	if len(b) != 272 || dictionary.HeaderStorageSize != 272 {
		return fmt.Errorf("the header has %d bytes", len(b))
	}
	// the layout other implementations read
	want := make([]byte, 272)
	binary.LittleEndian.PutUint64(want, c.H.Version)
	binary.LittleEndian.PutUint64(want[8:], uint64(c.H.Time))
	copy(want[16:], desc)
	if !bytes.Equal(b, want) {
		return fmt.Errorf("the header is %x, want %x", b, want)
	}
	in := append(append(bytes.Repeat([]byte{'#'}, c.Before), b...), c.After...)
	keep := append([]byte(nil), in...)
	h := dictionary.ParseDictionaryHeader(in, c.Before)
	if h == nil {
		return fmt.Errorf("the header is not read back")
	}
	if h.Version != c.H.Version || h.CreateTime != c.H.Time || h.Description != desc {
		return fmt.Errorf("%+v reads back as %#x, %d, %q (at %d)", c.H, h.Version, h.CreateTime, h.Description, c.Before)
	}
	if !bytes.Equal(in, keep) {
		return fmt.Errorf("reading changes the bytes")
	}
	if h := dictionary.ParseDictionaryHeader(in[:c.Before+c.Cut], c.Before); h != nil {
		return fmt.Errorf("a header is read from %d bytes", c.Cut)
	}
	b2, err := h.ToBytes()
	if err != nil || !bytes.Equal(b, b2) {
		return fmt.Errorf("writing the header again gives %x (%v), want %x", b2, err, b)
	}
	if len(desc) > 0 {
		st.NonTrivial()
	}
	st.ClassIf(len(desc) == 256, "description of 256 bytes")
	st.ClassIf(len(desc) == 255, "description of 255 bytes")
	st.ClassIf(c.Before > 0, "not at the beginning")
	if dictionary.IsUserDictionary(c.H.Version) != (c.H.Version == userVersion1 || c.H.Version == userVersion2) {
		return fmt.Errorf("version %#x is a user dictionary: %v", c.H.Version, dictionary.IsUserDictionary(c.H.Version))
	}
	return nil
}

// base holds valid dictionaries of each type.
var base = sync.OnceValue(func() (d struct {
	dir   string
	files [3][]byte // system, user 2, user 1
	w     *world.World
	f     *world.Files
}) {
	w := &world.World{POS: []world.Pos6{{"a", "b", "c", "d", "e", "f"}}, Matrix: world.Matrix{L: 1, R: 1}, Oov: []string{"simple"}, Simple: world.Simple{Cost: 10}}
	for i := 0; i < 16; i++ {
		w.Chars.Props = append(w.Chars.Props, world.CatProp{Cat: 1 << i, Len: 1})
	}
	row := world.Row{Head: "x", Surface: "x", DicForm: -1, Unit: "A"}
	w.Sys.Rows = []world.Row{row}
	w.Users = []world.Dict{{Rows: []world.Row{row}}}
	dir, _ := world.Dir()
	f, err := w.Materialise(dir)
	pbt.Must(err)
	sys, err := dictionary.ReadSystemDictionary(f.Sys, false)
	pbt.Must(err)
	defer sys.Close()
	v1 := filepath.Join(dir, "user_v1.dic")
	pbt.Must(world.BuildUser(v1, "", 0, sys, w.Sources(&w.Users[0], true), false, true))
	for i, p := range []string{f.Sys, f.Users[0], v1} {
		d.files[i], err = os.ReadFile(p)
		pbt.Must(err)
	}
	d.dir, d.w, d.f = dir, w, f
	return d
})

// fileT is a file.
type fileT struct {
	Kind string // valid, version, short, random, empty, missing, dir, text
	Body int    // whose contents follow the header
	H    header
	Size int
	Text pbt.Str
}

func genFile(t *rapid.T) fileT {
	c := fileT{Kind: world.Pick(t, "kind", []string{"valid", "valid", "valid", "version", "version", "short", "short", "random", "empty", "missing", "dir", "text"})}
	c.Body = rapid.IntRange(0, 2).Draw(t, "body")
	c.H = header{Time: drawTime(t), Desc: drawDesc(t, 256)}
	if len(c.H.Desc) > 256 {
		c.H.Desc = c.H.Desc[:256]
	}
	switch c.Kind {
	case "valid":
		c.H.Version = []uint64{sysVersion, userVersion2, userVersion1}[c.Body]
		// the contents of a system dictionary can stand in a user dictionary
		if c.Body == 1 && rapid.Bool().Draw(t, "system as user") {
			c.Body = 0
		}
	case "version":
		for c.H.Version = drawVersion(t); c.H.Version == sysVersion || c.H.Version == userVersion1 || c.H.Version == userVersion2; {
			c.H.Version ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
		}
	case "short":
		c.H.Version = drawVersion(t)
		c.Size = rapid.IntRange(1, 271).Draw(t, "size")
		if rapid.Bool().Draw(t, "nearly") {
			c.Size = rapid.IntRange(264, 271).Draw(t, "size2")
		}
	case "random":
		c.Size = rapid.IntRange(272, 6000).Draw(t, "size")
	case "text":
		c.Text = drawDesc(t, rapid.IntRange(0, 1000).Draw(t, "textsize"))
	}
	return c
}

// write writes the file and tells what a reader must find: "system", "user" or nothing.
func (c *fileT) write(path string) string {
	var b []byte
	h := make([]byte, 272)
	binary.LittleEndian.PutUint64(h, c.H.Version)
	binary.LittleEndian.PutUint64(h[8:], uint64(c.H.Time))
	copy(h[16:], c.H.Desc)
	switch c.Kind {
	case "valid", "version":
		b = append(h, base().files[c.Body][272:]...)
	case "short":
		b = h[:c.Size]
	case "random":
		b = make([]byte, c.Size)
		x := uint64(c.H.Time)
		for i := range b {
			x = x*6364136223846793005 + 1442695040888963407
			b[i] = byte(x >> 56)
		}
		if v := binary.LittleEndian.Uint64(b); v == sysVersion || v == userVersion1 || v == userVersion2 {
			b[0]++
		}
	case "empty":
	case "missing":
		return ""
	case "dir":
		pbt.Must(os.MkdirAll(path, 0755))
		return ""
	case "text":
		b = []byte(c.Text)
	}
	pbt.Must(os.WriteFile(path, b, 0644))
	if c.Kind == "valid" {
		if c.H.Version == sysVersion {
			return "system"
		}
		return "user"
	}
	return ""
}

func checkFile(c fileT, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	path := filepath.Join(dir, "x.dic")
	is := c.write(path)
	what := fmt.Sprintf("%s file (version %#x, %d bytes)", c.Kind, c.H.Version, c.Size)
	try := func(name, want string, f func(string, bool) (*dictionary.BinaryDictionary, error)) error {
		return pbt.Try(what+": "+name, func() error {
			d, err := f(path, false)
			if want == "" || want != "any" && want != is || is == "" {
				if err == nil {
					d.Close()
					return fmt.Errorf("%s: %s accepts it", what, name)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("%s: %s: %v", what, name, err)
			}
			defer d.Close()
			if h := d.Header; h.Version != c.H.Version || h.CreateTime != c.H.Time || h.Description != string(c.H.Desc) {
				return fmt.Errorf("%s: %s reads the header %+v, want %+v", what, name, *h, c.H)
			}
			if d.Lexicon.Size() != 1 {
				return fmt.Errorf("%s: %s reads %d words", what, name, d.Lexicon.Size())
			}
			return nil
		})
	}
	if err := try("ReadSystemDictionary", "system", dictionary.ReadSystemDictionary); err != nil {
		return err
	}
	if err := try("ReadUserDictionary", "user", dictionary.ReadUserDictionary); err != nil {
		return err
	}
	if err := try("NewBinaryDictionary", "any", dictionary.NewBinaryDictionary); err != nil {
		return err
	}
	d := base()
	for _, as := range []string{"system", "user"} {
		conf := *d.w.Config(d.f)
		if as == "system" {
			conf.SystemDict, conf.UserDict = path, nil
		} else {
			conf.UserDict = []string{d.f.Users[0], path}
		}
		if err := pbt.Try(what+": opening it as "+as+" dictionary", func() error {
			x, err := gosudachi.NewJapaneseDictionary(&conf, nil, d.w.OovPlugins(d.f), nil, nil)
			if err == nil {
				x.Close()
			}
			if (err == nil) != (is == as) {
				return fmt.Errorf("%s: opening it as %s dictionary: error %v", what, as, err)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	st.Class(c.Kind)
	if c.Kind != "missing" && c.Kind != "dir" {
		st.NonTrivial()
	}
	return nil
}

// checkCommands runs every command that reads a dictionary on the file.
func checkCommands(c fileT, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	path := filepath.Join(dir, "x.dic")
	is := c.write(path)
	what := fmt.Sprintf("%s file (version %#x, %d bytes)", c.Kind, c.H.Version, c.Size)
	b := base()
	r := pbt.Run(dir, nil, "printdicheader", path)
	if r.Crashed() || (r.Code == 0) != (is != "") {
		return fmt.Errorf("%s: printdicheader: %v", what, r)
	}
	if is != "" {
		out := string(r.Out)
		if !strings.Contains(out, "type: "+is+" dictionary\n") {
			return fmt.Errorf("%s: printdicheader prints no type %q: %q", what, is, out)
		}
		if !strings.Contains(out, "description: "+string(c.H.Desc)+"\n") {
			return fmt.Errorf("%s: printdicheader does not print the description %q: %q", what, string(c.H.Desc), out)
		}
		_, x, _ := strings.Cut(out, "createTime: ")
		x, _, _ = strings.Cut(x, "\n")
		x, _, _ = strings.Cut(x, "[")
		if y := time.Unix(c.H.Time, 0).UTC().Year(); y > 0 && y < 9999 && c.H.Time > -1<<36 && c.H.Time < 1<<38 {
			tm, err := time.Parse(time.RFC3339, x)
			if err != nil || tm.Unix() != c.H.Time {
				return fmt.Errorf("%s: printdicheader prints the time %q (%v), want %s", what, x, err, time.Unix(c.H.Time, 0).UTC())
			}
			st.Class("time compared")
		}
	}
	run := func(ok bool, stdin string, name string, args ...string) error {
		r := pbt.Run(dir, strings.NewReader(stdin), name, args...)
		if r.Crashed() || (r.Code == 0) != ok {
			return fmt.Errorf("%s: %s %q: %v", what, name, args, r)
		}
		return nil
	}
	if err := run(is != "", "", "dicconv", "-o", "out.dic", "-j", path); err != nil {
		return err
	}
	csv := world.Write(filepath.Join(dir, "u.csv"), "y,0,0,0,y,a,b,c,d,e,f,y,y,*,A,*,*,*\n")
	if err := run(is == "system", "", "userdicbuilder", "-o", "u.dic", "-s", path, csv); err != nil {
		return err
	}
	if err := run(is == "system", "", "printdic", "-s", path, b.f.Users[0]); err != nil {
		return err
	}
	// a user dictionary needs its system dictionary
	args := []string{path}
	if is == "user" {
		args = []string{"-s", b.f.Sys, path}
	}
	if err := run(is != "", "", "printdic", args...); err != nil {
		return err
	}
	for _, as := range []string{"system", "user"} {
		s := map[string]string{"system": fmt.Sprintf(`"systemDict":%q`, path), "user": fmt.Sprintf(`"systemDict":%q,"userDict":[%q]`, b.f.Sys, path)}[as]
		set := `{` + s + `,"characterDefinitionFile":"` + b.f.CharDef + `","inputTextPlugin":[],"oovProviderPlugin":[{"class":"SimpleOovProviderPlugin","oovPOS":["a","b","c","d","e","f"],"leftId":0,"rightId":0,"cost":1}],"pathRewritePlugin":[]}`
		if err := run(is == as, "x\n", "gosudachicli", "-s", set); err != nil {
			return err
		}
	}
	st.Class(c.Kind)
	if c.Kind != "missing" && c.Kind != "dir" {
		st.NonTrivial()
	}
	return nil
}

func main() {
	pbt.Main("C24",
		pbt.S("headers", 100000, 5000000, "a description that is not empty, or one too long", genHead, checkHead),
		pbt.S("files", 8000, 400000, "a readable file", genFile, checkFile),
		pbt.S("commands", 700, 30000, "a readable file", genFile, checkCommands),
	)
}
