// C05: UTF-8 and UTF-16 dictionaries are equivalent and convert losslessly.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/dictcheck"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W    *world.World
	V1   bool // user dictionaries in the first format version where possible
	Text pbt.Str
}

func gen(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 2, Odd: true})
	return caseT{W: w, V1: world.Chance(t, "v1", 30), Text: pbt.Str(world.DrawText(t, w, alpha, 5))}
}

func isASCII(s pbt.Str) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func stats(c caseT, st *pbt.Stats) {
	w := c.W
	uni := false
	for n := 0; n <= len(w.Users); n++ {
		d := &w.Sys
		if n > 0 {
			d = &w.Users[n-1]
			st.Class("user dictionary")
		}
		for _, r := range d.Rows {
			for _, s := range []pbt.Str{r.Surface, r.Reading, r.Norm} {
				uni = uni || !isASCII(s)
				st.ClassIf(len(s) > 127, "string over 127 bytes")
				st.ClassIf(len(s) > 255, "string over 255 bytes")
				st.ClassIf(s == "", "empty string")
				for _, x := range string(s) {
					st.ClassIf(x > 0xffff, "character beyond the BMP")
					st.ClassIf(x == 0, "NUL character")
				}
			}
		}
	}
	if uni {
		st.NonTrivial()
	}
}

type pair struct {
	what   string
	path   [2]string // UTF-8, UTF-16
	user   bool
	number int
}

func buildBoth(c caseT, dir string) ([]pair, error) {
	w := c.W
	var ps []pair
	sys := pair{what: "system dictionary"}
	for i, u16 := range []bool{false, true} {
		sys.path[i] = filepath.Join(dir, "sys"+strconv.Itoa(i)+".dic")
		if err := world.BuildSystem(sys.path[i], string(w.Sys.Desc), w.Sys.Time, w.Matrix.Source(), w.Sources(&w.Sys, false), u16); err != nil {
			return nil, fmt.Errorf("a valid source is refused (UTF-16 %v): %v", u16, err)
		}
	}
	ps = append(ps, sys)
	used := map[int]bool{}
	for i := range w.Sys.Rows {
		used[w.Sys.Rows[i].Pos] = true
	}
	for n := range w.Users {
		u := &w.Users[n]
		v1 := c.V1
		for _, r := range u.Rows {
			v1 = v1 && used[r.Pos]
		}
		p := pair{what: "user dictionary " + strconv.Itoa(n), user: true, number: n}
		for i, u16 := range []bool{false, true} {
			sd, err := dictionary.ReadSystemDictionary(sys.path[i], u16)
			if err != nil {
				return nil, err
			}
			p.path[i] = filepath.Join(dir, fmt.Sprintf("user%d-%d.dic", n, i))
			err = world.BuildUser(p.path[i], string(u.Desc), u.Time, sd, w.Sources(u, true), u16, v1)
			sd.Close()
			if err != nil {
				return nil, fmt.Errorf("a valid user source is refused (UTF-16 %v): %v", u16, err)
			}
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// convert does what the conversion command does, with the library.
func convert(from, to string, toUtf16 bool) error {
	out := &bytes.Buffer{}
	if err := convertTo(out, from, toUtf16); err != nil {
		return err
	}
	pbt.Must(os.WriteFile(to, out.Bytes(), 0644))
	return nil
}

// convertTo writes the parts one after the other, but for the table of word
// offsets, which is written last and belongs before the word infos.
func convertTo(to io.Writer, from string, toUtf16 bool) error {
	d, err := dictionary.NewBinaryDictionary(from, !toUtf16)
	if err != nil {
		return err
	}
	defer d.Close()
	hb, err := d.Header.ToBytes()
	if err != nil {
		return err
	}
	out := &counter{w: to}
	if _, err := out.Write(hb); err != nil {
		return err
	}
	if d.Grammar != nil {
		table := &bytes.Buffer{}
		if err := d.Grammar.WritePOSTableTo(table, toUtf16); err != nil {
			return err
		}
		if _, err := table.WriteTo(out); err != nil {
			return err
		}
		if _, err := d.Grammar.WriteConnMatrixTo(out); err != nil {
			return err
		}
	}
	if _, err := d.Lexicon.WriteTrieTo(out); err != nil {
		return err
	}
	if _, err := d.Lexicon.WriteWordIdTableTo(out); err != nil {
		return err
	}
	if _, err := d.Lexicon.WriteWordParamsTo(out); err != nil {
		return err
	}
	infos := &bytes.Buffer{}
	var at io.Writer = infos
	if f, ok := to.(*fullWriter); ok {
		at = f // fails among the word infos
	}
	tab := int64(4 * d.Lexicon.Size())
	_, offsets, err := d.Lexicon.WriteWordInfos(at, int64(out.n), tab, toUtf16)
	if err != nil {
		return err
	}
	if int64(offsets.Len()) != tab {
		return fmt.Errorf("the word offsets take %d bytes for %d words", offsets.Len(), d.Lexicon.Size())
	}
	if _, err := offsets.WriteTo(out); err != nil {
		return err
	}
	_, err = infos.WriteTo(out)
	return err
}

// counter counts the bytes written.
type counter struct {
	w io.Writer
	n int
}

func (c *counter) Write(p []byte) (int, error) {
	n, err := c.w.Write(p)
	c.n += n
	return n, err
}

// fullWriter takes a number of bytes.
type fullWriter struct{ left int }

func (w *fullWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, fmt.Errorf("no space left")
	}
	w.left -= len(p)
	return len(p), nil
}

// --- conversions that cannot be written or read

type faultCase struct {
	C    caseT
	At   int // permille of the output
	User bool
	To16 bool
	How  string
}

func genFault(t *rapid.T) faultCase {
	return faultCase{gen(t), rapid.IntRange(0, 1000).Draw(t, "at"), rapid.Bool().Draw(t, "user"), rapid.Bool().Draw(t, "to16"),
		world.Pick(t, "how", []string{"writer", "writer", "full", "missing", "directory", "no name", "nothing"})}
}

func checkFault(c faultCase, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	ps, err := buildBoth(c.C, dir)
	if err != nil {
		return err
	}
	p := ps[0]
	if c.User {
		p = ps[len(ps)-1]
	}
	i := 0
	if !c.To16 {
		i = 1
	}
	from, want := p.path[i], p.path[1-i]
	st.Class(c.How)
	st.NonTrivial()
	if c.How == "writer" {
		x, err := os.ReadFile(want)
		pbt.Must(err)
		at := len(x) * c.At / 1001
		if err := convertTo(&fullWriter{at}, from, c.To16); err == nil {
			return fmt.Errorf("%s: the conversion succeeds although writing fails after %d of %d bytes", p.what, at, len(x))
		}
		return nil
	}
	var args []string
	if c.To16 {
		args = append(args, "-j")
	}
	switch c.How {
	case "full":
		args = append(args, "-o", "/dev/full", from)
	case "missing":
		args = append(args, "-o", filepath.Join(dir, "out.dic"), filepath.Join(dir, "missing.dic"))
	case "directory":
		args = append(args, "-o", filepath.Join(dir, "missing", "out.dic"), from)
	case "no name":
		args = append(args, from)
	}
	cmd := exec.Command(filepath.Join(pbt.CLIDir, "dicconv"), args...)
	cmd.Dir = filepath.Join(dir, "cwd")
	pbt.Must(os.Mkdir(cmd.Dir, 0755))
	b, err := cmd.CombinedOutput()
	if len(b) > 500 {
		b = b[len(b)-500:]
	}
	if c.How == "no name" {
		name := filepath.Join(cmd.Dir, "out_utf8.dic")
		if c.To16 {
			name = filepath.Join(cmd.Dir, "out_utf16.dic")
		}
		if err != nil {
			return fmt.Errorf("%s: dicconv without -o: %v\n%s", p.what, err, b)
		}
		if same, err := world.SameFile(name, want); err != nil || !same {
			return fmt.Errorf("%s: dicconv without -o does not write the converted dictionary to %s (%v)", p.what, filepath.Base(name), err)
		}
		return nil
	}
	var ee *exec.ExitError
	if err == nil {
		return fmt.Errorf("%s: dicconv %q succeeds:\n%s", p.what, args, b)
	} else if !errors.As(err, &ee) {
		pbt.Must(err)
	}
	if ee.ExitCode() != 1 || strings.Contains(string(b), "goroutine ") {
		return fmt.Errorf("%s: dicconv %q ends with status %d:\n%s", p.what, args, ee.ExitCode(), b)
	}
	return nil
}

func command(name string, args ...string) ([]byte, error) {
	return exec.Command(filepath.Join(pbt.CLIDir, name), args...).CombinedOutput()
}

func convCommand(from, to string, toUtf16 bool) error {
	args := []string{"-o", to}
	if toUtf16 {
		args = append(args, "-j")
	}
	if b, err := command("dicconv", append(args, from)...); err != nil {
		return fmt.Errorf("dicconv: %v\n%s", err, b)
	}
	return nil
}

func diff(a, b string) string {
	x, err := os.ReadFile(a)
	pbt.Must(err)
	y, err := os.ReadFile(b)
	pbt.Must(err)
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("byte %d of %d and %d", i, len(x), len(y))
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(x), len(y))
}

func checkConvert(conv func(from, to string, u16 bool) error) func(c caseT, st *pbt.Stats) error {
	return func(c caseT, st *pbt.Stats) error {
		stats(c, st)
		dir, rm := world.Dir()
		defer rm()
		ps, err := buildBoth(c, dir)
		if err != nil {
			return err
		}
		for _, p := range ps {
			for i, u16 := range []bool{true, false} {
				out, back := filepath.Join(dir, "out.dic"), filepath.Join(dir, "back.dic")
				if err := conv(p.path[i], out, u16); err != nil {
					return fmt.Errorf("%s: converting to UTF-16=%v: %v", p.what, u16, err)
				}
				if same, err := world.SameFile(out, p.path[1-i]); err != nil || !same {
					return fmt.Errorf("%s: converted to UTF-16=%v it is not the file built in that format (%s) %v", p.what, u16, diff(out, p.path[1-i]), err)
				}
				if err := conv(out, back, !u16); err != nil {
					return fmt.Errorf("%s: converting back from UTF-16=%v: %v", p.what, u16, err)
				}
				if same, err := world.SameFile(back, p.path[i]); err != nil || !same {
					return fmt.Errorf("%s: converted to UTF-16=%v and back it is not the original file (%s) %v", p.what, u16, diff(back, p.path[i]), err)
				}
			}
		}
		return nil
	}
}

// --- many words

func genBulk(min, max int) func(t *rapid.T) world.Bulk {
	return func(t *rapid.T) world.Bulk { return world.DrawBulk(t, min, max, 1) }
}

func bulk(check func(c caseT, st *pbt.Stats) error) func(b world.Bulk, st *pbt.Stats) error {
	return func(b world.Bulk, st *pbt.Stats) error {
		b.Classes(st)
		w := b.World()
		return check(caseT{W: w, Text: w.Sys.Rows[b.N/2].Head + w.Sys.Rows[b.N/3].Head + w.Sys.Rows[0].Head}, st)
	}
}

// --- contents

func checkContents(c caseT, st *pbt.Stats) error {
	stats(c, st)
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	ps, err := buildBoth(c, dir)
	if err != nil {
		return err
	}
	for _, p := range ps {
		var ds [2]*dictionary.BinaryDictionary
		for i, u16 := range []bool{false, true} {
			d, err := dictionary.NewBinaryDictionary(p.path[i], u16)
			if err != nil {
				return fmt.Errorf("%s: reading (UTF-16 %v): %v", p.what, u16, err)
			}
			defer d.Close()
			ds[i] = d
		}
		if *ds[0].Header != *ds[1].Header {
			return fmt.Errorf("%s: headers differ: %+v %+v", p.what, *ds[0].Header, *ds[1].Header)
		}
		if (ds[0].Grammar == nil) != (ds[1].Grammar == nil) {
			return fmt.Errorf("%s: only one of the formats has a grammar", p.what)
		}
		if ds[0].Grammar != nil {
			n := ds[0].Grammar.GetPartOfSpeechSize()
			if m := ds[1].Grammar.GetPartOfSpeechSize(); m != n {
				return fmt.Errorf("%s: %d and %d parts of speech", p.what, n, m)
			}
			for i := 0; i < int(n); i++ {
				if a, b := ds[0].Grammar.GetPartOfSpeechString(int16(i)), ds[1].Grammar.GetPartOfSpeechString(int16(i)); !slices.Equal(a, b) {
					return fmt.Errorf("%s: part of speech %d is %q in UTF-8, %q in UTF-16", p.what, i, a, b)
				}
			}
		}
		if !p.user {
			for _, d := range ds {
				if err := dictcheck.Matrix(&w.Matrix, d.Grammar.GetConnectCost); err != nil {
					return err
				}
				if err := dictcheck.Lexicon(w, &w.Sys, 0, d.Lexicon, d.Grammar.GetPartOfSpeechString); err != nil {
					return err
				}
			}
		}
		a, b := ds[0].Lexicon, ds[1].Lexicon
		if a.Size() != b.Size() {
			return fmt.Errorf("%s: %d and %d words", p.what, a.Size(), b.Size())
		}
		for id := int32(0); id < a.Size(); id++ {
			if x, y := a.GetWordInfo(id), b.GetWordInfo(id); !reflect.DeepEqual(x, y) {
				return fmt.Errorf("%s: word %d is %.300q in UTF-8, %.300q in UTF-16", p.what, id, fmt.Sprintf("%+v", *x), fmt.Sprintf("%+v", *y))
			}
			if a.GetLeftId(id) != b.GetLeftId(id) || a.GetRightId(id) != b.GetRightId(id) || a.GetCost(id) != b.GetCost(id) {
				return fmt.Errorf("%s: parameters of word %d differ", p.what, id)
			}
		}
		text := []byte(string(c.Text))
		for off := range text {
			x, err1 := dictcheck.Drain(a.Lookup(text, off), 1000, 0)
			y, err2 := dictcheck.Drain(b.Lookup(text, off), 1000, 0)
			if err1 != nil || err2 != nil || !slices.Equal(x, y) {
				return fmt.Errorf("%s: looking up %q at %d gives %v (%v) in UTF-8, %v (%v) in UTF-16", p.what, text, off, x, err1, y, err2)
			}
		}
	}
	return nil
}

// --- the building commands with and without -j

func checkBuilders(c caseT, st *pbt.Stats) error {
	stats(c, st)
	w := c.W
	c.V1 = false
	dir, rm := world.Dir()
	defer rm()
	ps, err := buildBoth(c, dir)
	if err != nil {
		return err
	}
	matrix := world.Write(filepath.Join(dir, "matrix.def"), w.Matrix.Source())
	for _, p := range ps {
		for i := range p.path {
			out := filepath.Join(dir, "cmd.dic")
			args := []string{"-o", out}
			name, d := "dicbuilder", &w.Sys
			if p.user {
				name, d = "userdicbuilder", &w.Users[p.number]
				args = append(args, "-s", ps[0].path[i])
			} else {
				args = append(args, "-m", matrix)
			}
			if d.Desc != "" {
				args = append(args, "-d", string(d.Desc))
			}
			if i == 1 {
				args = append(args, "-j")
			}
			for k, s := range w.Sources(d, p.user) {
				args = append(args, world.Write(filepath.Join(dir, fmt.Sprintf("lex%d.csv", k)), s))
			}
			if b, err := command(name, args...); err != nil {
				return fmt.Errorf("%s fails on a valid source: %v\n%s", name, err, b)
			}
			x, err := os.ReadFile(p.path[i])
			pbt.Must(err)
			y, err := os.ReadFile(out)
			if err != nil {
				return err
			}
			if len(x) != len(y) || !bytes.Equal(x[:8], y[:8]) || !bytes.Equal(x[16:], y[16:]) {
				return fmt.Errorf("%s and the library build different files (UTF-16 %v)", name, i == 1)
			}
		}
	}
	return nil
}

// --- strings at the limits of the formats

type limitCase struct {
	Unit  pbt.Str
	Count int
	Extra int // further ASCII characters
	Cell  int // surface, reading, norm, part of speech
	User  bool
}

func genLimit(t *rapid.T) limitCase {
	c := limitCase{Unit: pbt.Str(world.Pick(t, "unit", []string{"あ", "é", "𠮷", "a"})), Cell: rapid.IntRange(0, 3).Draw(t, "cell"), User: rapid.Bool().Draw(t, "user")}
	n := len(c.Unit)
	// around the limit in bytes, and up to the limit in UTF-16 code units
	switch rapid.IntRange(0, 3).Draw(t, "around") {
	case 0:
		c.Count, c.Extra = 32767/n, 32767%n
	case 1:
		c.Count, c.Extra = 32767/n, 32767%n+1
	case 2:
		c.Count = 32767 / n
		c.Extra = rapid.IntRange(0, 6).Draw(t, "extra")
	default:
		c.Count = rapid.IntRange(10000, 32767).Draw(t, "count")
	}
	for c.units() > 32767 {
		c.Count--
	}
	return c
}

func (c limitCase) text() string {
	return strings.Repeat(string(c.Unit), c.Count) + strings.Repeat("x", c.Extra)
}

func (c limitCase) units() int {
	n := c.Count
	if c.Unit == "𠮷" {
		n *= 2
	}
	return n + c.Extra
}

func checkLimit(c limitCase, st *pbt.Stats) error {
	s := c.text()
	fits := len(s) <= 32767
	st.ClassIf(fits, "fits both formats")
	st.ClassIf(!fits, "fits only UTF-16")
	st.ClassIf(len(s) == 32767 || len(s) == 32768, "at the limit")
	st.NonTrivial()
	dir, rm := world.Dir()
	defer rm()
	row := []string{"x", "0", "0", "0", "x", "P", "Q", "R", "S", "T", "U", "x", "x", "*", "A", "*", "*", "*"}
	row[[]int{4, 11, 12, 8}[c.Cell]] = s
	src := strings.Join(row, ",") + "\n"
	build := func(u16 bool) (string, error) {
		path := filepath.Join(dir, fmt.Sprintf("dic%v", u16))
		if !c.User {
			return path, world.BuildSystem(path, "", 0, "1 1\n0 0 0\n", []string{src}, u16)
		}
		sp := filepath.Join(dir, fmt.Sprintf("sys%v", u16))
		if err := world.BuildSystem(sp, "", 0, "1 1\n0 0 0\n", []string{"y,0,0,0,y,P,Q,R,S,T,U,y,y,*,A,*,*,*\n"}, u16); err != nil {
			return "", err
		}
		sd, err := dictionary.ReadSystemDictionary(sp, u16)
		if err != nil {
			return "", err
		}
		defer sd.Close()
		return path, world.BuildUser(path, "", 0, sd, []string{src}, u16, false)
	}
	p16, err := build(true)
	if err != nil {
		return fmt.Errorf("a string of %d UTF-16 code units is refused for UTF-16: %v", c.units(), err)
	}
	out := filepath.Join(dir, "out.dic")
	err = convCommand(p16, out, false)
	if !fits {
		if err == nil {
			return fmt.Errorf("converting a string of %d bytes to UTF-8 is accepted", len(s))
		}
		if _, err := build(false); err == nil {
			return fmt.Errorf("building with a string of %d bytes for UTF-8 is accepted", len(s))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("converting a string of %d bytes to UTF-8: %v", len(s), err)
	}
	p8, err := build(false)
	if err != nil {
		return fmt.Errorf("a string of %d bytes is refused for UTF-8: %v", len(s), err)
	}
	if same, err := world.SameFile(p8, out); err != nil || !same {
		return fmt.Errorf("converted to UTF-8 it is not the file built in that format (%s) %v", diff(out, p8), err)
	}
	back := filepath.Join(dir, "back.dic")
	if err := convCommand(out, back, true); err != nil {
		return err
	}
	if same, err := world.SameFile(p16, back); err != nil || !same {
		return fmt.Errorf("converted to UTF-8 and back it is not the original file (%s) %v", diff(back, p16), err)
	}
	return nil
}

func main() {
	const rule = "at least one string with a character beyond ASCII"
	pbt.Main("C05",
		pbt.S("convert", 6000, 200000, rule, gen, checkConvert(convert)),
		pbt.S("contents", 6000, 200000, rule, gen, checkContents),
		pbt.S("command", 300, 8000, rule, gen, checkConvert(convCommand)),
		pbt.S("builders", 200, 5000, rule, gen, checkBuilders),
		pbt.S("many", 12, 400, "hundreds of rows", genBulk(20, 3000), bulk(checkConvert(convert))),
		pbt.S("huge", 2, 40, "tens of thousands of rows", genBulk(64000, 100000), bulk(checkConvert(convert))),
		pbt.S("manycontents", 12, 400, "hundreds of rows", genBulk(20, 3000), bulk(checkContents)),
		pbt.S("manycommand", 4, 100, "thousands of rows", genBulk(2000, 20000), bulk(checkConvert(convCommand))),
		pbt.S("faults", 600, 10000, "an output that cannot be written or an input that cannot be read", genFault, checkFault),
		pbt.S("limits", 200, 5000, "a string near a length limit", genLimit, checkLimit),
	)
}
