// C09: printing a dictionary lists every word faithfully.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W  *world.World
	V1 bool
}

func gen(odd bool) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, _ := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 2, Odd: odd})
		return caseT{W: w, V1: world.Chance(t, "v1", 20)}
	}
}

type built struct {
	path string
	user bool
	d    *world.Dict
	v1   bool
}

// make builds all dictionaries of the case in a directory.
func (c caseT) build(dir string) ([]built, error) {
	w := c.W
	out := []built{{path: filepath.Join(dir, "system.dic"), d: &w.Sys}}
	if err := world.BuildSystem(out[0].path, "", 0, w.Matrix.Source(), w.Sources(&w.Sys, false), w.Utf16); err != nil {
		return nil, pbt.Skip("%v", err)
	}
	used := map[int]bool{}
	for i := range w.Sys.Rows {
		used[w.Sys.Rows[i].Pos] = true
	}
	sys, err := dictionary.ReadSystemDictionary(out[0].path, w.Utf16)
	if err != nil {
		return nil, pbt.Skip("%v", err)
	}
	defer sys.Close()
	for i := range w.Users {
		b := built{path: filepath.Join(dir, "user"+strconv.Itoa(i)+".dic"), user: true, d: &w.Users[i], v1: c.V1}
		for _, r := range b.d.Rows {
			b.v1 = b.v1 && used[r.Pos]
		}
		if err := world.BuildUser(b.path, "", 0, sys, w.Sources(b.d, true), w.Utf16, b.v1); err != nil {
			return nil, pbt.Skip("%v", err)
		}
		out = append(out, b)
	}
	return out, nil
}

func ids(user bool, refs []world.Ref) string {
	if len(refs) == 0 {
		return "*"
	}
	var p []string
	for _, r := range refs {
		if user && r.Own {
			p = append(p, "U"+strconv.Itoa(r.Row))
		} else {
			p = append(p, strconv.Itoa(r.Row))
		}
	}
	return strings.Join(p, "/")
}

// expect gives what must be printed.
func expect(w *world.World, b built) string {
	var out strings.Builder
	for i := range b.d.Rows {
		r := &b.d.Rows[i]
		left, df, unit := r.Left, "*", "C"
		if r.NoIndex {
			left = -1
		}
		if r.DicForm >= 0 {
			df = strconv.Itoa(r.DicForm)
		}
		if len(r.A) == 0 {
			unit = "A"
		} else if len(r.B) == 0 {
			unit = "B"
		}
		fmt.Fprintf(&out, "%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n", string(r.Surface), left, r.Right, r.Cost, string(r.Surface), w.POS[r.Pos].Join(),
			r.ReadReading(), r.ReadNorm(), df, unit, ids(b.user, r.A), ids(b.user, r.B), ids(b.user, r.W))
	}
	return out.String()
}

func print1(w *world.World, b built, sys *dictionary.BinaryDictionary) (string, error) {
	var out bytes.Buffer
	err := dictionary.PrintDictionary(b.path, w.Utf16, sys, &out)
	return out.String(), err
}

func firstDiff(got, want string) string {
	g, x := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range x {
		if i >= len(g) || g[i] != x[i] {
			y := "nothing"
			if i < len(g) {
				y = fmt.Sprintf("%.300q", g[i])
			}
			return fmt.Sprintf("line %d is %s, want %.300q", i+1, y, x[i])
		}
	}
	return fmt.Sprintf("%d lines, want %d", len(g), len(x))
}

func stats(c caseT, bs []built, st *pbt.Stats) {
	for i, b := range bs {
		st.ClassIf(b.user, "user dictionary")
		st.ClassIf(b.v1, "user dictionary of the first format version")
		for _, r := range b.d.Rows {
			st.ClassIf(len(r.A) > 0 && len(r.B) > 0, "unit C")
			st.ClassIf(len(r.A) > 0 && len(r.B) == 0, "unit B")
			st.ClassIf(len(r.A) == 0 && len(r.B) > 0, "B units only")
			st.ClassIf(len(r.W) > 0, "word structure")
			st.ClassIf(r.NoIndex, "not indexed")
			for _, q := range append(append([]world.Ref(nil), r.A...), r.B...) {
				st.ClassIf(i > 0 && q.Own, "user word split into own words")
				st.ClassIf(i > 0 && !q.Own, "user word split into system words")
			}
		}
	}
	st.ClassIf(c.W.Utf16, "UTF-16")
	if len(bs[0].d.Rows) > 2 {
		st.NonTrivial()
	}
}

func check(c caseT, st *pbt.Stats) error {
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	bs, err := c.build(dir)
	if err != nil {
		return err
	}
	stats(c, bs, st)
	sys, err := dictionary.ReadSystemDictionary(bs[0].path, w.Utf16)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	defer sys.Close()
	var posBefore [][]string
	for i := 0; i < sys.Grammar.GetPartOfSpeechSize(); i++ {
		posBefore = append(posBefore, append([]string(nil), sys.Grammar.GetPartOfSpeechString(int16(i))...))
	}
	var files [][]byte
	for _, b := range bs {
		x, err := os.ReadFile(b.path)
		pbt.Must(err)
		files = append(files, x)
	}
	for round := 0; round < 2; round++ {
		for _, b := range bs {
			arg := sys
			if !b.user && round == 0 {
				arg = nil
			}
			got, err := print1(w, b, arg)
			if err != nil {
				return fmt.Errorf("printing %s: %v", filepath.Base(b.path), err)
			}
			if want := expect(w, b); got != want {
				return fmt.Errorf("printing %s (round %d): %s", filepath.Base(b.path), round, firstDiff(got, want))
			}
			if b.user {
				if _, err := print1(w, b, nil); err == nil {
					return fmt.Errorf("printing %s without the system dictionary succeeds", filepath.Base(b.path))
				}
			}
		}
	}
	var posAfter [][]string
	for i := 0; i < sys.Grammar.GetPartOfSpeechSize(); i++ {
		posAfter = append(posAfter, sys.Grammar.GetPartOfSpeechString(int16(i)))
	}
	if !reflect.DeepEqual(posBefore, posAfter) {
		return fmt.Errorf("printing changes the parts of speech of the system dictionary from %q to %q", posBefore, posAfter)
	}
	for i, b := range bs {
		if x, err := os.ReadFile(b.path); err != nil || !bytes.Equal(x, files[i]) {
			return fmt.Errorf("printing changes the file %s", filepath.Base(b.path))
		}
	}
	return nil
}

// --- rebuilding from the printed lines

// plain makes a world whose words can be written as they are printed.
func plain(w *world.World) {
	bad := func(s pbt.Str) bool { return strings.ContainsAny(string(s), ",\\\n\r\x00") || s == "" }
	for i := range w.POS {
		for k, p := range w.POS[i] {
			if strings.ContainsAny(string(p), ",\\\n\r") {
				w.POS[i][k] = pbt.Str("p" + strconv.Itoa(i))
			}
		}
	}
	for n := 0; n <= len(w.Users); n++ {
		d := &w.Sys
		if n > 0 {
			d = &w.Users[n-1]
		}
		for i := range d.Rows {
			r := &d.Rows[i]
			if bad(r.Head) {
				r.Head = "x"
			}
			r.Surface, r.NoIndex = r.Head, false
			if bad(r.Reading) {
				r.Reading = ""
			}
			if bad(r.Norm) {
				r.Norm = ""
			}
			if len(r.A) == 0 {
				r.B = nil
			}
			for _, rs := range [][]world.Ref{r.A, r.B, r.W} {
				for k := range rs {
					rs[k].Kind = "id"
					if n > 0 && rs[k].Own {
						rs[k].Kind = "U"
					}
				}
			}
		}
	}
}

func checkRebuild(c caseT, st *pbt.Stats) error {
	w := c.W
	plain(w)
	homo := map[string]int{}
	for _, r := range w.Sys.Rows {
		homo[string(r.Head)]++
	}
	dir, rm := world.Dir()
	defer rm()
	bs, err := c.build(dir)
	if err != nil {
		return err
	}
	stats(c, bs, st)
	sys, err := dictionary.ReadSystemDictionary(bs[0].path, w.Utf16)
	if err != nil {
		return pbt.Skip("%v", err)
	}
	defer sys.Close()
	for _, b := range bs {
		text, err := print1(w, b, sys)
		if err != nil {
			return fmt.Errorf("printing %s: %v", filepath.Base(b.path), err)
		}
		again := filepath.Join(dir, "again.dic")
		if b.user {
			err = world.BuildUser(again, "", 0, sys, []string{text}, w.Utf16, b.v1)
		} else {
			err = world.BuildSystem(again, "", 0, w.Matrix.Source(), []string{text}, w.Utf16)
		}
		if err != nil {
			return fmt.Errorf("the printed form of %s cannot be built: %v\n%.2000s", filepath.Base(b.path), err, text)
		}
		if same, err := world.SameFile(again, b.path); err != nil || !same {
			return fmt.Errorf("%s rebuilt from its printed form is another dictionary (%v)\n%.2000s", filepath.Base(b.path), err, text)
		}
	}
	return nil
}

// --- many words

func bulk(check func(c caseT, st *pbt.Stats) error) func(b world.Bulk, st *pbt.Stats) error {
	return func(b world.Bulk, st *pbt.Stats) error {
		b.Classes(st)
		return check(caseT{W: b.World()}, st)
	}
}

func genBulk(min, max int) func(t *rapid.T) world.Bulk {
	return func(t *rapid.T) world.Bulk { return world.DrawBulk(t, min, max, 1) }
}

// --- the command

func checkCommand(c caseT, st *pbt.Stats) error {
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	bs, err := c.build(dir)
	if err != nil {
		return err
	}
	stats(c, bs, st)
	run := func(args ...string) (string, string, error) {
		if w.Utf16 {
			args = append([]string{"-j"}, args...)
		}
		var out, errb bytes.Buffer
		cmd := exec.Command(filepath.Join(pbt.CLIDir, "printdic"), args...)
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		return out.String(), errb.String(), err
	}
	for _, b := range bs {
		args := []string{b.path}
		if b.user {
			args = []string{"-s", bs[0].path, b.path}
			if _, e, err := run(b.path); err == nil || strings.Contains(e, "goroutine ") {
				return fmt.Errorf("printdic on a user dictionary without the system dictionary: %v %.300s", err, e)
			}
			if _, e, err := run("-s", b.path, b.path); err == nil || strings.Contains(e, "goroutine ") {
				return fmt.Errorf("printdic with a user dictionary as the system dictionary: %v %.300s", err, e)
			}
		}
		got, e, err := run(args...)
		if err != nil {
			return fmt.Errorf("printdic: %v %.300s", err, e)
		}
		if want := expect(w, b); got != want {
			return fmt.Errorf("printdic %s: %s", filepath.Base(b.path), firstDiff(got, want))
		}
	}
	return nil
}

func main() {
	const rule = "a system dictionary of at least three rows"
	pbt.Main("C09",
		pbt.S("print", 6000, 200000, rule, gen(true), check),
		pbt.S("rebuild", 6000, 200000, rule, gen(true), checkRebuild),
		pbt.S("many", 20, 500, rule, genBulk(20, 3000), bulk(check)),
		pbt.S("huge", 2, 40, rule, genBulk(65600, 100000), bulk(check)),
		pbt.S("manyrebuild", 20, 500, rule, genBulk(20, 3000), bulk(checkRebuild)),
		pbt.S("command", 250, 6000, rule, gen(true), checkCommand),
	)
}
