// C04: a dictionary built from its source reads back as that source.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/dictcheck"
	"verifharness/pbt"
	"verifharness/world"
)

type caseT struct {
	W    *world.World
	Text pbt.Str
}

func stats(w *world.World, st *pbt.Stats) {
	heads := map[pbt.Str]int{}
	for i := range w.Sys.Rows {
		r := &w.Sys.Rows[i]
		heads[r.Head]++
		st.ClassIf(heads[r.Head] == 2, "homographs")
		st.ClassIf(r.NoIndex, "row not indexed")
		st.ClassIf(len(r.A) > 0, "A split")
		st.ClassIf(len(r.B) > 0, "B split")
		st.ClassIf(len(r.W) > 0, "word structure")
		st.ClassIf(r.DicForm >= 0 && r.DicForm != i, "dictionary form of another row")
		st.ClassIf(len(r.Reading) > 127 || len(r.Norm) > 127 || len(r.Head) > 127, "string over 127 bytes")
		st.ClassIf(r.Reading == "" || r.Norm == "", "empty form")
		st.ClassIf(r.Esc > 0, "escaped cells")
		for _, q := range append(append([]world.Ref(nil), r.A...), r.B...) {
			st.ClassIf(q.Kind == "desc", "reference by description")
			st.ClassIf(q.Kind == "U", "reference by U number")
		}
	}
	st.ClassIf(w.Utf16, "UTF-16")
	st.ClassIf(w.Sys.Newline == "\r\n", "CR LF")
	st.ClassIf(len(w.Sys.Files) > 0, "several source files")
	if len(w.Sys.Rows) >= 3 && (w.Matrix.L > 1 || w.Matrix.R > 1) {
		st.NonTrivial()
	}
}

func readback(w *world.World, path, text string, st *pbt.Stats) error {
	d, err := dictionary.ReadSystemDictionary(path, w.Utf16)
	if err != nil {
		return fmt.Errorf("reading the dictionary: %v", err)
	}
	defer d.Close()
	if err := dictcheck.Matrix(&w.Matrix, d.Grammar.GetConnectCost); err != nil {
		return err
	}
	if err := dictcheck.Lexicon(w, &w.Sys, 0, d.Lexicon, d.Grammar.GetPartOfSpeechString); err != nil {
		return err
	}
	hits, err := dictcheck.Lookup(&w.Sys, d.Lexicon, text)
	if err != nil {
		return err
	}
	st.ClassIf(hits > 0, "lookup with results")
	for i := range w.Sys.Rows {
		if h := string(w.Sys.Rows[i].Head); len(h) < 400 {
			if _, err := dictcheck.Lookup(&w.Sys, d.Lexicon, h); err != nil {
				return err
			}
		}
	}
	// reading again gives the same
	return dictcheck.Lexicon(w, &w.Sys, 0, d.Lexicon, d.Grammar.GetPartOfSpeechString)
}

func checkHeader(path string, w *world.World) error {
	d, err := dictionary.NewBinaryDictionary(path, w.Utf16)
	if err != nil {
		return err
	}
	defer d.Close()
	if d.Header.Version != dictionary.SystemDictVersion || d.Header.CreateTime != w.Sys.Time || d.Header.Description != string(w.Sys.Desc) {
		return fmt.Errorf("the header reads back as %+v, written with time %d and description %q", *d.Header, w.Sys.Time, string(w.Sys.Desc))
	}
	return nil
}

func check(c caseT, st *pbt.Stats) error {
	stats(c.W, st)
	dir, rm := world.Dir()
	defer rm()
	path := filepath.Join(dir, "system.dic")
	w := c.W
	if err := world.BuildSystem(path, string(w.Sys.Desc), w.Sys.Time, w.Matrix.Source(), w.Sources(&w.Sys, false), w.Utf16); err != nil {
		return fmt.Errorf("a valid source is refused: %v", err)
	}
	if err := checkHeader(path, w); err != nil {
		return err
	}
	return readback(w, path, string(c.Text), st)
}

func gen(t *rapid.T) caseT {
	w, alpha := world.Draw(t, world.Opt{MaxRows: 14, Odd: true})
	return caseT{W: w, Text: pbt.Str(world.DrawText(t, w, alpha, 6))}
}

// --- many rows and large matrices

func checkBig(b world.Bulk, st *pbt.Stats) error {
	w := b.World()
	b.Classes(st)
	dir, rm := world.Dir()
	defer rm()
	path := filepath.Join(dir, "system.dic")
	if err := world.BuildSystem(path, "", 0, w.Matrix.Source(), w.Sources(&w.Sys, false), w.Utf16); err != nil {
		return fmt.Errorf("a valid source is refused: %v", err)
	}
	d, err := dictionary.ReadSystemDictionary(path, w.Utf16)
	if err != nil {
		return err
	}
	defer d.Close()
	if err := dictcheck.Matrix(&w.Matrix, d.Grammar.GetConnectCost); err != nil {
		return err
	}
	if err := dictcheck.Lexicon(w, &w.Sys, 0, d.Lexicon, d.Grammar.GetPartOfSpeechString); err != nil {
		return err
	}
	var text strings.Builder
	for i := 0; i < len(w.Sys.Rows) && i < 12; i++ {
		text.WriteString(string(w.Sys.Rows[(i*7919)%len(w.Sys.Rows)].Head))
	}
	_, err = dictcheck.Lookup(&w.Sys, d.Lexicon, text.String())
	return err
}

// --- escape sequences

var escape = regexp.MustCompile(`\\u([0-9a-fA-F]{4}|\{[0-9a-fA-F]+\})`)

func decode(s string) string {
	return escape.ReplaceAllStringFunc(s, func(m string) string {
		n, err := strconv.ParseInt(strings.Trim(m[2:], "{}"), 16, 64)
		if err != nil || n > 0x10ffff {
			return m
		}
		return string(rune(n))
	})
}

type esc struct{ Cells []pbt.Str }

func genEsc(t *rapid.T) esc {
	var c esc
	for i := 0; i < 4; i++ {
		var b strings.Builder
		n := rapid.IntRange(0, 7).Draw(t, "n")
		for k := 0; k < n; k++ {
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 6:
				// an escape with one character inserted, replaced or left out
				e := []rune(world.Pick(t, "near", []string{`\u3042`, `\u{3042}`, `\u{41}`, `\u0041`, `\u{20bb7}`, `\\u3042`}))
				at := rapid.IntRange(0, len(e)).Draw(t, "at")
				ins := []rune(world.Pick(t, "ins", []string{"", `\`, "u", "{", "}", "0", "f", "g", "あ", " ", "-", "+", "_"}))
				end := min(at+rapid.IntRange(0, 1).Draw(t, "del"), len(e))
				b.WriteString(string(e[:at]) + string(ins) + string(e[end:]))
			case 0:
				fmt.Fprintf(&b, `\u%04x`, world.Pick(t, "cp", []int{0x41, 0x2c, 0x5c, 0x22, 0x3042, 0xff21, 0xfffd, 0x0a, 0, 0x7b}))
			case 1:
				fmt.Fprintf(&b, `\u{%X}`, world.Pick(t, "cp", []int{0x41, 0x2c, 0x5c, 0x20bb7, 0x10ffff, 0x110000, 0x7fffffff, 0x100000000, 7}))
			case 2:
				b.WriteString(world.Pick(t, "frag", []string{`\`, `\u`, `\u{`, `\u{}`, `\u{0041}`, `\u{000000041}`, `\u12`, `\u{12`, `\\`, `\U0041`, `\n`, `u0041`, `}`, `{`, `\u00Ag`, `\u{4g}`}))
			default:
				b.WriteString(world.Pick(t, "ch", []string{`\`, "u", "{", "}", "0", "4", "1", "A", "f", "x", "あ", "𠮷", "\"", "'", " ", "/"}))
			}
		}
		c.Cells = append(c.Cells, pbt.Str(b.String()))
	}
	return c
}

func checkEsc(c esc, st *pbt.Stats) error {
	var want []string
	for _, x := range c.Cells {
		d := decode(string(x))
		want = append(want, d)
		if d != string(x) {
			st.NonTrivial()
		}
		st.ClassIf(strings.Contains(d, `\u`), "an escape left as it is")
	}
	line := "x" + string(c.Cells[0]) + ",0,0,0," + string(c.Cells[0]) + ",P,Q,R,S,T," + string(c.Cells[3]) + "," + string(c.Cells[1]) + "," + string(c.Cells[2]) + ",*,A,*,*,*"
	if strings.Contains(decode("x"+string(c.Cells[0])), "\x00") || strings.Contains(want[3], ",") {
		return nil // not a valid headword or part of speech
	}
	dir, rm := world.Dir()
	defer rm()
	path := filepath.Join(dir, "system.dic")
	if err := world.BuildSystem(path, "", 0, "1 1\n", []string{line}, false); err != nil {
		return fmt.Errorf("a valid source is refused: %v", err)
	}
	d, err := dictionary.ReadSystemDictionary(path, false)
	if err != nil {
		return err
	}
	defer d.Close()
	wi := d.Lexicon.GetWordInfo(0)
	if want[1] == "" {
		want[1] = want[0]
	}
	if want[2] == "" {
		want[2] = want[0]
	}
	head := decode("x" + string(c.Cells[0]))
	for _, x := range [][2]string{{wi.Surface, want[0]}, {wi.ReadingForm, want[1]}, {wi.NormalizedForm, want[2]},
		{d.Grammar.GetPartOfSpeechString(0)[5], want[3]}} {
		if x[0] != x[1] {
			return fmt.Errorf("the line %q reads back with %q, want %q", line, x[0], x[1])
		}
	}
	hits, err := dictcheck.Drain(d.Lexicon.Lookup([]byte(head), 0), 5, 0)
	if err != nil || len(hits) != 1 || hits[0].End != len(head) {
		return fmt.Errorf("the line %q is not found by its headword %q: %v %v", line, head, hits, err)
	}
	return nil
}

// --- matrix formats

type matrixCase struct {
	M     world.Matrix
	Style []int
	CRLF  bool
	NoFin bool
}

func genMatrix(t *rapid.T) matrixCase {
	c := matrixCase{M: world.DrawMatrix(t, true)}
	if world.Chance(t, "large", 15) {
		c.M.L, c.M.R = rapid.IntRange(1, 400).Draw(t, "L"), rapid.IntRange(1, 400).Draw(t, "R")
		c.M.Lines = nil
		for i := rapid.IntRange(1, 60).Draw(t, "n"); i > 0; i-- {
			c.M.Lines = append(c.M.Lines, [3]int{rapid.IntRange(0, c.M.L-1).Draw(t, "l"), rapid.IntRange(0, c.M.R-1).Draw(t, "r"), rapid.IntRange(-32768, 32767).Draw(t, "c")})
		}
	}
	if world.Chance(t, "very wide", 3) {
		c.M.L, c.M.R = world.DrawWideSize(t)
		c.M.Lines = nil
		world.DrawWideLines(t, &c.M, rapid.IntRange(1, 60).Draw(t, "n"))
	}
	for range c.M.Lines {
		c.Style = append(c.Style, rapid.IntRange(0, 5).Draw(t, "style"))
	}
	c.CRLF, c.NoFin = rapid.Bool().Draw(t, "crlf"), rapid.Bool().Draw(t, "nofin")
	return c
}

func (c matrixCase) source() string {
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d%s", c.M.L, c.M.R, nl)
	for i, x := range c.M.Lines {
		f := "%d %d %d"
		switch c.Style[i] {
		case 1:
			f = "  %d\t%d   %d "
		case 2:
			f = nl + "%d %d %d"
		case 3:
			f = "%d %d %d extra columns"
		case 4:
			f = " \t " + "\n" + "%d %d %d"
		}
		fmt.Fprintf(&b, f, x[0], x[1], x[2])
		if !(c.NoFin && i == len(c.M.Lines)-1) {
			b.WriteString(nl)
		}
	}
	return b.String()
}

func checkMatrix(c matrixCase, st *pbt.Stats) error {
	seen := map[[2]int]bool{}
	for _, x := range c.M.Lines {
		st.ClassIf(seen[[2]int{x[0], x[1]}], "pair listed twice")
		seen[[2]int{x[0], x[1]}] = true
	}
	st.ClassIf(len(seen) < c.M.L*c.M.R, "unlisted pair")
	st.ClassIf(c.M.L > 16383, "over 16383 left ids")
	st.ClassIf(c.M.R > 16383, "over 16383 right ids")
	if c.M.L > 1 && c.M.R > 1 && len(c.M.Lines) > 1 {
		st.NonTrivial()
	}
	dir, rm := world.Dir()
	defer rm()
	path := filepath.Join(dir, "system.dic")
	if err := world.BuildSystem(path, "", 0, c.source(), []string{"x,0,0,0,x,P,Q,R,S,T,U,x,x,*,A,*,*,*\n"}, false); err != nil {
		return fmt.Errorf("a valid matrix is refused: %v", err)
	}
	d, err := dictionary.ReadSystemDictionary(path, false)
	if err != nil {
		return err
	}
	defer d.Close()
	if err := dictcheck.Matrix(&c.M, d.Grammar.GetConnectCost); err != nil {
		return err
	}
	if wi := d.Lexicon.GetWordInfo(0); wi.Surface != "x" {
		return fmt.Errorf("the word behind the matrix reads back as %q", wi.Surface)
	}
	return nil
}

// --- the command

func checkCommand(c caseT, st *pbt.Stats) error {
	stats(c.W, st)
	w := c.W
	dir, rm := world.Dir()
	defer rm()
	lib, out := filepath.Join(dir, "lib.dic"), filepath.Join(dir, "cmd.dic")
	srcs := w.Sources(&w.Sys, false)
	if err := world.BuildSystem(lib, string(w.Sys.Desc), 0, w.Matrix.Source(), srcs, w.Utf16); err != nil {
		return fmt.Errorf("a valid source is refused: %v", err)
	}
	args := []string{"-o", out, "-m", world.Write(filepath.Join(dir, "matrix.def"), w.Matrix.Source())}
	if w.Sys.Desc != "" {
		args = append(args, "-d", string(w.Sys.Desc))
	}
	if w.Utf16 {
		args = append(args, "-j")
	}
	for i, s := range srcs {
		args = append(args, world.Write(filepath.Join(dir, "lex"+strconv.Itoa(i)+".csv"), s))
	}
	if b, err := exec.Command(filepath.Join(pbt.CLIDir, "dicbuilder"), args...).CombinedOutput(); err != nil {
		return fmt.Errorf("dicbuilder fails on a valid source: %v\n%s", err, b)
	}
	x, err := os.ReadFile(lib)
	pbt.Must(err)
	y, err := os.ReadFile(out)
	if err != nil {
		return err
	}
	if len(x) != len(y) || !bytes.Equal(x[:8], y[:8]) || !bytes.Equal(x[16:], y[16:]) {
		return fmt.Errorf("dicbuilder and the library build different files")
	}
	return readback(w, out, string(c.Text), st)
}

func main() {
	pbt.Main("C04",
		pbt.S("readback", 12000, 400000, "at least three rows and a matrix with more than one entry", gen, check),
		pbt.S("many", 60, 1500, "hundreds of rows", func(t *rapid.T) world.Bulk { return world.DrawBulk(t, 20, 1500, 0) }, checkBig),
		pbt.S("huge", 8, 120, "tens of thousands of rows", func(t *rapid.T) world.Bulk {
			b := world.DrawBulk(t, 64000, 150000, 0)
			b.Alpha = pbt.Str(world.Pick(t, "alpha", []string{"abcdefghijklmnopqrstuvwxyz", "アイウエオカキクケコ漢字仮名𠮷"}))
			b.L, b.R = rapid.IntRange(1, 1500).Draw(t, "L"), rapid.IntRange(1, 1500).Draw(t, "R")
			if world.Chance(t, "narrow", 30) {
				b.L, b.R = world.Pick(t, "L", []int{1, 2, 32767}), world.Pick(t, "R", []int{1, 2, 300})
			}
			return b
		}, checkBig),
		pbt.S("million", 1, 8, "over 2^20 rows", func(t *rapid.T) world.Bulk {
			b := world.DrawBulk(t, 1<<20+1, 1<<20+5000, 0)
			b.Alpha = pbt.Str(world.Pick(t, "alpha", []string{"abcdefghijklmnopqrstuvwxyz", "アイウエオカキクケコ漢字仮名𠮷"}))
			b.MaxLen, b.Plain = 6, true
			return b
		}, checkBig),
		pbt.S("escapes", 12000, 400000, "at least one cell contains a decodable escape", genEsc, checkEsc),
		pbt.S("matrix", 6000, 200000, "several lines in a matrix with several rows and columns", genMatrix, checkMatrix),
		pbt.S("command", 250, 6000, "at least three rows and a matrix with more than one entry", gen, checkCommand),
	)
}
