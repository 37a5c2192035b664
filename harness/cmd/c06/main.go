// C06: malformed or over-limit dictionary sources are refused with an error.
package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/pbt"
	"verifharness/srcmodel"
	"verifharness/world"
)

// --- one format rule violated, or met exactly at its limit

type mutCase struct {
	W      *world.World
	User   bool // the mutated source is that of the first user dictionary
	Utf16  bool
	Kind   string
	Row    int
	Choice int
	Split  int // number of rows in the first of two files; 0: one file
}

var kinds = []string{"column", "number", "number", "long", "pos comma", "units", "unit A", "dicform", "reference", "reference", "homographs", "matrix header", "matrix line", "matrix skip"}

func genMut(t *rapid.T) mutCase {
	w, _ := world.Draw(t, world.Opt{MaxRows: 6, MaxUsers: 1})
	c := mutCase{W: w, User: len(w.Users) > 0 && rapid.Bool().Draw(t, "user"), Utf16: rapid.Bool().Draw(t, "u16"), Kind: world.Pick(t, "kind", kinds), Choice: rapid.IntRange(0, 999).Draw(t, "choice")}
	c.Row = rapid.IntRange(0, len(c.dict().Rows)-1).Draw(t, "row")
	c.Split = rapid.IntRange(0, len(c.dict().Rows)).Draw(t, "split")
	return c
}

func (c mutCase) dict() *world.Dict {
	if c.User {
		return &c.W.Users[0]
	}
	return &c.W.Sys
}

func esc(s string) string { return strings.ReplaceAll(s, ",", `\u002c`) }

// apply gives the mutated sources, matrix, and whether they are still valid.
func (c mutCase) apply() (files []string, matrix string, valid bool, what string) {
	w, d := c.W, c.dict()
	rows := make([][]string, len(d.Rows))
	for i := range d.Rows {
		rows[i] = strings.Split(w.Line(d, c.User, i), ",")
	}
	r := rows[c.Row]
	ch := c.Choice
	pick := func(n int) int { x := ch % n; ch /= n; return x }
	matrix = w.Matrix.Source()
	n, ns := len(d.Rows), len(w.Sys.Rows)
	switch c.Kind {
	case "column":
		switch pick(4) {
		case 0:
			rows[c.Row] = r[:17]
		case 1:
			rows[c.Row] = append(r, "")
		case 2:
			rows[c.Row] = nil // a blank line
		default:
			rows[c.Row] = []string{strings.Join(r[:9], ","), strings.Join(r[9:], ",")}
			rows[c.Row] = []string{strings.Join(rows[c.Row], "\n")}
		}
	case "number":
		k := 1 + pick(3)
		bads := []string{"", "x", "1.5", "32768", "-32769", " 1", "1 ", "1e2", "0x1", "１", "65536", "4294967296", "--1", "*", "1_0", "0b1", "0o7"}
		goods := []string{"32767", "-32768", "0", "007", "010"}
		if pick(4) == 0 {
			if k == 1 {
				goods = goods[2:]
			}
			r[k], valid = goods[pick(len(goods))], true
		} else {
			r[k] = bads[pick(len(bads))]
		}
		what = fmt.Sprintf("column %d is %q", k, r[k])
	case "long":
		k := []int{0, 4, 11, 12, 5, 10}[pick(6)]
		u := []string{"a", "é", "あ", "𠮷"}[pick(4)]
		units, bytes := 1, len(u)
		if u == "𠮷" {
			units = 2
		}
		size := bytes
		if c.Utf16 && k != 0 {
			size = units
		}
		s := strings.Repeat(u, 32767/size) + strings.Repeat("b", 32767%size)
		if k == 0 && r[1] == "-1" {
			r[1] = "0"
		}
		valid = pick(2) == 0
		if !valid {
			s += "b"
		}
		r[k] = s
		what = fmt.Sprintf("column %d has %d bytes", k, len(s))
	case "pos comma":
		r[5+pick(6)] = `a\u002cb`
	case "units":
		k := 15 + pick(3)
		if r[14] == "A" {
			r[14] = "C"
		}
		valid = pick(2) == 0
		m := 127
		if !valid {
			m = []int{128, 129, 255, 256, 300}[pick(5)]
		}
		r[k] = strings.TrimSuffix(strings.Repeat("U0/", m), "/")
		if pick(2) == 0 {
			r[k] = strings.TrimSuffix(strings.Repeat("0/", m), "/")
		}
		what = fmt.Sprintf("%d units", m)
	case "unit A":
		r[14] = "A"
		r[15], r[16] = "*", "*"
		r[15+pick(2)] = []string{"U0", "0/0", ""}[pick(3)]
	case "dicform":
		bads := []string{"x", "", "-2", strconv.Itoa(n), strconv.Itoa(n + 1000), "2147483648", "2147483647", "-2147483648", "4294967295", "U0", "1.0"}
		if pick(4) == 0 {
			r[13], valid = []string{"0", strconv.Itoa(n - 1), "*"}[pick(3)], true
		} else {
			r[13] = bads[pick(len(bads))]
		}
		what = fmt.Sprintf("dictionary form %q", r[13])
	case "reference":
		k := 15 + pick(3)
		r[14] = "C"
		max := n
		if c.User {
			max = ns
		}
		s := w.Sys.Rows[0]
		desc := esc(string(s.Surface) + "," + w.POS[s.Pos].Join() + "," + s.ReadReading())
		bads := []string{"", "U0/", "/U0", "U0//U0", "-1", "U-1", strconv.Itoa(max), "U" + strconv.Itoa(n), "2147483647", "U2147483647", "4294967296", "268435456", "U268435456",
			"nothing", "a,b", esc("a,b,c"), desc + "x", "x" + desc, strings.ToLower("UX0"), "u0", esc("zz,P,Q,R,S,T,U,zz"), "U", "U 0", " 0"}
		if pick(5) == 0 {
			r[k], valid = []string{"0", "U0", strconv.Itoa(max - 1), "U" + strconv.Itoa(n-1)}[pick(4)], true
		} else {
			r[k] = bads[pick(len(bads))]
			if strings.Contains(r[k], ",") && !strings.Contains(r[k], `\u`) {
				rows[c.Row] = r
			}
		}
		if r[k] == "x"+desc || r[k] == desc+"x" {
			// may describe another word by accident
			for i := range w.Sys.Rows {
				if q := &w.Sys.Rows[i]; string(q.Surface) == "x"+string(s.Surface) || q.ReadReading() == s.ReadReading()+"x" {
					r[k] = "nothing"
				}
			}
		}
		what = fmt.Sprintf("unit %q", r[k])
	case "homographs":
		m := 255
		valid = pick(2) == 0
		if !valid {
			m = []int{256, 257, 300, 511, 512}[pick(5)]
		}
		have := 0
		for i := range d.Rows {
			if !d.Rows[i].NoIndex && d.Rows[i].Head == "hh" {
				have++
			}
		}
		for ; have < m; have++ {
			rows = append(rows, strings.Split("hh,0,0,0,hh,"+strings.Join(r[5:11], ",")+",hh,hh,*,A,*,*,*", ","))
		}
		what = fmt.Sprintf("%d homographs", m)
	case "matrix header":
		h := fmt.Sprintf("%d %d", w.Matrix.L, w.Matrix.R)
		bads := []string{"", "\n" + h, "4", "x 4", "4 x", "-1 4", "4 -1", "32768 1", "1 32768", "65537 1", "# comment\n" + h, "4,4"}
		matrix = bads[pick(len(bads))] + matrix[len(h):]
		if pick(12) == 0 {
			matrix = ""
		}
		what = fmt.Sprintf("matrix %q", matrix)
	case "matrix line":
		l, q := w.Matrix.L, w.Matrix.R
		bads := []string{fmt.Sprintf("%d 0 5", l), fmt.Sprintf("0 %d 5", q), "-1 0 5", "0 -1 5", "0 0 32768", "0 0 -32769", "x 0 5", "0 x 5", "0 0 x", "0 0 1.5", "0 0 5,", "70000 0 1", "0 65536 1", "# 0 0 5", fmt.Sprintf("%d %d 5", l+7, q-1), fmt.Sprintf("%d %d 5", 0, q+3)}
		at := strings.Split(strings.TrimSuffix(matrix, "\n"), "\n")
		i := 1 + pick(len(at))
		at = append(at[:i], append([]string{bads[pick(len(bads))]}, at[i:]...)...)
		matrix = strings.Join(at, "\n") + "\n"
		what = fmt.Sprintf("matrix %q", matrix)
	case "matrix skip":
		valid = true
		at := strings.Split(strings.TrimSuffix(matrix, "\n"), "\n")
		i := 1 + pick(len(at))
		at = append(at[:i], append([]string{[]string{"", "  ", "\t", "0", "0 0", "x", "# a", "-1 -1"}[pick(8)]}, at[i:]...)...)
		matrix = strings.Join(at, "\n") + "\n"
		what = fmt.Sprintf("matrix %q", matrix)
	}
	var b strings.Builder
	for i, x := range rows {
		if c.Split > 0 && i == c.Split {
			files = append(files, b.String())
			b.Reset()
		}
		b.WriteString(strings.Join(x, ",") + "\n")
	}
	files = append(files, b.String())
	if what == "" {
		what = fmt.Sprintf("row %q", strings.Join(rows[c.Row], ","))
	}
	return files, matrix, valid, what
}

// described: some reference describes a word, so changing a row may break it.
func (c mutCase) described() bool {
	d := c.dict()
	for i := range d.Rows {
		for _, rs := range [][]world.Ref{d.Rows[i].A, d.Rows[i].B, d.Rows[i].W} {
			for _, q := range rs {
				if q.Kind == "desc" {
					return true
				}
			}
		}
	}
	return false
}

// build builds with the library; user sources on a system dictionary.
func build(dir string, sysFiles []string, matrix string, userFiles []string, u16 bool) (string, error) {
	sp := filepath.Join(dir, "system.dic")
	if err := world.BuildSystem(sp, "", 0, matrix, sysFiles, u16); err != nil || userFiles == nil {
		return sp, err
	}
	sd, err := dictionary.ReadSystemDictionary(sp, u16)
	pbt.Must(err)
	defer sd.Close()
	up := filepath.Join(dir, "user.dic")
	return up, world.BuildUser(up, "", 0, sd, userFiles, u16, false)
}

// judge compares a successful build with the reference reading of the sources.
func judge(path, dir string, sysFiles []string, matrix string, userFiles []string, u16 bool) error {
	sysLex, err := srcmodel.Parse(sysFiles, nil, u16)
	if err != nil {
		return fmt.Errorf("a malformed source is accepted: %v", err)
	}
	m, err := srcmodel.ParseMatrix(matrix)
	if err != nil {
		return fmt.Errorf("a malformed matrix is accepted: %v", err)
	}
	sd, err := dictionary.ReadSystemDictionary(filepath.Join(dir, "system.dic"), u16)
	if err != nil {
		return fmt.Errorf("reading the built dictionary: %v", err)
	}
	defer sd.Close()
	if err := m.Compare(sd.Grammar.GetConnectCost); err != nil {
		return err
	}
	if err := sysLex.Compare(sd.Lexicon, sd.Grammar.GetPartOfSpeechString); err != nil {
		return err
	}
	if userFiles == nil {
		return nil
	}
	lex, err := srcmodel.Parse(userFiles, sysLex, u16)
	if err != nil {
		return fmt.Errorf("a malformed user source is accepted: %v", err)
	}
	ud, err := dictionary.ReadUserDictionary(path, u16)
	if err != nil {
		return fmt.Errorf("reading the built user dictionary: %v", err)
	}
	defer ud.Close()
	n := int16(sd.Grammar.GetPartOfSpeechSize())
	return lex.Compare(ud.Lexicon, func(id int16) []string {
		if id < n {
			return sd.Grammar.GetPartOfSpeechString(id)
		}
		return ud.Grammar.GetPartOfSpeechString(id - n)
	})
}

// sources gives the files of both dictionaries.
func (c mutCase) sources() (sysFiles []string, matrix string, userFiles []string, valid bool, what string) {
	files, matrix, valid, what := c.apply()
	sysFiles = c.W.Sources(&c.W.Sys, false)
	if c.User {
		userFiles = files
		if strings.HasPrefix(c.Kind, "matrix") {
			userFiles = nil
		}
	} else {
		sysFiles = files
	}
	return
}

func checkMut(c mutCase, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	sysFiles, matrix, userFiles, valid, what := c.sources()
	st.Class(c.Kind)
	st.ClassIf(c.User, "user dictionary")
	st.ClassIf(c.Utf16, "UTF-16")
	st.ClassIf(valid, "still valid")
	st.NonTrivial()
	path, err := build(dir, sysFiles, matrix, userFiles, c.Utf16)
	if err == nil {
		if err := judge(path, dir, sysFiles, matrix, userFiles, c.Utf16); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		return nil
	}
	if wellFormed(sysFiles, matrix, userFiles, c.Utf16) {
		return fmt.Errorf("%s: a source within the limits is refused: %v", what, err)
	}
	if valid && !c.described() {
		pbt.Must(fmt.Errorf("%s: taken for malformed by the reference", what))
	}
	return nil
}

func wellFormed(sysFiles []string, matrix string, userFiles []string, u16 bool) bool {
	sysLex, err := srcmodel.Parse(sysFiles, nil, u16)
	if err != nil {
		return false
	}
	if _, err := srcmodel.ParseMatrix(matrix); err != nil {
		return false
	}
	if userFiles != nil {
		if _, err := srcmodel.Parse(userFiles, sysLex, u16); err != nil {
			return false
		}
	}
	return true
}

// --- arbitrary edits of a valid source

type fuzzCase struct {
	Sys    []pbt.Str
	Matrix pbt.Str
	User   []pbt.Str
	Utf16  bool
}

func edit(t *rapid.T, s string) string {
	n := rapid.IntRange(0, 3).Draw(t, "edits")
	for i := 0; i < n; i++ {
		rs := []rune(s)
		at := rapid.IntRange(0, len(rs)).Draw(t, "at")
		to := at + rapid.IntRange(0, 4).Draw(t, "del")
		if to > len(rs) {
			to = len(rs)
		}
		var ins string
		switch rapid.IntRange(0, 4).Draw(t, "ins") {
		case 0:
		case 1:
			ins = world.Pick(t, "token", []string{",", "\n", "\r\n", "\r", "-", "-1", "*", "/", "U", "U0", "0", "1", "9", " ", "\t", "\\", "\\u0041", "\\u{42}", "\\u002c", "\\u", "\x00", "32767", "32768", "A", "#", "\"", "あ", "𠮷"})
		case 2:
			from := rapid.IntRange(0, len(rs)).Draw(t, "from")
			k := from + rapid.IntRange(0, 30).Draw(t, "len")
			if k > len(rs) {
				k = len(rs)
			}
			ins = string(rs[from:k])
		case 3:
			ins = strings.Repeat(world.Pick(t, "token", []string{",", "0/", "U0/", "x", "1", "\n"}), rapid.IntRange(1, 200).Draw(t, "rep"))
		default:
			ins = string(rune(rapid.IntRange(1, 0x7f).Draw(t, "c")))
		}
		if rapid.Bool().Draw(t, "keep") {
			to = at
		}
		s = string(rs[:at]) + ins + string(rs[to:])
	}
	return s
}

func genFuzz(t *rapid.T) fuzzCase {
	w, _ := world.Draw(t, world.Opt{MaxRows: 5, MaxUsers: 1})
	c := fuzzCase{Utf16: rapid.Bool().Draw(t, "u16"), Matrix: pbt.Str(w.Matrix.Source())}
	which := rapid.IntRange(0, 4).Draw(t, "which")
	for _, s := range w.Sources(&w.Sys, false) {
		if which <= 1 || which == 4 && len(w.Users) == 0 {
			s = edit(t, s)
		}
		c.Sys = append(c.Sys, pbt.Str(s))
	}
	if which == 2 {
		c.Matrix = pbt.Str(edit(t, string(c.Matrix)))
	}
	if len(w.Users) > 0 {
		for _, s := range w.Sources(&w.Users[0], true) {
			if which >= 3 {
				s = edit(t, s)
			}
			c.User = append(c.User, pbt.Str(s))
		}
	}
	return c
}

func strs(x []pbt.Str) []string {
	var out []string
	for _, s := range x {
		out = append(out, string(s))
	}
	return out
}

func checkFuzz(c fuzzCase, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	sys, user, m := strs(c.Sys), strs(c.User), string(c.Matrix)
	path, err := build(dir, sys, m, user, c.Utf16)
	st.NonTrivial()
	st.ClassIf(err != nil, "refused")
	st.ClassIf(err == nil, "accepted")
	if err == nil {
		return judge(path, dir, sys, m, user, c.Utf16)
	}
	if wellFormed(sys, m, user, c.Utf16) {
		return fmt.Errorf("a well-formed source is refused: %v", err)
	}
	return nil
}

// --- parts of speech beyond their limit

type posCase struct {
	N     int
	Split int // rows of the user dictionary, 0: none
	Utf16 bool
}

func checkPos(c posCase, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	st.NonTrivial()
	st.ClassIf(c.N > 32767, "over the limit")
	st.ClassIf(c.Split > 0, "split between system and user dictionary")
	var a, b strings.Builder
	for i := 0; i < c.N; i++ {
		x := &a
		if c.Split > 0 && i >= c.N-c.Split {
			x = &b
		}
		fmt.Fprintf(x, "w%d,0,0,0,w%d,P,%d,R,S,T,U,w,w,*,A,*,*,*\n", i%50000, i, i)
	}
	var user []string
	if c.Split > 0 {
		user = []string{b.String()}
	}
	path, err := build(dir, []string{a.String()}, "1 1\n", user, c.Utf16)
	if c.N > 32768 && err == nil {
		return fmt.Errorf("%d parts of speech are accepted", c.N)
	}
	if c.N <= 32767 && err != nil {
		return fmt.Errorf("%d parts of speech are refused: %v", c.N, err)
	}
	if err != nil {
		return nil
	}
	// reading back, without the limit of the reference
	sd, err := dictionary.ReadSystemDictionary(filepath.Join(dir, "system.dic"), c.Utf16)
	if err != nil {
		return err
	}
	defer sd.Close()
	lex, base := sd.Lexicon, 0
	get := func(id int16) []string { return sd.Grammar.GetPartOfSpeechString(id) }
	if c.Split > 0 {
		ud, err := dictionary.ReadUserDictionary(path, c.Utf16)
		if err != nil {
			return err
		}
		defer ud.Close()
		n := int16(sd.Grammar.GetPartOfSpeechSize())
		lex, base = ud.Lexicon, c.N-c.Split
		get = func(id int16) []string { return ud.Grammar.GetPartOfSpeechString(id - n) }
	}
	for i := int32(0); i < lex.Size(); i++ {
		wi := lex.GetWordInfo(i)
		if wi.PosId < 0 {
			return fmt.Errorf("%d parts of speech: word %d has part of speech %d", c.N, i, wi.PosId)
		}
		if p := get(wi.PosId); p[1] != strconv.Itoa(base+int(i)) {
			return fmt.Errorf("%d parts of speech: word %d has part of speech %q", c.N, i, p)
		}
	}
	return nil
}

// --- a bad row far into a long source

type lateCase struct {
	N      int
	At     int // permille
	Kind   int
	Choice int
	User   bool
	Utf16  bool
}

func genLate(t *rapid.T) lateCase {
	n := world.Pick(t, "n", []int{400, 3000, 5000, 9000, 17000, 20000})
	if world.Chance(t, "many", 15) {
		n = world.Pick(t, "manyn", []int{32768, 32769, 65536, 65537, 70000})
	}
	return lateCase{N: n, At: world.Pick(t, "at", []int{1000, 999, 950, 600, 300, 0}), Kind: world.Pick(t, "kind", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}),
		Choice: world.Pick(t, "choice", []int{0, 1, 2, 3}) + 4*rapid.IntRange(0, 250).Draw(t, "choice2"), User: rapid.Bool().Draw(t, "user"), Utf16: rapid.Bool().Draw(t, "u16")}
}

func checkLate(c lateCase, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	st.NonTrivial()
	at := (c.N - 1) * c.At / 1000
	st.Class(fmt.Sprint("kind ", c.Kind))
	st.ClassIf(at >= 4096, "after 4096 rows")
	st.ClassIf(at >= 32767, "after 32767 rows")
	ch := c.Choice
	pick := func(n int) int { x := ch % n; ch /= n; return x }
	valid := pick(4) == 0
	r := []string{"head", "0", "0", "0", "surf", "P", "Q", "R", "S", "T", "U", "read", "norm", "*", "C", "*", "*", "*"}
	own := strconv.Itoa(c.N - 1)
	over := strconv.Itoa(c.N)
	units := func(n int) string { return strings.TrimSuffix(strings.Repeat("U"+own+"/", n), "/") }
	switch c.Kind {
	case 0:
		if !valid {
			r = append(r[:pick(18)], r[17])
			if pick(2) == 0 {
				r = strings.Split("head,0,0,0,surf,P,Q,R,S,T,U,read,norm,*,C,*,*,*,*", ",")
			}
			if len(r) == 18 {
				r = r[:17]
			}
		}
	case 1:
		k := 1 + pick(3)
		r[k] = []string{"32768", "-32769", "", "x"}[pick(4)]
		if valid {
			r[k] = "32767"
		}
	case 2:
		n := 32767
		if !valid {
			n++
		}
		r[[]int{0, 4, 11, 12}[pick(4)]] = strings.Repeat("a", n)
	case 3:
		if !valid {
			r[5+pick(6)] = `a\u002cb`
		}
	case 4:
		n := 127
		if !valid {
			n = 128
		}
		r[15+pick(3)] = units(n)
	case 5:
		if !valid {
			r[14] = "A"
			r[15+pick(2)] = "U" + own
		}
	case 6:
		r[13] = own
		if !valid {
			r[13] = []string{over, "-2", "x"}[pick(3)]
		}
	case 7:
		r[15+pick(3)] = "U" + own
		if !valid {
			r[15+pick(3)] = []string{"U" + over, "U-1", "nothing", "268435456"}[pick(4)]
		}
	case 8: // the described word is a late one or does not exist
		k := 15 + pick(3)
		r[k] = fmt.Sprintf(`s%d\u002cP\u002cQ\u002cR\u002cS\u002cT\u002cU\u002cr`, at)
		j := (at + c.N/2) % c.N
		if j == at {
			j = (at + 1) % c.N
		}
		r[k] = fmt.Sprintf(`s%d\u002cP\u002cQ\u002cR\u002cS\u002cT\u002cU\u002cr`, j)
		if !valid {
			r[k] += "x"
		}
	case 9: // homographs
		valid = true
		r[0], r[4] = "w0", "s0"
	}
	var b strings.Builder
	for i := 0; i < c.N; i++ {
		if i == at {
			b.WriteString(strings.Join(r, ",") + "\n")
			continue
		}
		fmt.Fprintf(&b, "w%d,0,0,0,s%d,P,Q,R,S,T,U,r,n,*,A,*,*,*\n", i, i)
	}
	st.ClassIf(valid, "still valid")
	sys, user := []string{b.String()}, []string(nil)
	if c.User {
		sys, user = []string{"x,0,0,0,x,P,Q,R,S,T,V,x,x,*,A,*,*,*\n"}, sys
	}
	path, err := build(dir, sys, "1 1\n0 0 0\n", user, c.Utf16)
	what := strings.Join(r, ",")
	if len(what) > 200 {
		what = what[:200] + "..."
	}
	if !valid && err == nil {
		return fmt.Errorf("row %d of %d is accepted: %s", at, c.N, what)
	}
	if valid && err != nil {
		return fmt.Errorf("row %d of %d is refused: %v: %s", at, c.N, err, what)
	}
	if err == nil {
		return judge(path, dir, sys, "1 1\n0 0 0\n", user, c.Utf16)
	}
	return nil
}

// --- failing readers and writers

type faultCase struct {
	W    *world.World
	User bool
	What int // which stream fails
	At   int // permille of its length
}

var errFault = errors.New("injected fault")

type faultReader struct {
	s  string
	at int
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.at == 0 {
		return 0, errFault
	}
	n := copy(p, r.s[:min(r.at, len(r.s))])
	if n == 0 {
		return 0, errFault
	}
	r.s, r.at = r.s[n:], r.at-n
	return n, nil
}

type faultWriter struct {
	f  world.MemFile
	at int // bytes written before failing; -1: never
	n  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.at >= 0 && w.n+len(p) > w.at {
		k := w.at - w.n
		if k < 0 {
			k = 0
		}
		w.n += k
		w.f.Write(p[:k])
		return k, errFault
	}
	w.n += len(p)
	return w.f.Write(p)
}

func (w *faultWriter) Seek(off int64, whence int) (int64, error) { return w.f.Seek(off, whence) }

func checkFault(c faultCase, st *pbt.Stats) error {
	w := c.W
	user := c.User && len(w.Users) > 0
	d := &w.Sys
	var sd *dictionary.BinaryDictionary
	dir, rm := world.Dir()
	defer rm()
	if user {
		d = &w.Users[0]
		sp := filepath.Join(dir, "system.dic")
		if err := world.BuildSystem(sp, "", 0, w.Matrix.Source(), w.Sources(&w.Sys, false), w.Utf16); err != nil {
			return pbt.Skip("%v", err)
		}
		var err error
		sd, err = dictionary.ReadSystemDictionary(sp, w.Utf16)
		if err != nil {
			return pbt.Skip("%v", err)
		}
		defer sd.Close()
	}
	srcs := w.Sources(d, user)
	run := func(wr *faultWriter, src func(i int, s string) io.Reader) error {
		var lex *dictionary.DoubleArrayLexicon
		if user {
			lex = sd.Lexicon
		}
		b := dictionary.NewDictionaryBuilder(0, lex, w.Utf16)
		table := dictionary.NewPosTable()
		var store dictionary.PosIdStore = table
		if user {
			us := dictionary.NewPosTableUser(sd.Grammar)
			store, table = us, &us.PosTable
		}
		for i, s := range srcs {
			if err := b.BuildLexicon(store, src(i, s)); err != nil {
				return err
			}
		}
		if user {
			if err := b.WriteGrammarUser(table, wr); err != nil {
				return err
			}
		} else if err := b.WriteGrammar(table, src(-1, w.Matrix.Source()), wr); err != nil {
			return err
		}
		return b.WriteLexicon(wr, store)
	}
	plain := func(i int, s string) io.Reader { return strings.NewReader(s) }
	full := &faultWriter{at: -1}
	if err := run(full, plain); err != nil {
		return pbt.Skip("%v", err)
	}
	st.NonTrivial()
	switch k := c.What % (len(srcs) + 3); {
	case k < len(srcs):
		st.Class("failing lexicon source")
		if err := run(&faultWriter{at: -1}, func(i int, s string) io.Reader {
			if i == k {
				return &faultReader{s, len(s) * c.At / 1000}
			}
			return strings.NewReader(s)
		}); err == nil {
			return fmt.Errorf("the build succeeds although reading source %d fails after %d of %d bytes", k, len(srcs[k])*c.At/1000, len(srcs[k]))
		}
	case k == len(srcs) && !user:
		st.Class("failing matrix source")
		m := w.Matrix.Source()
		if err := run(&faultWriter{at: -1}, func(i int, s string) io.Reader {
			if i < 0 {
				return &faultReader{s, len(s) * c.At / 1000}
			}
			return strings.NewReader(s)
		}); err == nil {
			return fmt.Errorf("the build succeeds although reading the matrix fails after %d of %d bytes", len(m)*c.At/1000, len(m))
		}
	default:
		st.Class("failing output")
		at := full.n * c.At / 1001
		if err := run(&faultWriter{at: at}, plain); err == nil {
			return fmt.Errorf("the build succeeds although writing fails after %d of %d bytes", at, full.n)
		}
	}
	return nil
}

// --- the commands

func checkCommand(c mutCase, st *pbt.Stats) error {
	dir, rm := world.Dir()
	defer rm()
	sysFiles, matrix, userFiles, _, what := c.sources()
	st.Class(c.Kind)
	st.ClassIf(userFiles != nil, "userdicbuilder")
	lib, libErr := build(dir, sysFiles, matrix, userFiles, c.Utf16)
	st.ClassIf(libErr == nil, "accepted")
	st.NonTrivial()
	out := filepath.Join(dir, "out.dic")
	args := []string{"-o", out}
	if c.Utf16 {
		args = append(args, "-j")
	}
	name, files := "dicbuilder", sysFiles
	if userFiles != nil {
		if _, err := os.Stat(lib); err != nil || libErr != nil && strings.HasSuffix(lib, "system.dic") {
			return nil // the system dictionary could not be built
		}
		name, files = "userdicbuilder", userFiles
		args = append(args, "-s", filepath.Join(dir, "system.dic"))
	} else {
		args = append(args, "-m", world.Write(filepath.Join(dir, "matrix.def"), matrix))
	}
	missing := c.Choice%17 == 0
	full := c.Choice%17 == 5 // the output cannot be written
	if full {
		st.Class("full device")
		args[1] = "/dev/full"
	}
	for i, s := range files {
		args = append(args, world.Write(filepath.Join(dir, "lex"+strconv.Itoa(i)+".csv"), s))
	}
	if missing {
		st.Class("missing source file")
		args = append(args, filepath.Join(dir, "missing.csv"))
	}
	b, err := exec.Command(filepath.Join(pbt.CLIDir, name), args...).CombinedOutput()
	msg := string(b)
	if len(msg) > 600 {
		msg = msg[:300] + "..." + msg[len(msg)-300:]
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			pbt.Must(err)
		}
		if ee.ExitCode() != 1 || strings.Contains(string(b), "goroutine ") {
			return fmt.Errorf("%s: %s ends with status %d:\n%s", what, name, ee.ExitCode(), msg)
		}
		if libErr == nil && !missing && !full {
			return fmt.Errorf("%s: %s refuses what the library accepts:\n%s", what, name, msg)
		}
		return nil
	}
	if libErr != nil || missing || full {
		return fmt.Errorf("%s: %s succeeds although the library reports %v (missing source file: %v, full device: %v)", what, name, libErr, missing, full)
	}
	x, err := os.ReadFile(lib)
	pbt.Must(err)
	y, err := os.ReadFile(out)
	if err != nil {
		return err
	}
	if len(x) != len(y) || string(x[16:]) != string(y[16:]) {
		return fmt.Errorf("%s: %s and the library build different files", what, name)
	}
	return nil
}

func main() {
	pbt.Main("C06",
		pbt.S("mutants", 12000, 300000, "one format rule violated or met at its limit", genMut, checkMut),
		pbt.S("fuzz", 12000, 400000, "an edited source", genFuzz, checkFuzz),
		pbt.S("pos", 8, 60, "about as many parts of speech as there are ids", func(t *rapid.T) posCase {
			c := posCase{N: world.Pick(t, "n", []int{32768, 32767, 32769, 33000, 65536, 65540}), Utf16: rapid.Bool().Draw(t, "u16")}
			c.Split = world.Pick(t, "split", []int{0, 1, 20, 20000})
			return c
		}, checkPos),
		pbt.S("late", 350, 4000, "a row, good or bad, far into a long source", genLate, checkLate),
		pbt.S("faults", 4000, 100000, "a stream that fails", func(t *rapid.T) faultCase {
			w, _ := world.Draw(t, world.Opt{MaxRows: 6, MaxUsers: 1, Odd: true})
			return faultCase{W: w, User: rapid.Bool().Draw(t, "user"), What: rapid.IntRange(0, 11).Draw(t, "what"), At: rapid.IntRange(0, 1000).Draw(t, "at")}
		}, checkFault),
		pbt.S("command", 400, 8000, "one format rule violated or met at its limit", genMut, checkCommand),
	)
}
