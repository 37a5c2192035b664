// Package world holds the generated configurations: dictionaries, matrices,
// definition files and plugin settings, as plain values, with the code that
// writes them as source files and builds and opens them with gosudachi.
package world

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"verifharness/pbt"
)

// Ref is a reference to a word from split information.
type Ref struct {
	Kind string // "id", "U" or "desc"
	Own  bool   // a row of the same dictionary (else of the system dictionary)
	Row  int
}

// Row is one lexicon row.
type Row struct {
	Head    pbt.Str
	NoIndex bool `json:",omitempty"` // left id -1: not found by lookup
	Left    int
	Right   int
	Cost    int
	Surface pbt.Str
	Pos     int // index into World.POS
	Reading pbt.Str
	Norm    pbt.Str
	DicForm int // -1: itself
	Unit    string
	A       []Ref `json:",omitempty"`
	B       []Ref `json:",omitempty"`
	W       []Ref `json:",omitempty"`
	Esc     int   `json:",omitempty"` // how cells are escaped
}

// Dict is one dictionary source.
type Dict struct {
	Rows    []Row
	Desc    pbt.Str
	Time    int64
	Files   []int `json:",omitempty"` // number of rows in each source file but the last
	Newline string
	NoFinal bool `json:",omitempty"` // the last line has no line ending
}

// AutoCosts tells whether a user word has no cost of its own.
func (w *World) AutoCosts() bool {
	for _, u := range w.Users {
		for _, r := range u.Rows {
			if r.Cost == -32768 {
				return true
			}
		}
	}
	return false
}

// Matrix is a connection matrix source.
type Matrix struct {
	L, R  int
	Lines [][3]int // left, right, cost; later lines win
	Dress Dress
}

// Cost is the cost of a connection.
func (m *Matrix) Cost(l, r int) int {
	c := 0
	for _, x := range m.Lines {
		if x[0] == l && x[1] == r {
			c = x[2]
		}
	}
	return c
}

// Table returns the dense matrix indexed [l+L*r].
func (m *Matrix) Table() []int {
	t := make([]int, m.L*m.R)
	for _, x := range m.Lines {
		t[x[0]+m.L*x[1]] = x[2]
	}
	return t
}

// Source is the text form.
func (m *Matrix) Source() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d\n", m.L, m.R)
	for _, x := range m.Lines {
		fmt.Fprintf(&b, "%d %d %d\n", x[0], x[1], x[2])
	}
	return m.Dress.Apply(b.String())
}

// escape styles
const (
	escPlain = iota
	escU4    // every second character as \uXXXX where possible
	escBrace // every second character as \u{X}
	escAll
)

// EscCell writes a cell so that reading it gives s.
func EscCell(s string, style int) string {
	var b strings.Builder
	i := 0
	for _, r := range s {
		i++
		must := r == ',' || r == '\\' || r == '\n' || r == '\r'
		st := style
		if st == escAll {
			st = escU4 + i%2
		} else if i%2 == 0 {
			st = escPlain
		}
		switch {
		case st == escBrace:
			fmt.Fprintf(&b, "\\u{%x}", r)
		case (st == escU4 || must) && r <= 0xffff:
			fmt.Fprintf(&b, "\\u%04X", r)
		case must:
			fmt.Fprintf(&b, "\\u{%X}", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Pos6 is the six-part part of speech.
type Pos6 [6]pbt.Str

// Join is the comma-separated form.
func (p Pos6) Join() string { return strings.Join(p.List(), ",") }

// List is the form the API takes.
func (p Pos6) List() []string {
	l := make([]string, 6)
	for i, s := range p {
		l[i] = string(s)
	}
	return l
}

// RefText writes a reference in source form (before cell escaping).
func (w *World) RefText(d *Dict, user bool, r Ref) string {
	switch r.Kind {
	case "U":
		return "U" + strconv.Itoa(r.Row)
	case "desc":
		x := w.refRow(d, r)
		reading := string(x.Reading)
		if !r.Own {
			reading = x.ReadReading()
		}
		return string(x.Surface) + "," + w.POS[x.Pos].Join() + "," + reading
	}
	return strconv.Itoa(r.Row)
}

func (w *World) refRow(d *Dict, r Ref) *Row {
	if r.Own {
		return &d.Rows[r.Row]
	}
	return &w.Sys.Rows[r.Row]
}

// ReadReading is the reading as it reads back.
func (r *Row) ReadReading() string {
	if r.Reading == "" {
		return string(r.Surface)
	}
	return string(r.Reading)
}

// ReadNorm is the normalized form as it reads back.
func (r *Row) ReadNorm() string {
	if r.Norm == "" {
		return string(r.Surface)
	}
	return string(r.Norm)
}

func (w *World) splitCell(d *Dict, user bool, refs []Ref, esc int) string {
	if len(refs) == 0 {
		return "*"
	}
	var p []string
	for _, r := range refs {
		p = append(p, w.RefText(d, user, r))
	}
	s := strings.Join(p, "/")
	// commas inside descriptions must be escaped
	if esc == escPlain {
		return strings.ReplaceAll(s, ",", "\\u002c")
	}
	return strings.ReplaceAll(s, ",", "\\u{2C}")
}

// Line is the source line of a row.
func (w *World) Line(d *Dict, user bool, i int) string {
	r := &d.Rows[i]
	left := r.Left
	if r.NoIndex {
		left = -1
	}
	cells := []string{
		EscCell(string(r.Head), r.Esc), strconv.Itoa(left), strconv.Itoa(r.Right), strconv.Itoa(r.Cost),
		EscCell(string(r.Surface), r.Esc),
	}
	for _, p := range w.POS[r.Pos] {
		cells = append(cells, EscCell(string(p), r.Esc))
	}
	df := "*"
	if r.DicForm >= 0 {
		df = strconv.Itoa(r.DicForm)
	}
	cells = append(cells, EscCell(string(r.Reading), r.Esc), EscCell(string(r.Norm), r.Esc), df, r.Unit,
		w.splitCell(d, user, r.A, r.Esc), w.splitCell(d, user, r.B, r.Esc), w.splitCell(d, user, r.W, r.Esc))
	return strings.Join(cells, ",")
}

// Sources are the source files of a dictionary.
func (w *World) Sources(d *Dict, user bool) []string {
	nl := d.Newline
	if nl == "" {
		nl = "\n"
	}
	var out []string
	at := 0
	sizes := append(append([]int(nil), d.Files...), 1<<30)
	for _, n := range sizes {
		var b strings.Builder
		for k := 0; k < n && at < len(d.Rows); k++ {
			b.WriteString(w.Line(d, user, at))
			at++
			if !(d.NoFinal && (k == n-1 || at == len(d.Rows))) {
				b.WriteString(nl)
			}
		}
		out = append(out, b.String())
	}
	return out
}

// Range is a category range of char.def.
type Range struct {
	Lo, Hi rune
	Cats   uint32
}

// CatProp is a category property line of char.def.
type CatProp struct {
	Cat    uint32
	Invoke bool
	Group  bool
	Len    int
}

// CharDef is a char.def file.
type CharDef struct {
	Ranges []Range
	Props  []CatProp
	Dress  Dress
}

// CatNames in bit order.
var CatNames = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA",
	"KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}

// Category bits.
const (
	DEFAULT uint32 = 1 << iota
	SPACE
	KANJI
	SYMBOL
	NUMERIC
	ALPHA
	HIRAGANA
	KATAKANA
	KANJINUMERIC
	GREEK
	CYRILLIC
	USER1
	USER2
	USER3
	USER4
	NOOOVBOW
)

func catName(bit uint32) string {
	for i, n := range CatNames {
		if bit == 1<<i {
			return n
		}
	}
	return "?"
}

// Source is the text form.
func (c *CharDef) Source() string {
	var b strings.Builder
	b.WriteString("# properties\n")
	for _, p := range c.Props {
		fmt.Fprintf(&b, "%s %d %d %d\n", catName(p.Cat), b2i(p.Invoke), b2i(p.Group), p.Len)
	}
	b.WriteString("\n# ranges\n")
	for i, r := range c.Ranges {
		if r.Lo == r.Hi && i%2 == 0 {
			fmt.Fprintf(&b, "0x%04X", r.Lo)
		} else {
			fmt.Fprintf(&b, "0x%04X..0x%04x", r.Lo, r.Hi)
		}
		for k := range CatNames {
			if r.Cats&(1<<k) != 0 {
				b.WriteString(" " + CatNames[k])
			}
		}
		if i%3 == 0 {
			b.WriteString("  # comment KANJI")
		}
		b.WriteString("\n")
	}
	return c.Dress.Apply(b.String())
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Unk is a line of unk.def.
type Unk struct {
	Cat               uint32
	Left, Right, Cost int
	Pos               int
}

// UnkSource is the text form of unk.def.
func (w *World) UnkSource() string {
	var b strings.Builder
	for _, u := range w.Unk {
		fmt.Fprintf(&b, "%s,%d,%d,%d,%s\n", catName(u.Cat), u.Left, u.Right, u.Cost, w.POS[u.Pos].Join())
	}
	return w.Chars.Dress.Ends(b.String())
}

// Simple configures the simple provider.
type Simple struct{ Left, Right, Cost, Pos int }

// Rewrite is a rewrite.def file.
type Rewrite struct {
	Ignore  []pbt.Str
	Replace [][2]pbt.Str
	Dress   Dress
}

// Source is the text form.
func (r *Rewrite) Source() string {
	var b strings.Builder
	b.WriteString("# ignore\n")
	for _, s := range r.Ignore {
		b.WriteString(string(s) + "\n")
	}
	b.WriteString("\n# replace\n")
	for i, p := range r.Replace {
		sep := "\t"
		if i%2 == 1 {
			sep = "  "
		}
		b.WriteString(string(p[0]) + sep + string(p[1]) + "\n")
	}
	return r.Dress.Apply(b.String())
}

// Prolonged configures the sound mark plugin.
type Prolonged struct {
	Marks       []pbt.Str
	Replacement pbt.Str
}

// PathPlugin configures a path rewriting plugin.
type PathPlugin struct {
	Kind      string // "numeric" or "katakana"
	Normalize bool
	MinLength int
	Pos       int
}

// World is a complete configuration.
type World struct {
	POS       []Pos6
	Sys       Dict
	Matrix    Matrix
	Users     []Dict `json:",omitempty"`
	Chars     CharDef
	Unk       []Unk
	Oov       []string // "mecab", "simple", in order
	Simple    Simple
	Input     []string   // "default", "prolonged", in order
	Rewrite   *Rewrite   `json:",omitempty"`
	Prolonged *Prolonged `json:",omitempty"`
	Path      []PathPlugin
	Inhibit   [][2]int `json:",omitempty"`
	Utf16     bool     `json:",omitempty"`

	natural bool // drawn by Natural; texts are drawn to match
}

// Runes returns the runes of a string as the tokenizer reads it.
func Runes(s string) []rune {
	var out []rune
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		out = append(out, r)
		s = s[n:]
	}
	return out
}
