// Package srcmodel reads dictionary sources by itself, as the reference for
// what a source means and whether it is well formed.
package srcmodel

import (
	"errors"
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/msnoigrs/gosudachi/dictionary"

	"verifharness/dictcheck"
)

var escape = regexp.MustCompile(`\\u([0-9a-fA-F]{4}|\{[0-9a-fA-F]+\})`)

// Decode decodes the escapes of a cell.
func Decode(s string) string {
	return escape.ReplaceAllStringFunc(s, func(m string) string {
		n, err := strconv.ParseInt(strings.Trim(m[2:], "{}"), 16, 64)
		if err != nil || n > 0x10ffff {
			return m
		}
		return string(rune(n))
	})
}

// Lines splits a source into lines.
func Lines(s string) []string {
	var out []string
	for s != "" {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return append(out, s)
		}
		out = append(out, strings.TrimSuffix(s[:i], "\r"))
		s = s[i+1:]
	}
	return out
}

// Word is a row as it must read back.
type Word struct {
	Head              string // "" if not indexed
	HeadLen           int
	Left, Right, Cost int
	Surface           string
	Pos               [6]string
	Reading, Norm     string
	DicForm           int
	split             [3]string
	Split             [3][]int32
}

// Lex is a lexicon source.
type Lex struct{ Words []Word }

var intRe = regexp.MustCompile(`^[+-]?[0-9]+$`)

// Int reads a decimal number of the given number of bits.
func Int(s string, bits int) (int, bool) {
	if !intRe.MatchString(s) {
		return 0, false
	}
	neg := s[0] == '-'
	s = strings.TrimLeft(strings.TrimLeft(s, "+-"), "0")
	if len(s) > 10 {
		return 0, false
	}
	v := 0
	for _, c := range s {
		v = v*10 + int(c-'0')
	}
	if neg {
		v = -v
	}
	if v < -(1<<(bits-1)) || v >= 1<<(bits-1) {
		return 0, false
	}
	return v, true
}

func tooLong(s string, u16 bool) bool {
	if u16 {
		return len(utf16.Encode([]rune(s))) > 32767
	}
	return len(s) > 32767
}

// Parse reads the sources of a dictionary; sys is nil for a system dictionary.
func Parse(files []string, sys *Lex, u16 bool) (*Lex, error) {
	lex := &Lex{}
	homo := map[string]int{}
	pos := map[[6]string]bool{}
	for _, f := range files {
		for i, line := range Lines(f) {
			bad := func(format string, a ...any) error {
				return fmt.Errorf("line %d: %s", i+1, fmt.Sprintf(format, a...))
			}
			cols := strings.Split(line, ",")
			if len(cols) != 18 {
				return nil, bad("%d columns", len(cols))
			}
			for k := range cols {
				cols[k] = Decode(cols[k])
			}
			for _, k := range []int{0, 4, 11, 12, 5, 6, 7, 8, 9, 10} {
				if tooLong(cols[k], u16) {
					return nil, bad("column %d is too long", k)
				}
			}
			if len(cols[0]) > 32767 {
				return nil, bad("the headword is too long")
			}
			w := Word{HeadLen: len(cols[0]), Surface: cols[4], Reading: cols[11], Norm: cols[12], DicForm: -1}
			var ok [3]bool
			w.Left, ok[0] = Int(cols[1], 16)
			w.Right, ok[1] = Int(cols[2], 16)
			w.Cost, ok[2] = Int(cols[3], 16)
			if !ok[0] || !ok[1] || !ok[2] {
				return nil, bad("numbers %q %q %q", cols[1], cols[2], cols[3])
			}
			if cols[1] != "-1" {
				w.Head = cols[0]
			}
			if w.Head != "" {
				homo[w.Head]++
				if homo[w.Head] > 255 {
					return nil, bad("too many homographs")
				}
				if strings.Contains(w.Head, "\x00") {
					return nil, bad("NUL in an indexed headword")
				}
			}
			copy(w.Pos[:], cols[5:11])
			for _, p := range w.Pos {
				if strings.Contains(p, ",") {
					return nil, bad("comma in a part of speech")
				}
			}
			pos[w.Pos] = true
			if cols[13] != "*" {
				var ok bool
				if w.DicForm, ok = Int(cols[13], 32); !ok || w.DicForm < -1 {
					return nil, bad("dictionary form %q", cols[13])
				}
			}
			if cols[14] == "A" && (cols[15] != "*" || cols[16] != "*") {
				return nil, bad("unit A with splits")
			}
			copy(w.split[:], cols[15:18])
			lex.Words = append(lex.Words, w)
		}
	}
	if len(pos) > 32767 {
		return nil, errors.New("too many parts of speech")
	}
	for i := range lex.Words {
		w := &lex.Words[i]
		if w.DicForm >= len(lex.Words) {
			return nil, fmt.Errorf("row %d: dictionary form %d", i, w.DicForm)
		}
		for k, s := range w.split {
			if s == "*" {
				continue
			}
			units := strings.Split(s, "/")
			if len(units) > 127 {
				return nil, fmt.Errorf("row %d: %d units", i, len(units))
			}
			for _, u := range units {
				id, ok := lex.unit(u, sys)
				if !ok {
					return nil, fmt.Errorf("row %d: unit %q", i, u)
				}
				w.Split[k] = append(w.Split[k], id)
			}
		}
	}
	return lex, nil
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func (x *Lex) unit(u string, sys *Lex) (int32, bool) {
	own := int32(0)
	if sys != nil {
		own = 1 << 28
	}
	if strings.HasPrefix(u, "U") {
		if n, ok := Int(u[1:], 32); ok {
			return own | int32(n), n >= 0 && n < len(x.Words)
		}
	}
	if n, ok := Int(u, 32); ok {
		if sys != nil {
			return int32(n), n >= 0 && n < len(sys.Words)
		}
		return int32(n), n >= 0 && n < len(x.Words)
	}
	ls := Lines(u)
	if len(ls) == 0 {
		return 0, false
	}
	cols := strings.Split(ls[0], ",")
	if len(cols) < 8 {
		return 0, false
	}
	for k := range cols {
		cols[k] = Decode(cols[k])
	}
	var pos [6]string
	copy(pos[:], cols[1:7])
	for i := range x.Words {
		if w := &x.Words[i]; w.Surface == cols[0] && w.Pos == pos && w.Reading == cols[7] {
			return own | int32(i), true
		}
	}
	if sys != nil {
		for i := range sys.Words {
			if w := &sys.Words[i]; w.Surface == cols[0] && w.Pos == pos && or(w.Reading, w.Surface) == cols[7] {
				return int32(i), true
			}
		}
	}
	return 0, false
}

func short(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", s[:80], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Compare compares a built lexicon with the source.
func (x *Lex) Compare(lex *dictionary.DoubleArrayLexicon, pos func(int16) []string) error {
	if int(lex.Size()) != len(x.Words) {
		return fmt.Errorf("the lexicon has %d words, the source %d", lex.Size(), len(x.Words))
	}
	for i := range x.Words {
		w := &x.Words[i]
		id := int32(i)
		if int(lex.GetLeftId(id)) != w.Left || int(lex.GetRightId(id)) != w.Right || int(lex.GetCost(id)) != w.Cost {
			return fmt.Errorf("word %d: parameters are %d,%d,%d, the source says %d,%d,%d", i, lex.GetLeftId(id), lex.GetRightId(id), lex.GetCost(id), w.Left, w.Right, w.Cost)
		}
		wi := lex.GetWordInfo(id)
		df := w.Surface
		if w.DicForm >= 0 {
			df = x.Words[w.DicForm].Surface
		}
		for _, c := range [][3]string{{"surface", wi.Surface, w.Surface}, {"reading", wi.ReadingForm, or(w.Reading, w.Surface)},
			{"normalized form", wi.NormalizedForm, or(w.Norm, w.Surface)}, {"dictionary form", wi.DictionaryForm, df},
			{"part of speech", strings.Join(pos(wi.PosId), ","), strings.Join(w.Pos[:], ",")}} {
			if c[1] != c[2] {
				return fmt.Errorf("word %d: %s is %s, the source says %s", i, c[0], short(c[1]), short(c[2]))
			}
		}
		if int(wi.HeadwordLength) != w.HeadLen || int(wi.DictionaryFormWordId) != w.DicForm {
			return fmt.Errorf("word %d: headword length %d, dictionary form %d, the source says %d and %d", i, wi.HeadwordLength, wi.DictionaryFormWordId, w.HeadLen, w.DicForm)
		}
		for k, got := range [][]int32{wi.AUnitSplit, wi.BUnitSplit, wi.WordStructure} {
			if !slices.Equal(got, w.Split[k]) {
				return fmt.Errorf("word %d: list %d of units is %v, the source says %v", i, k, got, w.Split[k])
			}
		}
	}
	seen := map[string]bool{}
	for i := range x.Words {
		h := x.Words[i].Head
		if h == "" || seen[h] || len(seen) > 60 {
			continue
		}
		seen[h] = true
		var want []dictcheck.Hit
		for j := range x.Words {
			if o := x.Words[j].Head; o != "" && strings.HasPrefix(h, o) {
				want = append(want, dictcheck.Hit{Id: int32(j), End: len(o)})
			}
		}
		slices.SortStableFunc(want, func(a, b dictcheck.Hit) int { return a.End - b.End })
		got, err := dictcheck.Drain(lex.Lookup([]byte(h), 0), len(want), 0)
		if err != nil || !slices.Equal(got, want) {
			return fmt.Errorf("looking up %s gives %v (%v), want %v", short(h), got, err, want)
		}
	}
	return nil
}

// Matrix is a matrix source.
type Matrix struct {
	L, R int
	Cost map[[2]int]int
	Skip int // lines skipped
}

// ParseMatrix reads a matrix source.
func ParseMatrix(s string) (*Matrix, error) {
	ls := Lines(s)
	if len(ls) == 0 {
		return nil, errors.New("empty")
	}
	m := &Matrix{Cost: map[[2]int]int{}}
	h := strings.Fields(ls[0])
	if len(h) < 2 {
		return nil, errors.New("header")
	}
	var ok1, ok2, ok3 bool
	m.L, ok1 = Int(h[0], 16)
	m.R, ok2 = Int(h[1], 16)
	if !ok1 || !ok2 || m.L < 0 || m.R < 0 {
		return nil, fmt.Errorf("header %q", ls[0])
	}
	for i, l := range ls[1:] {
		f := strings.Fields(l)
		if len(f) < 3 {
			m.Skip++
			continue
		}
		var a, b, c int
		a, ok1 = Int(f[0], 16)
		b, ok2 = Int(f[1], 16)
		c, ok3 = Int(f[2], 16)
		if !ok1 || !ok2 || !ok3 || a < 0 || a >= m.L || b < 0 || b >= m.R {
			return nil, fmt.Errorf("line %d: %q", i+2, l)
		}
		m.Cost[[2]int{a, b}] = c
	}
	return m, nil
}

// Compare compares a grammar with the source.
func (m *Matrix) Compare(get func(l, r int16) int16) error {
	for l := 0; l < m.L; l++ {
		for r := 0; r < m.R; r++ {
			if g := get(int16(l), int16(r)); int(g) != m.Cost[[2]int{l, r}] {
				return fmt.Errorf("connection cost of %d %d is %d, the source says %d", l, r, g, m.Cost[[2]int{l, r}])
			}
		}
	}
	return nil
}
