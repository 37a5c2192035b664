package world

import (
	"strings"
	"unicode"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Opt bounds a generated world.
type Opt struct {
	MaxRows   int
	MaxUsers  int
	Input     bool // input text plugins
	Path      bool // path rewriting plugins
	Inhibit   bool // edit connection cost plugin and prohibited matrix entries
	Auto      bool // automatic costs in user dictionaries
	Odd       bool // odd cells: long strings, empty forms, control characters, many files
	NoSplits  bool
	Profile   int // 0: any, 1: numeric, 2: katakana
	NoFail    bool
	WordStruc bool
	Long      int // percentage of headwords of 60 to 5000 bytes
}

// Pick draws one of the items.
func Pick[T any](t *rapid.T, label string, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// Chance is true with probability n/100 and shrinks to false.
func Chance(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-n
}

var pools = [][]rune{
	[]rune("あいうかるん"),
	[]rune("アイカーァェン𛀀"),
	[]rune("漢字東京都人"),
	[]rune("一二三十百千万億〇兆"),
	[]rune("0123456789,."),
	[]rune("abcdé"),
	[]rune("αβя"),
	[]rune(" 。・「!-"),
	[]rune("𠮷😀゛゙"),
	[]rune("ＡＢABｶﾞ㍿①ΣЯⅠ"),
	[]rune("株式会社１ガ"),
	[]rune("U1*-A"),
}

// NaturalCats is a category assignment like that of the usual char.def.
func NaturalCats(r rune) uint32 {
	switch {
	case strings.ContainsRune("一二三四五六七八九十百千万億兆", r):
		return KANJI | KANJINUMERIC
	case r == '〇':
		return SYMBOL | KANJINUMERIC
	case r >= '0' && r <= '9', r >= '０' && r <= '９':
		return NUMERIC
	case strings.ContainsRune("ァィゥェォャュョ", r):
		return KATAKANA | NOOOVBOW
	case r == 'ー', r == '𛀀', r >= 'ァ' && r <= 'ヿ', r >= 'ｦ' && r <= 'ﾝ':
		return KATAKANA
	case unicode.Is(unicode.Hiragana, r):
		return HIRAGANA
	case unicode.Is(unicode.Han, r):
		return KANJI
	case unicode.Is(unicode.Greek, r):
		return GREEK
	case unicode.Is(unicode.Cyrillic, r):
		return CYRILLIC
	case unicode.Is(unicode.Latin, r):
		return ALPHA
	case r == ' ':
		return SPACE
	case r < 0x80, unicode.IsPunct(r), unicode.IsSymbol(r) && r < 0x10000:
		return SYMBOL
	}
	return 0
}

// Alphabet draws a few runes from diverse groups.
func Alphabet(t *rapid.T, profile int) []rune {
	var groups []int
	switch profile {
	case 1:
		groups = []int{3, 4}
		if Chance(t, "other", 60) {
			groups = append(groups, rapid.IntRange(0, len(pools)-1).Draw(t, "g"))
		}
	case 2:
		groups = []int{1, 1}
		groups = append(groups, rapid.IntRange(0, len(pools)-1).Draw(t, "g"))
	default:
		n := rapid.IntRange(1, 3).Draw(t, "ngroups")
		for i := 0; i < n; i++ {
			groups = append(groups, rapid.IntRange(0, len(pools)-1).Draw(t, "g"))
		}
	}
	var out []rune
	for _, g := range groups {
		k := rapid.IntRange(1, 4).Draw(t, "k")
		for i := 0; i < k; i++ {
			out = append(out, Pick(t, "rune", pools[g]))
		}
	}
	return out
}

func str(t *rapid.T, label string, alpha []rune, min, max int) string {
	n := rapid.IntRange(min, max).Draw(t, label+".n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(Pick(t, label, alpha))
	}
	return b.String()
}

var posPool = []Pos6{
	{"名詞", "普通名詞", "一般", "*", "*", "*"},
	{"名詞", "数詞", "*", "*", "*", "*"},
	{"補助記号", "一般", "*", "*", "*", "*"},
	{"動詞", "非自立可能", "*", "*", "五段-ラ行", "終止形-一般"},
	{"名詞", "固有名詞", "地名", "一般", "*", "*"},
	{"助詞", "格助詞", "*", "*", "*", "*"},
	{"A", "B", "C", "D", "E", "F"},
	{"A", "B", "C", "D", "E", "G"},
	{"", "", "", "", "", ""},
	{"𠮷", "😀", "*", "*", "*", "*"},
}

func costGen(t *rapid.T, label string) int {
	switch rapid.IntRange(0, 9).Draw(t, label+".k") {
	case 0, 1, 2, 3, 4:
		return rapid.IntRange(0, 60).Draw(t, label)
	case 5, 6:
		return rapid.IntRange(-3000, 12000).Draw(t, label)
	case 7:
		return rapid.IntRange(-20, 5).Draw(t, label)
	case 8:
		return Pick(t, label, []int{32767, 32766, -32767, 0, 1, -1, 255, 256, 127, 128})
	default:
		return rapid.IntRange(-32767, 32767).Draw(t, label)
	}
}

type genState struct {
	t     *rapid.T
	w     *World
	alpha []rune
	o     Opt
}

func (g *genState) oddString(label string) string {
	t := g.t
	switch rapid.IntRange(0, 9).Draw(t, label+".odd") {
	case 0:
		return ""
	case 1:
		u := Pick(t, label+".u", []string{"a", "あ", "𠮷", "é"})
		n := Pick(t, label+".len", []int{31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 8191})
		return strings.Repeat(u, n/len(u)+1)
	case 2:
		return str(t, label, []rune("a,\\\"u{}0041\n\r\t #/*あ"), 1, 6)
	case 3:
		return str(t, label, []rune{0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xe000}, 1, 4)
	default:
		return str(t, label, g.alpha, 0, 5)
	}
}

// headOK: a head may be indexed (non-empty, no NUL).
func (g *genState) head(label string) string {
	if g.o.Odd && Chance(g.t, label+".odd", 12) {
		s := strings.ReplaceAll(g.oddString(label), "\x00", "")
		if s != "" {
			return s
		}
	}
	if g.o.Long > 0 && Chance(g.t, label+".long", g.o.Long) {
		u := str(g.t, label, g.alpha, 1, 2)
		n := Pick(g.t, label+".len", []int{60, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 1000, 4095, 5000})
		return strings.Repeat(u, n/len(u)+1)
	}
	return str(g.t, label, g.alpha, 1, 3)
}

type part struct {
	ref  Ref
	head string
}

func (g *genState) rows(d *Dict, user bool, n int) {
	t := g.t
	parts := func() []part {
		var ps []part
		for i := range d.Rows {
			ps = append(ps, part{Ref{Own: true, Row: i}, string(d.Rows[i].Head)})
		}
		if user {
			for i := range g.w.Sys.Rows {
				ps = append(ps, part{Ref{Own: false, Row: i}, string(g.w.Sys.Rows[i].Head)})
			}
		}
		return ps
	}
	for i := 0; i < n; i++ {
		r := Row{DicForm: -1, Unit: "A"}
		if g.o.Odd {
			r.Esc = rapid.IntRange(0, 3).Draw(t, "esc")
		}
		ps := parts()
		kind := rapid.IntRange(0, 9).Draw(t, "kind")
		var splitA, splitB []part
		switch {
		case kind >= 6 && kind <= 8 && len(ps) > 0 && !g.o.NoSplits:
			k := rapid.IntRange(2, 4).Draw(t, "parts")
			var h string
			for j := 0; j < k; j++ {
				p := Pick(t, "part", ps)
				splitB = append(splitB, p)
				h += p.head
			}
			r.Head = pbt.Str(h)
			splitA = splitB
			// flatten B units that have an A split of their own
			if Chance(t, "flatten", 60) {
				splitA = nil
				for _, p := range splitB {
					rr := g.w.refRow(d, p.ref)
					if len(rr.A) > 1 {
						for _, q := range rr.A {
							if !p.ref.Own {
								q.Own = false
							}
							splitA = append(splitA, part{q, string(g.w.refRow(d, q).Head)})
						}
					} else {
						splitA = append(splitA, p)
					}
				}
			}
			if len(splitA) > 100 || (len(r.Head) > 3000 && g.o.Long == 0) || len(r.Head) > 32000 {
				splitA, splitB = nil, nil
				r.Head = pbt.Str(g.head("head"))
			} else {
				r.Unit = "C"
				switch rapid.IntRange(0, 3).Draw(t, "which") {
				case 0:
					splitB = nil
					r.Unit = "B"
				case 1:
					if rapid.Bool().Draw(t, "noA") {
						splitA = nil
					}
				}
			}
		case kind == 9 && len(d.Rows) > 0: // homograph
			r.Head = d.Rows[rapid.IntRange(0, len(d.Rows)-1).Draw(t, "homo")].Head
		default:
			r.Head = pbt.Str(g.head("head"))
			if Chance(t, "selfsplit", 5) && !g.o.NoSplits {
				splitA = []part{{Ref{Own: true, Row: len(d.Rows)}, string(r.Head)}}
				r.Unit = "B"
			}
		}
		r.Surface = r.Head
		if Chance(t, "othersurface", 15) {
			if g.o.Odd {
				r.Surface = pbt.Str(g.oddString("surface"))
			} else {
				r.Surface = pbt.Str(str(t, "surface", g.alpha, 1, 3))
			}
		}
		if Chance(t, "noindex", 8) {
			r.NoIndex = true
		}
		r.Left = rapid.IntRange(0, g.w.Matrix.R-1).Draw(t, "left")
		r.Right = rapid.IntRange(0, g.w.Matrix.L-1).Draw(t, "right")
		r.Cost = costGen(t, "cost")
		if user && g.o.Auto && Chance(t, "auto", 50) {
			r.Cost = -32768
		}
		r.Pos = rapid.IntRange(0, len(g.w.POS)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 3).Draw(t, "readk") {
		case 0:
			r.Reading = r.Surface
		case 1:
			if g.o.Odd {
				r.Reading = pbt.Str(g.oddString("reading"))
			}
		default:
			r.Reading = pbt.Str(str(t, "reading", []rune("アイウカ"), 1, 3))
		}
		switch rapid.IntRange(0, 3).Draw(t, "normk") {
		case 0, 1:
			r.Norm = r.Surface
		case 2:
			r.Norm = pbt.Str(str(t, "norm", g.alpha, 1, 3))
		default:
			if g.o.Odd {
				r.Norm = pbt.Str(g.oddString("norm"))
			}
		}
		conv := func(ps []part) []Ref {
			var rs []Ref
			for _, p := range ps {
				q := p.ref
				q.Kind = g.refKind(user, q)
				rs = append(rs, q)
			}
			return rs
		}
		r.A, r.B = conv(splitA), conv(splitB)
		if len(ps) > 0 && Chance(t, "ws", 20) {
			k := rapid.IntRange(1, 3).Draw(t, "wsn")
			for j := 0; j < k; j++ {
				q := Pick(t, "wsp", ps).ref
				q.Kind = g.refKind(user, q)
				r.W = append(r.W, q)
			}
		}
		d.Rows = append(d.Rows, r)
	}
	for i := range d.Rows {
		if Chance(t, "dicform", 30) {
			d.Rows[i].DicForm = rapid.IntRange(0, len(d.Rows)-1).Draw(t, "dicformrow")
		}
	}
}

func (g *genState) refKind(user bool, q Ref) string {
	kinds := []string{"id", "desc"}
	if q.Own {
		kinds = []string{"U", "desc", "id"}
		if user {
			kinds = []string{"U", "desc"}
		}
	}
	return Pick(g.t, "refkind", kinds)
}

// Resolve gives the row a description reference means: the first row of the
// dictionary itself with that surface, part of speech and reading, else the
// first one of the system dictionary.
func (w *World) Resolve(d *Dict, user bool, q Ref) (own bool, row int, ok bool) {
	if q.Kind != "desc" {
		return q.Own, q.Row, true
	}
	x := w.refRow(d, q)
	reading := string(x.Reading)
	if !q.Own {
		reading = x.ReadReading()
	}
	for i := range d.Rows {
		y := &d.Rows[i]
		if y.Surface == x.Surface && w.POS[y.Pos] == w.POS[x.Pos] && string(y.Reading) == reading {
			return true, i, true
		}
	}
	if user {
		for i := range w.Sys.Rows {
			y := &w.Sys.Rows[i]
			if y.Surface == x.Surface && w.POS[y.Pos] == w.POS[x.Pos] && y.ReadReading() == reading {
				return false, i, true
			}
		}
	}
	return false, 0, false
}

// fixDescs turns description references that would not resolve to their target
// (or cannot be written) into numbers.
func (w *World) fixDescs(d *Dict, user bool) {
	fix := func(rs []Ref) {
		for i, q := range rs {
			if q.Kind != "desc" {
				continue
			}
			x := w.refRow(d, q)
			own, row, ok := w.Resolve(d, user, q)
			bad := !ok || own != q.Own || row != q.Row
			for _, s := range []string{string(x.Surface), x.ReadReading(), w.POS[x.Pos].Join()} {
				if strings.ContainsAny(s, "/\\\n\r") || strings.Count(s, ",") > 5 {
					bad = true
				}
			}
			if strings.Contains(string(x.Surface), ",") || strings.Contains(x.ReadReading(), ",") {
				bad = true
			}
			if bad {
				rs[i].Kind = "id"
				if q.Own && user {
					rs[i].Kind = "U"
				}
			}
		}
	}
	for i := range d.Rows {
		fix(d.Rows[i].A)
		fix(d.Rows[i].B)
		fix(d.Rows[i].W)
	}
}

func (g *genState) layout(d *Dict) {
	t := g.t
	d.Newline = "\n"
	if !g.o.Odd {
		return
	}
	if Chance(t, "crlf", 30) {
		d.Newline = "\r\n"
	}
	d.NoFinal = Chance(t, "nofinal", 30)
	if Chance(t, "files", 30) {
		k := rapid.IntRange(1, 3).Draw(t, "nfiles")
		for i := 0; i < k; i++ {
			d.Files = append(d.Files, rapid.IntRange(0, 5).Draw(t, "fsize"))
		}
	}
	d.Desc = pbt.Str(Pick(t, "desc", []string{"", "test", "辞書 core", strings.Repeat("x", 256)}))
	d.Time = rapid.Int64Range(0, 4102444800).Draw(t, "time")
}

// DrawMatrix draws a matrix source.
func DrawMatrix(t *rapid.T, inhibit bool) Matrix {
	m := Matrix{L: rapid.IntRange(1, 4).Draw(t, "matL"), R: rapid.IntRange(1, 4).Draw(t, "matR")}
	m.Dress = DrawDress(t)
	// half of the matrices list every pair once, the others a random list
	one := func() int {
		c := costGen(t, "conn")
		if c == 32767 {
			c = 0
		}
		if inhibit && Chance(t, "inhibited", 12) {
			c = 32767
		}
		return c
	}
	if rapid.Bool().Draw(t, "full") {
		for l := 0; l < m.L; l++ {
			for r := 0; r < m.R; r++ {
				m.Lines = append(m.Lines, [3]int{l, r, one()})
			}
		}
		return m
	}
	n := rapid.IntRange(0, 8).Draw(t, "nlines")
	for i := 0; i < n; i++ {
		m.Lines = append(m.Lines, [3]int{rapid.IntRange(0, m.L-1).Draw(t, "l"), rapid.IntRange(0, m.R-1).Draw(t, "r"), one()})
	}
	return m
}

// DrawWideSize draws the size of a matrix that is wide in one direction.
func DrawWideSize(t *rapid.T) (l, r int) {
	l = rapid.SampledFrom([]int{16383, 16384, 32766, 32767, 0}).Draw(t, "wide")
	if l == 0 {
		l = rapid.IntRange(1000, 32767).Draw(t, "wide size")
	}
	r = rapid.IntRange(1, 12).Draw(t, "narrow")
	if rapid.Bool().Draw(t, "other way") {
		l, r = r, l
	}
	return l, r
}

// DrawWideLines draws entries of a big matrix, many of them at its edges.
func DrawWideLines(t *rapid.T, m *Matrix, n int) {
	id := func(size int, label string) int {
		switch rapid.IntRange(0, 3).Draw(t, "at") {
		case 0:
			return size - 1
		case 1:
			return min(rapid.IntRange(0, 2).Draw(t, label), size-1)
		}
		return rapid.IntRange(0, size-1).Draw(t, label)
	}
	for ; n > 0; n-- {
		m.Lines = append(m.Lines, [3]int{id(m.L, "l"), id(m.R, "r"), rapid.IntRange(-32768, 32767).Draw(t, "c")})
	}
}

// DrawChars draws a category definition for an alphabet.
func DrawChars(t *rapid.T, alpha []rune) CharDef {
	c := CharDef{Dress: DrawDress(t)}
	seen := map[rune]bool{}
	all := append([]rune(nil), alpha...)
	for _, r := range alpha {
		all = append(all, unicode.ToLower(r), unicode.ToUpper(r))
	}
	for _, r := range all {
		if seen[r] {
			continue
		}
		seen[r] = true
		k := NaturalCats(r)
		if Chance(t, "override", 12) {
			k = 0
		}
		for bit := uint32(1); bit <= NOOOVBOW; bit <<= 1 {
			if k&bit != 0 && Chance(t, "separate", 30) && k != bit {
				c.Ranges = append(c.Ranges, Range{r, r, bit})
				k &^= bit
			}
		}
		if k != 0 {
			c.Ranges = append(c.Ranges, Range{r, r, k})
		}
	}
	nx := rapid.IntRange(0, 3).Draw(t, "nx")
	for i := 0; i < nx; i++ {
		lo := Pick(t, "xlo", all)
		hi := lo
		if Chance(t, "wide", 40) {
			hi = lo + rapid.Int32Range(0, 0x3000).Draw(t, "width")
		}
		cats := uint32(1) << rapid.IntRange(0, 15).Draw(t, "xcat")
		if Chance(t, "xcat2", 30) {
			cats |= 1 << rapid.IntRange(0, 15).Draw(t, "xcat2b")
		}
		c.Ranges = append(c.Ranges, Range{lo, hi, cats})
	}
	for i := 0; i < 16; i++ {
		if i > 0 && Chance(t, "noprop", 12) {
			continue
		}
		c.Props = append(c.Props, CatProp{1 << i, rapid.Bool().Draw(t, "invoke"), rapid.Bool().Draw(t, "group"), rapid.IntRange(0, 3).Draw(t, "len")})
	}
	return c
}

// DrawRewrite draws a rewrite definition for an alphabet.
func DrawRewrite(t *rapid.T, alpha []rune) *Rewrite {
	var rs []rune
	for _, r := range alpha {
		if !unicode.IsSpace(r) && r != '#' && r > ' ' {
			rs = append(rs, r, unicode.ToLower(r), unicode.ToUpper(r))
		}
	}
	if len(rs) == 0 {
		rs = []rune("aAあ")
	}
	w := &Rewrite{Dress: DrawDress(t)}
	seen := map[string]bool{}
	n := rapid.IntRange(0, 3).Draw(t, "nign")
	for i := 0; i < n; i++ {
		s := string(Pick(t, "ign", rs))
		if !seen[s] {
			seen[s] = true
			w.Ignore = append(w.Ignore, pbt.Str(s))
		}
	}
	seen = map[string]bool{}
	n = rapid.IntRange(0, 5).Draw(t, "nrep")
	for i := 0; i < n; i++ {
		k := str(t, "key", rs, 1, 3)
		if Chance(t, "long key", 12) {
			k += str(t, "rest", rs, 1, 5)
		}
		if len(w.Replace) > 0 && Chance(t, "longer or shorter", 15) { // one key begins with another
			o := []rune(string(Pick(t, "other", w.Replace)[0]))
			if k = string(o[:rapid.IntRange(1, len(o)).Draw(t, "part")]); rapid.Bool().Draw(t, "longer") {
				k = string(o) + str(t, "rest", rs, 1, 3)
			}
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		w.Replace = append(w.Replace, [2]pbt.Str{pbt.Str(k), pbt.Str(str(t, "val", append(rs, []rune("xＡｶ㍿")...), 1, 4))})
	}
	return w
}

// Draw draws a complete world and its alphabet.
func Draw(t *rapid.T, o Opt) (*World, []rune) {
	if o.Profile == ProfileNatural {
		return drawNatural(t, o)
	}
	w := &World{Utf16: Chance(t, "utf16", 30)}
	alpha := Alphabet(t, o.Profile)
	g := &genState{t: t, w: w, alpha: alpha, o: o}
	if o.MaxRows == 0 {
		o.MaxRows = 12
	}
	np := rapid.IntRange(1, 4).Draw(t, "npos")
	seen := map[Pos6]bool{}
	if o.Profile == 1 {
		w.POS = append(w.POS, posPool[1])
		seen[posPool[1]] = true
	}
	for i := 0; i < np; i++ {
		p := Pick(t, "pos", posPool)
		if o.Odd && Chance(t, "oddpos", 20) {
			p[rapid.IntRange(0, 5).Draw(t, "ppart")] = pbt.Str(strings.ReplaceAll(g.oddString("ppos"), ",", ""))
		}
		if !seen[p] {
			seen[p] = true
			w.POS = append(w.POS, p)
		}
	}
	w.Matrix = DrawMatrix(t, o.Inhibit)
	g.rows(&w.Sys, false, rapid.IntRange(1, o.MaxRows).Draw(t, "nrows"))
	g.layout(&w.Sys)
	// parts of speech of the system dictionary
	used := map[int]bool{}
	for i := range w.Sys.Rows {
		used[w.Sys.Rows[i].Pos] = true
	}
	var sysPos []int
	for i := range w.POS {
		if used[i] {
			sysPos = append(sysPos, i)
		}
	}
	if o.MaxUsers > 0 {
		nu := rapid.IntRange(0, o.MaxUsers).Draw(t, "nusers")
		for i := 0; i < nu; i++ {
			var u Dict
			g.rows(&u, true, rapid.IntRange(1, 5).Draw(t, "urows"))
			g.layout(&u)
			w.Users = append(w.Users, u)
		}
	}
	w.fixDescs(&w.Sys, false)
	for i := range w.Users {
		w.fixDescs(&w.Users[i], true)
	}
	w.Chars = DrawChars(t, alpha)
	for _, p := range w.Chars.Props {
		if Chance(t, "nounk", 15) {
			continue
		}
		n := rapid.IntRange(1, 2).Draw(t, "nunk")
		for i := 0; i < n; i++ {
			w.Unk = append(w.Unk, Unk{p.Cat, rapid.IntRange(0, w.Matrix.R-1).Draw(t, "ul"), rapid.IntRange(0, w.Matrix.L-1).Draw(t, "ur"), costGen(t, "uc"), Pick(t, "upos", sysPos)})
		}
	}
	w.Oov = Pick(t, "oov", [][]string{{"mecab", "simple"}, {"simple"}, {"simple", "mecab"}, {"mecab"}})
	if o.NoFail && len(w.Oov) == 1 && w.Oov[0] == "mecab" {
		w.Oov = []string{"mecab", "simple"}
	}
	w.Simple = Simple{rapid.IntRange(0, w.Matrix.R-1).Draw(t, "sl"), rapid.IntRange(0, w.Matrix.L-1).Draw(t, "sr"), costGen(t, "sc"), Pick(t, "spos", sysPos)}
	if o.Input {
		w.Input = Pick(t, "input", [][]string{nil, {"default"}, {"default", "prolonged"}, {"prolonged"}, {"prolonged", "default"}})
		for _, k := range w.Input {
			if k == "default" {
				w.Rewrite = DrawRewrite(t, alpha)
			} else {
				w.Prolonged = DrawProlonged(t, alpha, 1)
			}
		}
	}
	if o.Path {
		n := rapid.IntRange(0, 2).Draw(t, "npath")
		for i := 0; i < n; i++ {
			w.Path = append(w.Path, PathPlugin{
				Kind:      Pick(t, "pkind", []string{"numeric", "katakana"}),
				Normalize: rapid.Bool().Draw(t, "norm"), MinLength: rapid.IntRange(0, 3).Draw(t, "minlen"), Pos: Pick(t, "ppos", sysPos)})
		}
	}
	if o.Inhibit && Chance(t, "inhibit", 40) {
		n := rapid.IntRange(1, 3).Draw(t, "ninh")
		for i := 0; i < n; i++ {
			w.Inhibit = append(w.Inhibit, [2]int{rapid.IntRange(0, w.Matrix.L-1).Draw(t, "il"), rapid.IntRange(0, w.Matrix.R-1).Draw(t, "ir")})
		}
	}
	return w, alpha
}

// DrawProlonged draws sound mark settings; minRep is the least length of the replacement.
func DrawProlonged(t *rapid.T, alpha []rune, minRep int) *Prolonged {
	p := &Prolonged{}
	marks := append([]rune("ー-〜"), alpha...)
	n := rapid.IntRange(1, 3).Draw(t, "nmarks")
	for i := 0; i < n; i++ {
		p.Marks = append(p.Marks, pbt.Str(string(Pick(t, "mark", marks))))
	}
	p.Replacement = pbt.Str(str(t, "replacement", marks, minRep, 3))
	if Chance(t, "usual", 50) {
		p.Replacement = "ー"
	}
	return p
}

// ProfileNatural draws a world like a real configuration.
const ProfileNatural = 3

// DrawText draws a text for a world: words, loose characters, case variants,
// foreign characters and broken UTF-8.
func DrawText(t *rapid.T, w *World, alpha []rune, max int) string {
	if w.natural && !Chance(t, "other text", 10) {
		return NaturalText(t, max)
	}
	var words []string
	add := func(d *Dict) {
		for i := range d.Rows {
			if len(d.Rows[i].Head) <= 60 {
				words = append(words, string(d.Rows[i].Head))
			}
		}
	}
	add(&w.Sys)
	for i := range w.Users {
		add(&w.Users[i])
	}
	if w.Rewrite != nil {
		for _, r := range w.Rewrite.Replace {
			words = append(words, string(r[0]))
		}
	}
	n := rapid.IntRange(0, max).Draw(t, "pieces")
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 11).Draw(t, "piece") {
		case 0, 1, 2, 3, 4, 5:
			if len(words) > 0 {
				b.WriteString(Pick(t, "word", words))
			}
		case 6, 7, 8:
			b.WriteRune(Pick(t, "char", alpha))
		case 9:
			r := Pick(t, "char", alpha)
			if rapid.Bool().Draw(t, "up") {
				r = unicode.ToUpper(r)
			} else {
				r = unicode.ToLower(r)
			}
			for j := rapid.IntRange(1, 4).Draw(t, "rep"); j > 0; j-- {
				b.WriteRune(r)
			}
		case 10:
			b.WriteRune(Pick(t, "foreign", pools[rapid.IntRange(0, len(pools)-1).Draw(t, "fg")]))
		default:
			if Chance(t, "bad", 30) {
				b.WriteString(Pick(t, "badbytes", []string{"\xff", "\xe3\x81", "\x80", "\xed\xa0\x80", "\x00", "\uFFFD", "\xf4\x90\x80\x80", "\u200d", "\U0010ffff"}))
			} else {
				b.WriteRune(Pick(t, "char", alpha))
			}
		}
	}
	return b.String()
}
