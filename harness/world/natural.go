package world

import (
	"strings"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

// naturalPOS are the parts of speech of a natural world: numeral, noun, mark, unknown.
var naturalPOS = []Pos6{
	{"名詞", "数詞", "*", "*", "*", "*"},
	{"名詞", "普通名詞", "一般", "*", "*", "*"},
	{"補助記号", "一般", "*", "*", "*", "*"},
	{"名詞", "固有名詞", "地名", "一般", "*", "*"},
}

// Natural draws a world like a real configuration: numerals, katakana words,
// compounds and unknown words by category, with every plugin of the library.
func Natural(t *rapid.T) *World {
	w := &World{POS: naturalPOS, Matrix: Matrix{L: 2, R: 2, Lines: [][3]int{{0, 0, 0}, {0, 1, 20}, {1, 0, 10}, {1, 1, -5}}}, Oov: []string{"mecab", "simple"},
		Simple: Simple{0, 0, 9000, 3}, Utf16: Chance(t, "utf16", 20)}
	add := func(s string, pos, cost int, norm string) int {
		if norm == "" {
			norm = s
		}
		n := len(w.Sys.Rows)
		w.Sys.Rows = append(w.Sys.Rows, Row{Head: pbt.Str(s), Surface: pbt.Str(s), Left: n % 2, Right: n / 2 % 2, Cost: cost, Pos: pos, Reading: "ヨミ", Norm: pbt.Str(norm), DicForm: -1, Unit: "A"})
		return n
	}
	for _, r := range "0123456789〇一二三四五六七八九十百千万億兆" {
		add(string(r), 0, 10, "")
	}
	sep := rapid.IntRange(0, 2).Draw(t, "separators")
	for _, s := range []string{",", ".", "。", "、", "-", "ー"} {
		if sep < 2 {
			add(s, []int{2, 0}[sep], 10, "")
		}
	}
	for _, s := range []string{"円", "年", "の", "に", "山", "カー", "カレー", "ド", "abc", "東京", "都", "京都", "株式会社", "か", "が"} {
		pos := 1
		if s == "東京" || s == "京都" {
			pos = 3
		}
		add(s, pos, 3000, "")
	}
	c := add("東京都", 1, 3500, "")
	tokyo, to := c-6, c-5
	for i := range w.Sys.Rows {
		switch w.Sys.Rows[i].Head {
		case "東京":
			tokyo = i
		case "都":
			to = i
		}
	}
	u := []Ref{{Own: true, Row: tokyo, Kind: "U"}, {Own: true, Row: to, Kind: "U"}}
	w.Sys.Rows[c].A, w.Sys.Rows[c].B, w.Sys.Rows[c].Unit = u, u, "C"
	seen := map[rune]bool{}
	for _, p := range pools {
		for _, r := range p {
			if k := NaturalCats(r); k != 0 && !seen[r] {
				seen[r] = true
				w.Chars.Ranges = append(w.Chars.Ranges, Range{r, r, k})
			}
		}
	}
	for _, r := range "年山都京円会社東の、ドレ" {
		if k := NaturalCats(r); k != 0 && !seen[r] {
			seen[r] = true
			w.Chars.Ranges = append(w.Chars.Ranges, Range{r, r, k})
		}
	}
	for i := 0; i < 16; i++ {
		cat := uint32(1) << i
		group := cat == KATAKANA || cat == ALPHA || cat == NUMERIC || cat == GREEK || cat == CYRILLIC
		w.Chars.Props = append(w.Chars.Props, CatProp{cat, group && Chance(t, "invoke", 40), group, i % 3})
		w.Unk = append(w.Unk, Unk{cat, 0, 0, 6000 + 10*i, 3})
	}
	w.Input = Pick(t, "input", [][]string{{"default"}, {"default", "prolonged"}, nil, {"prolonged"}})
	for _, k := range w.Input {
		if k == "default" {
			w.Rewrite = &Rewrite{Ignore: []pbt.Str{"Ⅰ"}, Replace: [][2]pbt.Str{{"か゛", "が"}, {"（株）", "株式会社"}, {"ｶﾞ", "ガ"}}}
		} else {
			w.Prolonged = &Prolonged{Marks: []pbt.Str{"ー", "〜", "-"}, Replacement: "ー"}
		}
	}
	n := PathPlugin{Kind: "numeric", Normalize: Chance(t, "normalize", 80)}
	k := PathPlugin{Kind: "katakana", MinLength: Pick(t, "minlen", []int{3, 1, 0}), Pos: 3}
	w.Path = Pick(t, "path", [][]PathPlugin{{n, k}, {k, n}, {n}, {k}})
	w.natural = true
	return w
}

// drawNatural draws a natural world under options.
func drawNatural(t *rapid.T, o Opt) (*World, []rune) {
	w := Natural(t)
	if !o.Input {
		w.Input, w.Rewrite, w.Prolonged = nil, nil, nil
	}
	if !o.Path {
		w.Path = nil
	}
	if o.MaxUsers > 0 && rapid.Bool().Draw(t, "user") {
		var u Dict
		for i, s := range []string{"カレー", "株", "京都府", "三千", "アイ"} {
			if Chance(t, "word", 60) {
				u.Rows = append(u.Rows, Row{Head: pbt.Str(s), Surface: pbt.Str(s), Left: i % 2, Right: i % 2, Cost: 1500 - 500*i, Pos: i % 2, Reading: "カナ", Norm: pbt.Str(s), DicForm: -1, Unit: "A"})
			}
		}
		if len(u.Rows) > 0 {
			w.Users = append(w.Users, u)
		}
	}
	if o.Inhibit && Chance(t, "inhibit", 20) {
		w.Inhibit = [][2]int{{rapid.IntRange(0, 1).Draw(t, "il"), 1}}
	}
	return w, []rune("1,.一千カーアa京")
}

// NaturalText draws a text of numbers, well-formed or not, katakana, marks and
// other words.
func NaturalText(t *rapid.T, max int) string {
	var b strings.Builder
	for i := rapid.IntRange(1, max).Draw(t, "pieces"); i > 0; i-- {
		switch rapid.IntRange(0, 4).Draw(t, "piece") {
		case 0:
			b.WriteString(Pick(t, "number", []string{"1", "12", "1,234", "1.5", "二十", "三千", "1,000,000", "5万", "2億3千", "〇", "０", "１，２３４", "1.", "1,", "1,23", "1.2.3", "12,34", "1,2,3", ".5", ",000", "万", "1..2",
				"1,234.5", "千.", "万,"}))
		case 1:
			b.WriteString(Pick(t, "katakana", []string{"カー", "カレー", "ド", "アイ", "ァ", "ー", "ンド", "カーーー", "ｶﾞ", "ｱ", "カ"}))
		case 2:
			b.WriteString(Pick(t, "mark", []string{",", ".", "ーー", "〜〜", "--", "。", "、", "Ⅰ", "か゛"}))
		default:
			b.WriteString(Pick(t, "word", []string{"円", "年", "の", "東京都", "東京", "京都", "に", "abc", "ABC", "αβ", "я", "（株）", "漢", "𠮷", "山", "が", "xyz", "\xff"}))
		}
	}
	return b.String()
}
