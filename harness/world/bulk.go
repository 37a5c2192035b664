package world

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Bulk describes a big world by a few numbers, so that a replay stays small.
type Bulk struct {
	N      int   // system rows
	Users  []int `json:",omitempty"` // rows of the user dictionaries
	Seed   uint64
	Alpha  pbt.Str
	MaxLen int
	L, R   int
	Homo   int // further rows for one headword
	POS    int
	Refs   bool // some references by description
	Utf16  bool
	Plain  bool `json:",omitempty"` // only a few rows list units
}

// DrawBulk draws a big world with minN..maxN system rows.
func DrawBulk(t *rapid.T, minN, maxN, maxUsers int) Bulk {
	b := Bulk{N: rapid.IntRange(minN, maxN).Draw(t, "n"), Seed: rapid.Uint64Range(1, 1<<62).Draw(t, "seed"),
		Alpha:  pbt.Str(Pick(t, "alpha", []string{"ab", "あいう", "abcdefghijklmnopqrstuvwxyz", "東京都𠮷a", "アイウエオカキクケコ漢字仮名", "ア1aé漢ー"})),
		MaxLen: rapid.IntRange(2, 12).Draw(t, "maxlen"), L: rapid.IntRange(1, 150).Draw(t, "L"), R: rapid.IntRange(1, 150).Draw(t, "R"),
		Homo: Pick(t, "homo", []int{0, 1, 127, 128, 200, 255}), POS: Pick(t, "pos", []int{1, 40, 127, 128, 256, 300, 700}),
		Refs: rapid.Bool().Draw(t, "refs"), Utf16: rapid.Bool().Draw(t, "utf16")}
	for n := rapid.IntRange(0, maxUsers).Draw(t, "users"); n > 0; n-- {
		b.Users = append(b.Users, rapid.IntRange(1, maxN).Draw(t, "un"))
	}
	return b
}

// World makes the rows.
func (b Bulk) World() *World {
	x := (b.Seed + 1) * 0x9E3779B97F4A7C15
	x ^= x>>31 | 1<<40
	next := func(n int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int((x >> 11) % uint64(n))
	}
	w := &World{Utf16: b.Utf16}
	for i := 0; i < b.POS; i++ {
		w.POS = append(w.POS, Pos6{"P" + pbt.Str(strconv.Itoa(i%7)), "Q" + pbt.Str(strconv.Itoa(i)), "*", "*", "*", "*"})
	}
	w.Matrix = Matrix{L: b.L, R: b.R}
	for i := 0; i < 200; i++ {
		w.Matrix.Lines = append(w.Matrix.Lines, [3]int{next(b.L), next(b.R), next(65535) - 32767})
	}
	rs := []rune(string(b.Alpha))
	word := func(n int) pbt.Str {
		var s strings.Builder
		for k := 1 + next(n); k > 0; k-- {
			s.WriteRune(rs[next(len(rs))])
		}
		return pbt.Str(s.String())
	}
	rows := func(d *Dict, n, homos int, user bool) {
		homo := map[pbt.Str]int{}
		descs := 20
		for i := 0; i < n+homos; i++ {
			r := Row{Head: word(b.MaxLen), Left: next(b.R), Right: next(b.L), Cost: next(65535) - 32767, Pos: next(len(w.POS)), DicForm: -1, Unit: "A"}
			if i >= n {
				r.Head = pbt.Str(strings.Repeat(string(rs[0]), b.MaxLen+1))
			}
			if homo[r.Head] == 255 { // a byte counts the homographs
				r.NoIndex = true
			} else {
				homo[r.Head]++
			}
			r.Surface, r.Reading, r.Norm = r.Head, word(b.MaxLen), word(b.MaxLen)
			if b.Refs && i >= n && next(2) == 0 {
				r.Reading = r.Head // told apart by the part of speech only
			}
			if next(3) == 0 {
				r.DicForm = next(n + homos)
			}
			// a reference to some row, often one near the end
			ref := func() Ref {
				q := Ref{Kind: "id", Own: true, Row: next(n + homos)}
				if user {
					q.Kind = "U"
					if next(2) == 0 {
						q = Ref{Kind: "id", Row: next(len(w.Sys.Rows))}
					}
				} else if next(2) == 0 {
					q.Kind = "U"
				}
				if next(8) == 0 {
					q.Row = max(0, len(w.Sys.Rows)-1-next(3))
					if q.Own {
						q.Row = n + homos - 1
					}
				}
				if b.Refs && descs > 0 && next(40) == 0 {
					q.Kind = "desc"
					descs--
					if b.Homo > 0 && (!user || !q.Own) && next(2) == 0 {
						q.Row = b.N + next(b.Homo)
					} else if q.Own && next(2) == 0 {
						q.Row = n + homos - 1 - next(min(n, 1000))
					}
				}
				return q
			}
			if i > 10 && next(4) == 0 && (!b.Plain || next(20) == 0) {
				r.Unit = "C"
				for k := next(127) * next(2) * next(2); k >= 0; k-- {
					r.A = append(r.A, ref())
				}
				for k := next(4); k >= 0; k-- {
					r.B = append(r.B, ref())
				}
				if next(5) == 0 {
					r.W = append(r.W, ref())
				}
			}
			d.Rows = append(d.Rows, r)
		}
		d.Newline = "\n"
		if b.Refs {
			w.fixDescs(d, user)
		}
	}
	rows(&w.Sys, b.N, b.Homo, false)
	w.Simple = Simple{next(b.R), next(b.L), 1000, w.Sys.Rows[0].Pos}
	for _, n := range b.Users {
		w.Users = append(w.Users, Dict{})
		rows(&w.Users[len(w.Users)-1], n, 0, true)
	}
	return w
}

// Classes counts what a big case is.
func (b Bulk) Classes(st *pbt.Stats) {
	st.NonTrivial()
	st.ClassIf(b.N > 1000, "over 1000 rows")
	st.ClassIf(b.N > 65536, "over 65536 rows")
	st.ClassIf(b.Homo > 100, "over 100 homographs")
	st.ClassIf(b.L*b.R > 10000, "matrix over 10000 entries")
	st.ClassIf(b.L*b.R > 1<<16, "matrix over 65536 entries")
	st.ClassIf(b.POS > 255, "over 255 parts of speech")
	for _, n := range b.Users {
		st.ClassIf(n > 65536, "user dictionary of over 65536 rows")
	}
	st.ClassIf(len(b.Users) > 1, "several user dictionaries")
}
