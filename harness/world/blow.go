package world

import (
	"strings"

	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Blow makes a long string of a short one: a piece of it is repeated.
type Blow struct {
	At  int // the piece begins at this character (modulo their number)
	Len int // its characters
	N   int // how many times it is there in all
}

// DrawBlow draws an expansion to about n characters.
func DrawBlow(t *rapid.T, n ...int) Blow {
	b := Blow{At: rapid.IntRange(0, 20).Draw(t, "blow.at"), Len: rapid.IntRange(1, 3).Draw(t, "blow.len")}
	b.N = (Pick(t, "blow.n", n) + b.Len - 1) / b.Len
	return b
}

// Apply gives the long string.
func (b Blow) Apply(s string) string {
	r := []rune(s)
	if b.N < 2 || len(r) == 0 {
		return s
	}
	at := b.At % len(r)
	end := min(at+max(b.Len, 1), len(r))
	return string(r[:at]) + strings.Repeat(string(r[at:end]), b.N) + string(r[end:])
}

// Blown applies the expansion i of a list, if there is one, to a text.
func Blown(bs []Blow, i int, s pbt.Str) string {
	if i < len(bs) {
		return bs[i].Apply(string(s))
	}
	return string(s)
}
