// Package triecase generates key sets for the double-array trie checks.
package triecase

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/msnoigrs/gosudachi/dartsclone"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Case is a trie and the probes made on it.
type Case struct {
	Keys   []pbt.Str // sorted, distinct, non-empty, no NUL byte
	Values []int     // nil: the index is the value
	Probes []pbt.Str
	Via    string // direct | buffer | open
	// Expand describes a big derived key set instead of Keys (0: not used).
	Expand *Expand `json:",omitempty"`
}

// Expand is a compact description of a big key set.
type Expand struct {
	Seed    uint64
	N       int
	Alpha   pbt.Str
	MinLen  int
	MaxLen  int
	Values  int // number of distinct values (0: the index)
	NoValue bool
	// Tails is the number of endings (with their own value) that every
	// eighth key has one of; the trie shares them.
	Tails int `json:",omitempty"`
	// Nest: the keys are the beginnings of one key of N bytes.
	Nest bool `json:",omitempty"`
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Materialise returns sorted keys, values, probes.
func (c *Case) Materialise() (keys [][]byte, values []int, probes [][]byte) {
	if c.Expand == nil {
		for _, k := range c.Keys {
			keys = append(keys, []byte(k))
		}
		for _, p := range c.Probes {
			probes = append(probes, []byte(p))
		}
		return keys, c.Values, probes
	}
	e := c.Expand
	x := e.Seed
	set := map[string]bool{}
	var tails []string
	for i := 0; i < e.Tails; i++ {
		b := []byte{e.Alpha[0], e.Alpha[i%len(e.Alpha)]}
		for j := splitmix(&x) % 4; j > 0; j-- {
			b = append(b, e.Alpha[int(splitmix(&x)%uint64(len(e.Alpha)))])
		}
		tails = append(tails, string(b))
	}
	var last []byte
	for i := 0; i < e.N; i++ {
		l := e.MinLen + int(splitmix(&x)%uint64(e.MaxLen-e.MinLen+1))
		b := make([]byte, l)
		for j := range b {
			b[j] = e.Alpha[int(splitmix(&x)%uint64(len(e.Alpha)))]
		}
		if e.Nest {
			b = append(last, b[0])
			last = b
		}
		if len(tails) > 0 && splitmix(&x)%8 == 0 {
			b = append(b, tails[int(splitmix(&x)%uint64(len(tails)))]...)
		}
		set[string(b)] = true
	}
	ks := make([]string, 0, len(set))
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		keys = append(keys, []byte(k))
		if !e.NoValue {
			if e.Values == 0 {
				values = append(values, i)
			} else {
				values = append(values, int(splitmix(&x)%uint64(e.Values)))
			}
			for j, tail := range tails {
				if strings.HasSuffix(k, tail) {
					values[i] = j
				}
			}
		}
	}
	for i := 0; i < 300; i++ {
		k := ks[int(splitmix(&x)%uint64(len(ks)))]
		b := append([]byte(k), e.Alpha[int(splitmix(&x)%uint64(len(e.Alpha)))])
		if i%3 == 0 {
			b[int(splitmix(&x)%uint64(len(b)))] = byte(splitmix(&x))
		}
		probes = append(probes, b)
	}
	for _, p := range c.Probes {
		probes = append(probes, []byte(p))
	}
	return keys, values, probes
}

// Key tables.
var runes = []rune("あいうえおかがアイウーｱ漢字東京都市一二〇abcxyzAB019é・、 αя𠮷😀Ａ㍿")

func keyGen(t *rapid.T, style int) *rapid.Generator[string] {
	switch style {
	case 0: // tiny alphabet: much sharing of prefixes and suffixes
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab")), 1, 7, -1)
	case 1: // Japanese words over a few runes
		n := rapid.IntRange(2, 8).Draw(t, "nr")
		sub := rapid.SliceOfN(rapid.SampledFrom(runes), n, n).Draw(t, "sub")
		return rapid.StringOfN(rapid.RuneFrom(sub), 1, 6, -1)
	case 2: // arbitrary bytes without NUL
		return rapid.Map(rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 6), func(b []byte) string { return string(b) })
	case 3: // extreme bytes
		return rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]byte{1, 2, 0x7f, 0x80, 0xfe, 0xff}), 1, 5), func(b []byte) string { return string(b) })
	case 5: // long keys, one beginning with another
		unit := rapid.SampledFrom([]string{"a", "ab", "あ", "\xff", "abcabd"}).Draw(t, "unit")
		max := rapid.SampledFrom([]int{40, 300, 1500, 70000 / len(unit)}).Draw(t, "maxrep")
		return rapid.Custom(func(t *rapid.T) string {
			n := rapid.IntRange(0, max).Draw(t, "rep")
			if rapid.IntRange(0, 3).Draw(t, "near") == 0 {
				n = (rapid.SampledFrom([]int{127, 255, 256, 4096, 32768, 65536}).Draw(t, "len") + rapid.IntRange(-1, 1).Draw(t, "off")) / len(unit)
				if n > max {
					n = max
				}
			}
			return strings.Repeat(unit, n) + rapid.SampledFrom([]string{"", "a", "b", "ab", "い"}).Draw(t, "end") + strings.Repeat("c", rapid.IntRange(0, 2).Draw(t, "tail"))
		}).Filter(func(s string) bool { return s != "" })
	default: // stem + common ending: shared suffixes in different positions
		stem := rapid.StringOfN(rapid.RuneFrom([]rune("abcdeあい")), 0, 3, -1)
		end := rapid.SampledFrom([]string{"る", "た", "ing", "s", "a", "ません", "ed", "zzz"})
		return rapid.Custom(func(t *rapid.T) string { return stem.Draw(t, "stem") + end.Draw(t, "end") })
	}
}

// DrawKeys draws distinct sorted keys.
func DrawKeys(t *rapid.T, minN, maxN int) []string {
	style := rapid.IntRange(0, 4).Draw(t, "style")
	if rapid.IntRange(0, 199).Draw(t, "long keys") == 199 {
		style = 5
		if maxN > 10 {
			maxN = 10
		}
	}
	ks := rapid.SliceOfNDistinct(keyGen(t, style), 0, maxN, rapid.ID[string]).Draw(t, "keys")
	if len(ks) < minN {
		ks = append(ks, "k")
	}
	sort.Strings(ks)
	return ks
}

func drawValues(t *rapid.T, n int) []int {
	g := rapid.OneOf(
		rapid.IntRange(0, 1),
		rapid.IntRange(0, 5),
		rapid.IntRange(0, 1000),
		rapid.SampledFrom([]int{0, 1, 255, 256, 1<<16 - 1, 1 << 21, 1<<29 - 1, 1 << 30, 1<<31 - 2, 1<<31 - 1}),
		rapid.IntRange(0, 1<<31-1),
	)
	if rapid.Bool().Draw(t, "oneKind") {
		k := rapid.IntRange(0, 4).Draw(t, "kind")
		g = []*rapid.Generator[int]{rapid.IntRange(0, 1), rapid.IntRange(0, 5), rapid.Just(0), rapid.IntRange(0, 300), rapid.IntRange(0, 1<<31-1)}[k]
	}
	v := make([]int, n)
	for i := range v {
		v[i] = g.Draw(t, "v")
	}
	return v
}

// Draw is the generator of small and medium tries.
func Draw(t *rapid.T) Case {
	minN := 0
	withValues := rapid.IntRange(0, 3).Draw(t, "withValues") > 0
	max := rapid.SampledFrom([]int{6, 20, 60, 200}).Draw(t, "max")
	ks := DrawKeys(t, minN, max)
	c := Case{Via: rapid.SampledFrom([]string{"direct", "buffer", "open"}).Draw(t, "via")}
	for _, k := range ks {
		c.Keys = append(c.Keys, pbt.Str(k))
	}
	if withValues && len(ks) > 0 {
		c.Values = drawValues(t, len(ks))
	}
	np := rapid.IntRange(0, 12).Draw(t, "np")
	for i := 0; i < np; i++ {
		var p string
		switch rapid.IntRange(0, 3).Draw(t, "pk") {
		case 0:
			p = string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "raw"))
		case 1, 2:
			if len(ks) > 0 {
				p = rapid.SampledFrom(ks).Draw(t, "k")
				p += rapid.SampledFrom([]string{"", "a", "\x00", "あ", "\xff", "る"}).Draw(t, "sfx")
				if rapid.Bool().Draw(t, "more") {
					p += rapid.SampledFrom(ks).Draw(t, "k2")
				}
			}
		default:
			if len(ks) > 0 {
				b := []byte(rapid.SampledFrom(ks).Draw(t, "k"))
				b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] = rapid.Byte().Draw(t, "b")
				p = string(b)
			}
		}
		c.Probes = append(c.Probes, pbt.Str(p))
	}
	return c
}

// DrawNested draws keys that all begin with one another.
func DrawNested(t *rapid.T) Case {
	return Case{Via: rapid.SampledFrom([]string{"direct", "buffer", "open"}).Draw(t, "via"), Expand: &Expand{
		Seed: rapid.Uint64().Draw(t, "seed"), N: rapid.SampledFrom([]int{40, 70, 130, 260, 300, 1030, 1100}).Draw(t, "n"),
		Alpha: pbt.Str(rapid.SampledFrom([]string{"ab", "a", "\xe3\x81\x82", "xyzw\xff\x01"}).Draw(t, "alpha")), MinLen: 1, MaxLen: 1,
		Values: rapid.SampledFrom([]int{0, 2, 1000}).Draw(t, "values"), NoValue: rapid.IntRange(0, 4).Draw(t, "novalue") == 0, Nest: true}}
}

// DrawBig draws a big trie (many blocks of the array).
func DrawBig(minN, maxN int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		var alpha []byte
		switch rapid.IntRange(0, 3).Draw(t, "alpha") {
		case 0:
			alpha = []byte("abcdefgh")
		case 1:
			for i := 1; i < 256; i++ {
				alpha = append(alpha, byte(i))
			}
		case 2:
			alpha = []byte{1, 0xff, 'a', 0x80, 0x7f}
		default:
			alpha = []byte("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")
		}
		e := &Expand{
			Seed:    rapid.Uint64().Draw(t, "seed"),
			N:       rapid.IntRange(minN, maxN).Draw(t, "n"),
			Alpha:   pbt.Str(alpha),
			MinLen:  rapid.IntRange(1, 4).Draw(t, "minLen"),
			Values:  rapid.SampledFrom([]int{0, 1, 2, 10, 1000}).Draw(t, "values"),
			NoValue: rapid.IntRange(0, 4).Draw(t, "novalue") == 0,
		}
		e.MaxLen = e.MinLen + rapid.IntRange(1, 8).Draw(t, "more")
		if rapid.IntRange(0, 3).Draw(t, "shared") == 0 {
			e.NoValue, e.Tails = false, rapid.IntRange(1, 20).Draw(t, "tails")
		}
		return Case{Expand: e, Via: rapid.SampledFrom([]string{"direct", "buffer"}).Draw(t, "via")}
	}
}

// DrawHuge draws a trie whose array has more than 2^21 units, so that some
// offsets need their long form.
func DrawHuge(t *rapid.T) Case {
	c := DrawBig(900000, 1500000)(t)
	e := c.Expand
	var alpha []byte
	for i := 1; i < 256; i++ {
		alpha = append(alpha, byte(i))
	}
	if rapid.Bool().Draw(t, "letters") {
		alpha = alpha[31:120]
	}
	e.Alpha = pbt.Str(alpha)
	e.MinLen = rapid.IntRange(4, 5).Draw(t, "minLen")
	e.MaxLen = e.MinLen + rapid.IntRange(1, 3).Draw(t, "more")
	e.Values = rapid.SampledFrom([]int{0, 0, 1000000, 1000}).Draw(t, "values")
	if e.Tails == 0 && rapid.Bool().Draw(t, "tails too") {
		e.Tails = rapid.IntRange(1, 20).Draw(t, "tails")
	}
	e.NoValue = rapid.Bool().Draw(t, "novalue") && e.Tails == 0
	return c
}

// BuildTrie builds the trie of the case and returns it with a cleanup.
func BuildTrie(c *Case, keys [][]byte, values []int) (*dartsclone.DoubleArray, func(), error) {
	da := dartsclone.NewDoubleArray()
	kc := make([][]byte, len(keys))
	for i := range keys {
		kc[i] = append([]byte(nil), keys[i]...)
	}
	if err := da.Build(kc, append([]int(nil), values...), nil); err != nil {
		return nil, nil, fmt.Errorf("Build of a well-formed key set failed: %v", err)
	}
	if da.Length()*4 != da.TotalSize() || len(da.Array()) != da.Length() || len(da.ByteArray()) != da.TotalSize() {
		return nil, nil, fmt.Errorf("sizes disagree: Length %d TotalSize %d Array %d ByteArray %d", da.Length(), da.TotalSize(), len(da.Array()), len(da.ByteArray()))
	}
	switch c.Via {
	case "buffer":
		var buf bytes.Buffer
		n, err := da.Save(&buf)
		if err != nil || n != da.TotalSize() || buf.Len() != n {
			return nil, nil, fmt.Errorf("Save: n=%d err=%v, TotalSize=%d", n, err, da.TotalSize())
		}
		// an aligned copy
		arr := make([]uint32, buf.Len()/4)
		for i := range arr {
			arr[i] = binary.LittleEndian.Uint32(buf.Bytes()[4*i:])
		}
		tmp := dartsclone.NewDoubleArray()
		tmp.SetArray(arr)
		d2 := dartsclone.NewDoubleArray()
		d2.SetBuffer(tmp.ByteArray())
		return d2, func() {}, nil
	case "open":
		// the whole file, or a part of it that begins at a page
		way := len(keys) % 4
		var pos, size int64
		switch way {
		case 1:
			pos, size = -1, -1
		case 2:
			size = int64(da.TotalSize())
		case 3:
			pos, size = int64(os.Getpagesize()*(1+len(keys)/4%3)), int64(da.TotalSize())
		}
		path := filepath.Join(pbt.TempDir, "trie.bin")
		f, err := os.Create(path)
		pbt.Must(err)
		junk := bytes.Repeat([]byte{0xa5}, 16384)
		if pos > 0 {
			_, err = f.Write(junk[:pos])
			pbt.Must(err)
		}
		_, err = da.Save(f)
		pbt.Must(err)
		if pos > 0 {
			_, err = f.Write(junk[:len(keys)%100*4])
			pbt.Must(err)
		}
		pbt.Must(f.Close())
		f, err = os.Open(path)
		pbt.Must(err)
		d2 := dartsclone.NewDoubleArray()
		err = d2.Open(f, pos, size)
		pbt.Must(f.Close()) // the mapping stays
		if err != nil {
			return nil, nil, fmt.Errorf("Open(%d, %d) of a saved trie: %v", pos, size, err)
		}
		if d2.TotalSize() != da.TotalSize() || d2.Length() != da.Length() {
			return nil, nil, fmt.Errorf("Open(%d, %d) of a saved trie of %d units gives one of %d", pos, size, da.Length(), d2.Length())
		}
		return d2, func() { d2.Close() }, nil
	}
	return da, func() {}, nil
}

// Model returns the reference map.
func Model(keys [][]byte, values []int) map[string]int {
	m := make(map[string]int, len(keys))
	for i, k := range keys {
		if len(values) > 0 {
			m[string(k)] = values[i]
		} else {
			m[string(k)] = i
		}
	}
	return m
}

// Classify records what the case looks like.
func Classify(c *Case, keys [][]byte, values []int, st *pbt.Stats) {
	st.ClassIf(len(keys) == 0, "empty key set")
	st.ClassIf(len(values) > 0, "with values")
	st.ClassIf(len(values) == 0 && len(keys) > 0, "without values")
	st.Class("via " + c.Via)
	st.ClassIf(len(keys) >= 100, "100+ keys")
	st.ClassIf(len(keys) >= 4000, "4000+ keys")
	st.ClassIf(len(keys) >= 100000, "100000+ keys")
	if len(values) > 0 && len(keys) < 5000 {
		// two keys with the same value that share an ending below different parents
		type sv struct {
			s string
			v int
		}
		seen := map[sv]bool{}
		for i, k := range keys {
			if len(k) >= 2 {
				x := sv{string(k[len(k)-1:]), values[i]}
				if seen[x] {
					st.Class("shared ending with equal value")
					break
				}
				seen[x] = true
			}
		}
	}
	for i := 1; i < len(keys); i++ {
		if bytes.HasPrefix(keys[i], keys[i-1]) {
			st.Class("key is a prefix of another")
			if len(keys) >= 3 {
				st.NonTrivial()
			}
			break
		}
	}
}

// Cuts gives the offsets 0..n, or for a big n a fixed sample of them with both
// ends and the powers of two.
func Cuts(n int) []int {
	var out []int
	if n <= 200 {
		for i := 0; i <= n; i++ {
			out = append(out, i)
		}
		return out
	}
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i <= n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for i := 0; i < 3; i++ {
		add(i)
		add(n - i)
	}
	for p := 64; p <= n; p *= 2 {
		add(p - 1)
		add(p)
		add(n - p)
	}
	for i := 1; i <= 8; i++ {
		add(int(uint32(n*i*7919+i*104729) % uint32(n)))
	}
	sort.Ints(out)
	return out
}

// Index answers prefix questions about sorted keys.
type Index struct {
	keys   [][]byte
	maxLen int
}

// NewIndex takes the sorted keys.
func NewIndex(keys [][]byte) *Index {
	x := &Index{keys: keys}
	for _, k := range keys {
		if len(k) > x.maxLen {
			x.maxLen = len(k)
		}
	}
	return x
}

func lcp(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// Longest gives the length of the longest beginning of q that begins some key.
func (x *Index) Longest(q []byte) int {
	i := sort.Search(len(x.keys), func(i int) bool { return bytes.Compare(x.keys[i], q) >= 0 })
	n := 0
	if i < len(x.keys) {
		n = lcp(x.keys[i], q)
	}
	if i > 0 {
		if m := lcp(x.keys[i-1], q); m > n {
			n = m
		}
	}
	return n
}

// MaxLen is the length of the longest key.
func (x *Index) MaxLen() int { return x.maxLen }
