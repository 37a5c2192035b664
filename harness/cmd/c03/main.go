// C03: a key set that is not a sorted set of non-empty NUL-free keys with
// non-negative values is refused; it never panics and never gives a wrong trie.
package main

import (
	"fmt"
	"sort"

	"github.com/msnoigrs/gosudachi/dartsclone"
	"pgregory.net/rapid"

	"verifharness/pbt"
	"verifharness/triecase"
)

type Case struct {
	Keys   []pbt.Str
	Values []int // nil: without values
}

func gen(t *rapid.T) Case {
	ks := triecase.DrawKeys(t, 1, 12)
	var vs []int
	withValues := rapid.IntRange(0, 2).Draw(t, "withValues") > 0
	for i := range ks {
		vs = append(vs, rapid.IntRange(0, 3).Draw(t, "v")+i%2)
	}
	n := rapid.IntRange(1, 2).Draw(t, "nmut")
	for i := 0; i < n; i++ {
		at := rapid.IntRange(0, len(ks)-1).Draw(t, "at")
		switch rapid.IntRange(0, 6).Draw(t, "mut") {
		case 0: // swap
			b := rapid.IntRange(0, len(ks)-1).Draw(t, "b")
			ks[at], ks[b] = ks[b], ks[at]
		case 1: // duplicate
			ks = append(ks[:at+1], append([]string{ks[at]}, ks[at+1:]...)...)
			vs = append(vs, 1)
		case 2: // empty key
			ks[at] = ""
			if rapid.Bool().Draw(t, "first") {
				sort.Strings(ks)
			}
		case 3: // NUL byte inside
			p := rapid.IntRange(0, len(ks[at])).Draw(t, "p")
			ks[at] = ks[at][:p] + "\x00" + ks[at][p:]
		case 4: // negative value
			vs[at] = -1 - rapid.IntRange(0, 3).Draw(t, "neg")
			withValues = true
		case 5: // proper prefix after the longer key
			if len(ks[at]) > 1 {
				p := rapid.IntRange(1, len(ks[at])-1).Draw(t, "p")
				ks = append(ks[:at+1], append([]string{ks[at][:p]}, ks[at+1:]...)...)
				vs = append(vs, 1)
			}
		case 6: // NUL appended after an existing key
			ks = append(ks[:at+1], append([]string{ks[at] + "\x00" + rapid.SampledFrom([]string{"", "b", "\x01"}).Draw(t, "tail")}, ks[at+1:]...)...)
			vs = append(vs, 1)
		}
	}
	c := Case{}
	for _, k := range ks {
		c.Keys = append(c.Keys, pbt.Str(k))
	}
	if withValues {
		c.Values = vs[:len(ks)]
	}
	return c
}

func check(c Case, st *pbt.Stats) error {
	unsorted, empty, nul, neg, dup := false, false, false, false, false
	for i, k := range c.Keys {
		if i > 0 {
			unsorted = unsorted || c.Keys[i-1] > k
			dup = dup || c.Keys[i-1] == k
		}
		empty = empty || k == ""
		for j := 0; j < len(k); j++ {
			nul = nul || k[j] == 0
		}
	}
	for _, v := range c.Values {
		neg = neg || v < 0
	}
	st.ClassIf(unsorted, "unsorted")
	st.ClassIf(empty, "empty key")
	st.ClassIf(nul, "NUL byte")
	st.ClassIf(neg, "negative value")
	st.ClassIf(dup && !unsorted, "duplicate key")
	st.ClassIf(c.Values == nil, "without values")
	bad := unsorted || nul || neg || (empty && c.Values != nil)
	if bad || empty || dup {
		st.NonTrivial()
	}
	keys := make([][]byte, len(c.Keys))
	for i, k := range c.Keys {
		keys[i] = []byte(k)
	}
	da := dartsclone.NewDoubleArray()
	err := da.Build(keys, append([]int(nil), c.Values...), nil)
	if bad {
		if err == nil {
			return fmt.Errorf("Build accepted a malformed key set (unsorted=%v empty=%v NUL=%v negative=%v)", unsorted, empty, nul, neg)
		}
		st.Class("refused")
		return nil
	}
	if err != nil {
		if dup || empty {
			st.Class("refused")
			return nil // refusing duplicates (or, without values, an empty key) is fine
		}
		return fmt.Errorf("Build refused a well-formed key set: %v", err)
	}
	// Accepted: it has to be the map, the first of equal keys winning.
	st.Class("accepted")
	m := map[string]int{}
	for i, k := range keys {
		if _, ok := m[string(k)]; ok {
			continue
		}
		m[string(k)] = i
		if len(c.Values) > 0 {
			m[string(k)] = c.Values[i]
		}
	}
	for _, k := range keys {
		for _, j := range triecase.Cuts(len(k) + 1) {
			q := append([]byte(nil), k...)
			if j <= len(k) {
				q = q[:j]
			} else {
				q = append(q, 'b')
			}
			v, l := da.ExactMatchSearch(q)
			want, ok := m[string(q)]
			if ok && (v != want || l != len(q)) || !ok && v != -1 {
				return fmt.Errorf("after an accepted build ExactMatchSearch(%q) = (%d,%d), want %d (stored: %v)", q, v, l, want, ok)
			}
		}
	}
	return nil
}

func main() {
	pbt.Main("C03", pbt.S("malformed", 120000, 4000000,
		"well-formed key sets broken by swaps, duplicates, empty keys, NUL bytes, negative values, a prefix after its extension; non-trivial: the set really is malformed or has duplicates", gen, check))
}
