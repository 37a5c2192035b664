// C01: the double-array trie is the map it was built from (exact match).
package main

import (
	"fmt"

	"verifharness/pbt"
	"verifharness/triecase"
)

func check(c triecase.Case, st *pbt.Stats) error {
	keys, values, probes := c.Materialise()
	triecase.Classify(&c, keys, values, st)
	da, done, err := triecase.BuildTrie(&c, keys, values)
	if err != nil {
		return err
	}
	defer done()
	ext := 0
	for _, u := range da.Array() {
		if u>>31 == 0 && u&(1<<9) != 0 {
			ext++
		}
	}
	st.ClassIf(ext > 0, "long offsets")
	m := triecase.Model(keys, values)
	one := func(q []byte) error {
		v, l := da.ExactMatchSearch(q)
		want, ok := m[string(q)]
		if ok {
			if v != want || l != len(q) {
				return fmt.Errorf("ExactMatchSearch(%q) = (%d,%d), the key was stored with value %d", q, v, l, want)
			}
			return nil
		}
		if v != -1 || l != 0 {
			return fmt.Errorf("ExactMatchSearch(%q) = (%d,%d), but no such key was stored", q, v, l)
		}
		return nil
	}
	big := len(keys) > 3000
	st.ClassIf(triecase.NewIndex(keys).MaxLen() > 255, "a key longer than 255 bytes")
	for i, k := range keys {
		if err := one(k); err != nil {
			return err
		}
		if big && i%50 != 0 {
			continue
		}
		for _, j := range triecase.Cuts(len(k) - 1) {
			if err := one(k[:j]); err != nil {
				return err
			}
		}
		for _, x := range []byte{0, 1, 'a', 0x80, 0xff} {
			if err := one(append(append([]byte(nil), k...), x)); err != nil {
				return err
			}
		}
	}
	for _, p := range probes {
		if err := one(p); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	rule := "a key set (tiny, Japanese, byte-level, shared-suffix) built with or without values and read directly, from a saved buffer or from a mapped file; every key, every proper prefix, one-byte extensions and random probes are compared with a map; non-trivial: at least 3 keys, one a prefix of another"
	pbt.Main("C01",
		pbt.S("small", 250000, 6000000, rule, triecase.Draw, check),
		pbt.S("large", 300, 6000, "3000-20000 derived keys, so that the array spans many blocks; same comparison", triecase.DrawBig(3000, 20000), check),
		pbt.S("huge", 4, 80, "900000-1500000 derived keys: an array of more than 2^21 units, with offsets in their long form", triecase.DrawHuge, check),
	)
}
