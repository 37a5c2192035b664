// C02: prefix search, its iterator and stepwise traversal agree with naive prefix matching.
package main

import (
	"bytes"
	"fmt"

	"github.com/msnoigrs/gosudachi/dartsclone"

	"verifharness/pbt"
	"verifharness/triecase"
)

type hit struct{ v, end int }

func naive(m map[string]int, keys [][]byte, maxLen int, q []byte, off int) []hit {
	var out []hit
	if len(q) > 500 { // few keys, some very long
		for _, k := range keys {
			if len(k) > 0 && bytes.HasPrefix(q[off:], k) {
				if n := len(out); n == 0 || out[n-1].end != off+len(k) {
					out = append(out, hit{m[string(k)], off + len(k)})
				}
			}
		}
		return out
	}
	for e := off + 1; e <= len(q) && e <= off+maxLen; e++ {
		if v, ok := m[string(q[off:e])]; ok {
			out = append(out, hit{v, e})
		}
	}
	return out
}

func one(da *dartsclone.DoubleArray, m map[string]int, x *triecase.Index, keys [][]byte, q []byte, off int, st *pbt.Stats) error {
	want := naive(m, keys, x.MaxLen(), q, off)
	longest := x.Longest(q[off:])
	st.ClassIf(len(want) >= 2, "two or more prefixes found")
	st.ClassIf(off > 0, "non-zero offset")
	for _, max := range []int{0, 1, 2, 1 << 20} {
		got := da.CommonPrefixSearch(q, off, max)
		w := want
		if len(w) > max {
			w = w[:max]
		}
		if len(got) != len(w) {
			return fmt.Errorf("CommonPrefixSearch(%q,%d,%d) = %v, want %v", q, off, max, got, w)
		}
		for i := range w {
			if got[i][0] != w[i].v || got[i][1] != w[i].end {
				return fmt.Errorf("CommonPrefixSearch(%q,%d,%d) = %v, want %v", q, off, max, got, w)
			}
		}
	}
	// iterator, Next before every Get (several Next calls must not consume)
	it := da.CommonPrefixSearchItr(q, off)
	for i, w := range want {
		for n := 0; n < 1+i%3; n++ {
			if !it.Next() {
				return fmt.Errorf("iterator(%q,%d) ends after %d results, want %v", q, off, i, want)
			}
		}
		v, e := it.Get()
		if it.Err() != nil || v != w.v || e != w.end {
			return fmt.Errorf("iterator(%q,%d) result %d = (%d,%d) err %v, want %v", q, off, i, v, e, it.Err(), w)
		}
	}
	// having ended it stays so, and there is nothing to get
	for n := 0; n < 4; n++ {
		if it.Next() {
			return fmt.Errorf("iterator(%q,%d) has more results than %v (asked %d times after the end)", q, off, want, n+1)
		}
		if n != 2 {
			continue
		}
		if v, e := it.Get(); it.Err() == nil {
			return fmt.Errorf("iterator(%q,%d): Get after the end gives (%d,%d) and no error", q, off, v, e)
		}
	}
	// iterator without Next: Get alone, then an error
	it = da.CommonPrefixSearchItr(q, off)
	for i, w := range want {
		v, e := it.Get()
		if it.Err() != nil || v != w.v || e != w.end {
			return fmt.Errorf("iterator(%q,%d) Get %d = (%d,%d) err %v, want %v", q, off, i, v, e, it.Err(), w)
		}
	}
	it.Get()
	if it.Err() == nil {
		return fmt.Errorf("iterator(%q,%d): Get beyond the end gives no error", q, off)
	}
	// one-shot traversal from the root
	tr := da.Traverse(q, off, len(q), 0)
	full := string(q[off:])
	if v, ok := m[full]; ok {
		if tr.Result != v || tr.Offset != len(q) {
			return fmt.Errorf("Traverse(%q,%d) = %+v, want value %d", q, off, *tr, v)
		}
	} else if longest == len(full) {
		if tr.Result != -1 || tr.Offset != len(q) {
			return fmt.Errorf("Traverse(%q,%d) = %+v, want -1 (inner node)", q, off, *tr)
		}
	} else {
		e := off + longest
		if bytes.IndexByte(q[off:], 0) >= 0 || len(m) == 0 {
			// no key has a NUL byte; how far the walk gets over one, or in an empty trie, is not promised
			if tr.Result >= 0 {
				return fmt.Errorf("Traverse(%q,%d) = %+v, no such key", q, off, *tr)
			}
			return nil
		}
		if tr.Result != -2 || tr.Offset != e {
			return fmt.Errorf("Traverse(%q,%d) = %+v, want -2 at offset %d", q, off, *tr, e)
		}
		// the position reached can be used to go on
		if e < len(q) {
			again := da.Traverse(q, e, len(q), tr.NodePosition)
			if again.Result != -2 || again.Offset != e {
				return fmt.Errorf("Traverse(%q,%d) resumed at %d = %+v, want -2 at once", q, off, e, *again)
			}
		}
	}
	// a step over no bytes tells about the position reached
	if none := da.Traverse(q, off, off, 0); none.Result != -1 || none.Offset != off || none.NodePosition != 0 {
		return fmt.Errorf("Traverse(%q,%d) over no bytes = %+v, want -1 at the root", q, off, *none)
	}
	// the same traversal in steps gives the same result
	steps := []int{1, 2}
	if len(q) > 500 {
		steps = []int{997, 4097}
		if off == 0 {
			steps = append(steps, 1)
		}
	}
	for _, step := range steps {
		pos, node := off, 0
		for {
			end := pos + step
			if end > len(q) {
				end = len(q)
			}
			r := da.Traverse(q, pos, end, node)
			if r.Result == -2 || end == len(q) {
				if *r != *tr {
					return fmt.Errorf("Traverse(%q,%d) in steps of %d = %+v, at once %+v", q, off, step, *r, *tr)
				}
				break
			}
			if v, ok := m[string(q[off:end])]; ok != (r.Result >= 0) || ok && v != r.Result {
				return fmt.Errorf("Traverse(%q,%d) in steps of %d gives %+v after %q, stored value %d (%v)", q, off, step, *r, q[off:end], v, ok)
			}
			if again := da.Traverse(q, end, end, r.NodePosition); *again != *r {
				return fmt.Errorf("Traverse(%q,%d) after %q gives %+v, and over no further bytes %+v", q, off, q[off:end], *r, *again)
			}
			pos, node = end, r.NodePosition
		}
	}
	return nil
}

func check(c triecase.Case, st *pbt.Stats) error {
	keys, values, probes := c.Materialise()
	triecase.Classify(&c, keys, values, st)
	da, done, err := triecase.BuildTrie(&c, keys, values)
	if err != nil {
		return err
	}
	defer done()
	m := triecase.Model(keys, values)
	x := triecase.NewIndex(keys)
	st.ClassIf(x.MaxLen() > 255, "a key longer than 255 bytes")
	st.ClassIf(x.MaxLen() > 65535, "a key longer than 65535 bytes")
	big := len(keys) > 1000
	for i, k := range keys {
		if big && i%40 != 0 || len(keys) > 100000 && i%2000 != 0 {
			continue
		}
		next := keys[(i*7+1)%len(keys)]
		q := append(append([]byte("x"), k...), next...)
		for _, off := range triecase.Cuts(len(q)) {
			if err := one(da, m, x, keys, q, off, st); err != nil {
				return err
			}
		}
	}
	for _, p := range probes {
		for _, off := range triecase.Cuts(len(p)) {
			if err := one(da, m, x, keys, p, off, st); err != nil {
				return err
			}
		}
	}
	return nil
}

func main() {
	rule := "a key set built with or without values; for texts made of one or two keys and random probes, at every offset, CommonPrefixSearch with limits 0,1,2,many, the iterator with and without Next, and Traverse are compared with naive prefix matching; non-trivial: at least 3 keys, one a prefix of another"
	pbt.Main("C02",
		pbt.S("small", 80000, 2500000, rule, triecase.Draw, check),
		pbt.S("huge", 3, 60, "900000-1500000 derived keys: an array of more than 2^21 units; same comparison", triecase.DrawHuge, check),
		pbt.S("nested", 12, 300, "40-1100 keys that begin with one another; same comparison", triecase.DrawNested, check),
		pbt.S("large", 200, 4000, "3000-20000 derived keys; same comparison", triecase.DrawBig(3000, 20000), check),
	)
}
