// C28: the diagnostic output shows the candidates and the chosen path.
package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/msnoigrs/gosudachi"

	"verifharness/model"
	"verifharness/pbt"
	"verifharness/world"
)

type call struct {
	Mode string
	Text pbt.Str
	Blow world.Blow // makes the text long
}

type caseT struct {
	W     *world.World
	Calls []call
}

func gen(profile int, path bool) func(t *rapid.T) caseT {
	return func(t *rapid.T) caseT {
		w, alpha := world.Draw(t, world.Opt{MaxRows: 10, MaxUsers: 2, Input: world.Chance(t, "in", 40), Path: path, Inhibit: true, Profile: profile})
		c := caseT{W: w}
		for i := rapid.IntRange(1, 5).Draw(t, "ntexts"); i > 0; i-- {
			k := call{Mode: world.Pick(t, "mode", []string{"C", "C", "A", "B"}), Text: pbt.Str(world.DrawText(t, w, alpha, 8))}
			if world.Chance(t, "long", 1) {
				k.Blow = world.DrawBlow(t, 30, 110, 130, 260, 340, 1100)
			}
			c.Calls = append(c.Calls, k)
		}
		return c
	}
}

// seen is an input plugin of the harness that notes the rewritten text.
type seen struct{ text string }

func (p *seen) GetConfigStruct() interface{} { return p }
func (p *seen) SetUp() error                 { return nil }
func (p *seen) Rewrite(b *gosudachi.InputTextBuilder) error {
	p.text = string(b.GetText())
	return nil
}

// node is a node of a path as the harness saw it.
type node struct {
	begin, end, word, cost int
	surface                string
	pos                    int16
}

func noted(p []*gosudachi.LatticeNode) []node {
	var out []node
	for _, n := range p {
		wi := n.GetWordInfo()
		out = append(out, node{n.GetBegin(), n.GetEnd(), n.GetWordId(), n.GetPathCost(), wi.Surface, wi.PosId})
	}
	return out
}

// numbered checks that lines are numbered from 0 and takes the numbers away.
func numbered(lines []string) ([]string, error) {
	var out []string
	for i, l := range lines {
		n, rest, ok := strings.Cut(l, ": ")
		if !ok || n != strconv.Itoa(i) {
			return nil, fmt.Errorf("line %d of the part is %q", i, l)
		}
		out = append(out, rest)
	}
	return out, nil
}

// without takes a prefix and a suffix away.
func without(s, prefix, suffix string) (string, bool) {
	if len(s) < len(prefix)+len(suffix) || !strings.HasPrefix(s, prefix) || !strings.HasSuffix(s, suffix) {
		return "", false
	}
	return s[len(prefix) : len(s)-len(suffix)], true
}

func isInt(s string) bool {
	_, err := strconv.Atoi(s)
	return err == nil
}

// isCand tells whether the text describes the candidate; the number printed
// as the word id of an unknown word means nothing.
func isCand(w *world.World, c *model.Cand, text string) bool {
	tail := fmt.Sprintf(") %s %d %d %d", w.POS[c.Pos].Join(), c.Left, c.Right, c.Cost)
	id, ok := without(text, fmt.Sprintf("%d %d %s(", c.Begin, c.End, c.Surface), tail)
	return ok && (c.Dict >= 0 && id == strconv.Itoa(int(int32(uint32(c.Dict)<<28|uint32(c.Row)))) || c.Dict < 0 && isInt(id))
}

const bosEos = ") BOS/EOS 0 0 0"

func checkLattice(w *world.World, l *model.Lattice, lines []string) error {
	lines, err := numbered(lines)
	if err != nil {
		return fmt.Errorf("lattice: %v", err)
	}
	type line struct {
		begin, end  int
		left, right int
		costs       []int
		bos, eos    bool
	}
	var ls []*line
	size := len(l.T.S)
	found := map[model.Cand]bool{}
	bos, eos := false, false
	for _, s := range lines {
		i := strings.LastIndex(s, ": ")
		if i < 0 {
			return fmt.Errorf("lattice line %q", s)
		}
		x := &line{}
		for _, f := range strings.Fields(s[i+2:]) {
			n, err := strconv.Atoi(f)
			if err != nil {
				return fmt.Errorf("lattice line %q: connection cost %q", s, f)
			}
			x.costs = append(x.costs, n)
		}
		s = s[:i]
		if id, ok := without(s, fmt.Sprintf("%d %d (null)(", size, size), bosEos); ok && isInt(id) && !eos {
			eos = true
			x.begin, x.end, x.eos = size, size, true
			ls = append(ls, x)
			continue
		}
		if id, ok := without(s, "0 0 (null)(", bosEos); ok && isInt(id) && !bos {
			bos = true
			x.bos = true
			ls = append(ls, x)
			continue
		}
		known := false
		f := strings.SplitN(s, " ", 2)
		b, err := strconv.Atoi(f[0])
		if err != nil {
			return fmt.Errorf("lattice line %q", s)
		}
		for k := range l.At[b] {
			if c := &l.At[b][k]; isCand(w, c, s) {
				known = true
				found[*c] = true
				x.begin, x.end, x.left, x.right = c.Begin, c.End, c.Left, c.Right
			}
		}
		if !known {
			return fmt.Errorf("lattice line %q shows no candidate; candidates from %d: %+v", s, b, l.At[b])
		}
		ls = append(ls, x)
	}
	if !bos || !eos {
		return fmt.Errorf("the lattice shows no beginning (%v) or end (%v)", bos, eos)
	}
	for _, cs := range l.At {
		for _, c := range cs {
			if !found[c] {
				return fmt.Errorf("the lattice does not show the candidate %+v", c)
			}
		}
	}
	for i, x := range ls {
		if x.bos {
			continue
		}
		// the costs belong to the lines that end here, in their order
		var want []int
		for _, y := range ls {
			if !y.eos && y.end == x.begin && (y.bos || y.end > 0) {
				k, _ := l.Connect(y.right, x.left)
				want = append(want, k)
			}
		}
		if fmt.Sprint(x.costs) != fmt.Sprint(want) {
			return fmt.Errorf("lattice line %d %q has connection costs %v, want %v", i, lines[i], x.costs, want)
		}
	}
	return nil
}

// describes tells whether a path line describes a node; left and right are
// what it says in between.
func describes(s string, n node) (left, right int, ok bool) {
	mid, ok := without(s, fmt.Sprintf("%d %d %s(%d) %d ", n.begin, n.end, n.surface, int32(uint32(n.word)), n.pos), fmt.Sprintf(" %d", n.cost))
	if !ok {
		return 0, 0, false
	}
	f := strings.Split(mid, " ")
	if len(f) != 2 || !isInt(f[0]) || !isInt(f[1]) {
		return 0, 0, false
	}
	left, _ = strconv.Atoi(f[0])
	right, _ = strconv.Atoi(f[1])
	return left, right, true
}

// part takes the lines up to the next heading (or the end) away.
func part(lines []string, heading string) (body, rest []string, err error) {
	if len(lines) == 0 || lines[0] != heading {
		return nil, nil, fmt.Errorf("%q instead of the heading %q", lines, heading)
	}
	lines = lines[1:]
	for i, l := range lines {
		if strings.HasPrefix(l, "===") {
			return lines[:i], lines[i:], nil
		}
	}
	return lines, nil, nil
}

func check(c caseT, st *pbt.Stats) error {
	w := c.W
	// a line of the output is then a line of the texts
	odd := func(s pbt.Str) bool {
		return strings.ContainsAny(string(s), "\n\r") || strings.HasPrefix(string(s), "===")
	}
	for _, p := range w.POS {
		for _, x := range p {
			if odd(x) {
				return nil
			}
		}
	}
	for _, d := range append([]world.Dict{w.Sys}, w.Users...) {
		for i := range d.Rows {
			if odd(d.Rows[i].Surface) {
				return nil
			}
		}
	}
	in := &seen{}
	var before, after []node
	first := &world.Capture{Fn: func(_ *gosudachi.InputText, p *[]*gosudachi.LatticeNode, _ *gosudachi.Lattice) error {
		before = noted(*p)
		return nil
	}}
	last := &world.Capture{Fn: func(_ *gosudachi.InputText, p *[]*gosudachi.LatticeNode, _ *gosudachi.Lattice) error {
		after = noted(*p)
		return nil
	}}
	e, err := w.Setup(world.OpenOpt{PathFirst: []gosudachi.PathRewritePlugin{first}, PathLast: []gosudachi.PathRewritePlugin{last}, InputLast: []gosudachi.InputTextPlugin{in}})
	if err != nil {
		return err
	}
	defer e.Close()
	for _, k := range c.Calls {
		if k.Text == "" {
			continue
		}
		k.Text = pbt.Str(k.Blow.Apply(string(k.Text)))
		var out bytes.Buffer
		e.Tok.DumpOutput = &out
		st.ClassIf(len(k.Text) > 1000, "text of more than 1000 bytes")
		before, after = nil, nil
		ms, err := e.Tok.Tokenize(k.Mode, string(k.Text))
		if odd(pbt.Str(in.text)) {
			continue
		}
		fail := func(err error) error {
			return fmt.Errorf("%q (rewritten %q), mode %s: diagnostic output:\n%s%v", string(k.Text), in.text, k.Mode, out.String(), err)
		}
		if !strings.HasSuffix(out.String(), "\n") {
			return fail(fmt.Errorf("it does not end with a line end"))
		}
		lines := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
		body, rest, perr := part(lines, "=== Input dump")
		if perr != nil || len(body) != 1 || body[0] != in.text {
			return fail(fmt.Errorf("the rewritten text is not shown: %v", perr))
		}
		l := model.NewLattice(w, in.text)
		if l.Stuck >= 0 {
			st.Class("no candidate at a reached position")
			if len(rest) > 0 {
				return fail(fmt.Errorf("more is shown although there is no candidate at %d", l.Stuck))
			}
			continue
		}
		if body, rest, perr = part(rest, "=== Lattice dump"); perr != nil {
			return fail(perr)
		}
		if perr := checkLattice(w, l, body); perr != nil {
			return fail(perr)
		}
		n := len(body) - 2
		best, ok := l.Best()
		if !ok {
			st.Class("no allowed segmentation")
			if len(rest) > 0 {
				return fail(fmt.Errorf("a path is shown although there is none"))
			}
			continue
		}
		if err != nil {
			return fail(fmt.Errorf("error %v", err))
		}
		if body, rest, perr = part(rest, "=== Before rewriting:"); perr != nil {
			return fail(perr)
		}
		if body, perr = numbered(body); perr != nil || len(body) != len(before) {
			return fail(fmt.Errorf("before rewriting: the path has %d nodes; %v", len(before), perr))
		}
		total, right := 0, 0
		for i, s := range body {
			l2, r2, ok := describes(s, before[i])
			if !ok {
				return fail(fmt.Errorf("before rewriting: line %d does not describe the node %+v", i, before[i]))
			}
			k, _ := l.Connect(right, l2)
			total += k + before[i].cost
			right = r2
		}
		kost, _ := l.Connect(right, 0)
		if total+kost != best {
			return fail(fmt.Errorf("the path shown costs %d, the best %d", total+kost, best))
		}
		if n > len(body) && len(body) > 1 {
			st.NonTrivial()
		}
		if body, rest, perr = part(rest, "=== After rewriting:"); perr != nil {
			return fail(perr)
		}
		if body, perr = numbered(body); perr != nil || len(body) != ms.Length() {
			return fail(fmt.Errorf("after rewriting: there are %d morphemes; %v", ms.Length(), perr))
		}
		at := 0
		for i, s := range body {
			m := ms.Get(i)
			wi := m.GetWordInfo()
			var b, end int
			if _, err := fmt.Sscanf(s, "%d %d", &b, &end); err != nil || b != at || end < b {
				return fail(fmt.Errorf("after rewriting: line %d does not begin at %d", i, at))
			}
			at = end
			if _, ok := without(s, fmt.Sprintf("%d %d %s(%d) %d ", b, end, wi.Surface, int32(uint32(m.GetWordId())), wi.PosId), ""); !ok {
				return fail(fmt.Errorf("after rewriting: line %d does not describe morpheme %d (%q, word %#x, part of speech %d)", i, i, wi.Surface, m.GetWordId(), wi.PosId))
			}
			if k.Mode == "C" {
				if _, _, ok := describes(s, after[i]); !ok {
					return fail(fmt.Errorf("after rewriting: line %d does not describe the node %+v", i, after[i]))
				}
			}
		}
		if at != len(in.text) {
			return fail(fmt.Errorf("after rewriting: the path ends at %d", at))
		}
		st.ClassIf(len(after) != len(before), "the path is rewritten")
		st.ClassIf(ms.Length() != len(after), "morphemes are split")
		if len(rest) != 1 || rest[0] != "===" {
			return fail(fmt.Errorf("no final line ===: %q", rest))
		}
	}
	return nil
}

func main() {
	const rule = "a text with more candidates than needed is analysed into at least two words"
	pbt.Main("C28",
		pbt.S("plain", 5000, 300000, rule, gen(0, false), check),
		pbt.S("numbers", 2500, 150000, rule, gen(1, true), check),
		pbt.S("katakana", 2500, 150000, rule, gen(2, true), check),
		pbt.S("natural", 2500, 150000, rule, gen(world.ProfileNatural, true), check),
	)
}
