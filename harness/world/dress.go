package world

import (
	"strings"

	"pgregory.net/rapid"
)

// Dress is how the lines of a definition file are laid out.
type Dress struct {
	NL      int      `json:",omitempty"` // 0: LF, 1: CR LF, 2: both in turn
	NoFinal bool     `json:",omitempty"` // the last line does not end
	Pad     [][2]int `json:",omitempty"` // lines, and the lengths they get by spaces
}

// DrawDress draws a layout, mostly the plain one.
func DrawDress(t *rapid.T) Dress {
	var d Dress
	if !Chance(t, "dressed", 12) {
		return d
	}
	d.NL = rapid.IntRange(0, 2).Draw(t, "nl")
	d.NoFinal = rapid.Bool().Draw(t, "nofinal")
	for i := rapid.IntRange(0, 3).Draw(t, "npads"); i > 0; i-- {
		n := rapid.IntRange(4000, 9500).Draw(t, "pad")
		if rapid.Bool().Draw(t, "at the buffer") {
			n = rapid.IntRange(1, 2).Draw(t, "buffers")*4096 - rapid.IntRange(-3, 3).Draw(t, "delta")
		}
		if Chance(t, "very long", 10) {
			n += 65536
		}
		d.Pad = append(d.Pad, [2]int{rapid.IntRange(0, 30).Draw(t, "padded"), n})
	}
	return d
}

// Apply lays out a source whose lines end with LF and have fields separated by white space.
func (d *Dress) Apply(src string) string {
	if d.NL == 0 && !d.NoFinal && len(d.Pad) == 0 || src == "" {
		return src
	}
	lines := strings.Split(strings.TrimSuffix(src, "\n"), "\n")
	for _, p := range d.Pad {
		i := p[0] % len(lines)
		l := lines[i]
		if n := p[1] - len(l); n > 0 {
			switch k := strings.IndexByte(l, ' '); {
			case strings.HasPrefix(l, "#"):
				l += strings.Repeat("x", n)
			case k > 0 && p[0]%2 == 0:
				l = l[:k] + strings.Repeat(" ", n) + l[k:]
			default:
				l += strings.Repeat(" ", n)
			}
			lines[i] = l
		}
	}
	return d.join(lines)
}

func (d *Dress) join(lines []string) string {
	var b strings.Builder
	for i, l := range lines {
		b.WriteString(l)
		if d.NoFinal && i == len(lines)-1 && l != "" {
			break
		}
		if d.NL == 1 || d.NL == 2 && i%2 == 0 {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// Ends gives the lines of a source other endings only.
func (d *Dress) Ends(src string) string {
	if src == "" {
		return src
	}
	return d.join(strings.Split(strings.TrimSuffix(src, "\n"), "\n"))
}
