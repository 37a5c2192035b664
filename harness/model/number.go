package model

import (
	"math/big"
	"strings"
)

// numerals are the digits and the powers of ten (negative) of the units.
var numerals = map[rune]int{
	'0': 0, '1': 1, '2': 2, '3': 3, '4': 4, '5': 5, '6': 6, '7': 7, '8': 8, '9': 9,
	'〇': 0, '一': 1, '二': 2, '三': 3, '四': 4, '五': 5, '六': 6, '七': 7, '八': 8, '九': 9,
	'十': -1, '百': -2, '千': -3, '万': -4, '億': -8, '兆': -12,
}

func pow10(n int) *big.Rat {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(n))), nil)
	r := new(big.Rat).SetInt(p)
	if n < 0 {
		r.Inv(r)
	}
	return r
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// quantity is a value and the power of ten of its last written digit.
type quantity struct {
	v   *big.Rat
	low int
}

func (q *quantity) add(x *quantity) (*quantity, bool) {
	if q == nil {
		return x, true
	}
	// the parts must not overlap
	if x.v.Cmp(pow10(q.low)) >= 0 {
		return nil, false
	}
	return &quantity{new(big.Rat).Add(q.v, x.v), x.low}, true
}

// digits reads digits with thousands commas and a decimal point.
func digits(s string) (*quantity, bool) {
	ip, fp, hasPoint := strings.Cut(s, ".")
	if ip == "" || hasPoint && fp == "" {
		return nil, false
	}
	if g := strings.Split(ip, ","); len(g) > 1 {
		for i, x := range g {
			n := len([]rune(x))
			if n > 3 || n == 0 || i > 0 && n != 3 {
				return nil, false
			}
		}
		if strings.Trim(g[0], "0〇") == "" { // thousands of nothing
			return nil, false
		}
	}
	v := new(big.Int)
	low := 0
	add := func(s string) bool {
		for _, r := range s {
			d, ok := numerals[r]
			if !ok || d < 0 {
				return false
			}
			v.Mul(v, big.NewInt(10))
			v.Add(v, big.NewInt(int64(d)))
		}
		return true
	}
	if !add(strings.ReplaceAll(ip, ",", "")) || !add(fp) {
		return nil, false
	}
	low = -len([]rune(fp))
	return &quantity{new(big.Rat).Mul(new(big.Rat).SetInt(v), pow10(low)), low}, true
}

// Number gives the value of a well-formed number: groups with a large unit in
// descending order, each a sum of multiples of small units in descending
// order, each multiple digits with thousands commas and a decimal point.
func Number(s string) (*big.Rat, bool) {
	var total, sub *quantity
	cur := ""
	var ok bool
	flush := func() bool { // digits without a unit
		if cur == "" {
			return true
		}
		q, ok := digits(cur)
		if !ok {
			return false
		}
		cur = ""
		sub, ok = sub.add(q)
		return ok
	}
	for _, r := range s {
		n, known := numerals[r]
		switch {
		case r == ',' || r == '.' || known && n >= 0:
			cur += string(r)
		case !known:
			return nil, false
		case n >= -3:
			q := &quantity{big.NewRat(1, 1), 0}
			if cur != "" {
				if q, ok = digits(cur); !ok {
					return nil, false
				}
			}
			cur = ""
			if sub, ok = sub.add(&quantity{new(big.Rat).Mul(q.v, pow10(-n)), q.low - n}); !ok {
				return nil, false
			}
		default:
			if !flush() || sub == nil {
				return nil, false
			}
			if total, ok = total.add(&quantity{new(big.Rat).Mul(sub.v, pow10(-n)), sub.low - n}); !ok {
				return nil, false
			}
			sub = nil
		}
	}
	if !flush() {
		return nil, false
	}
	if sub != nil {
		if total, ok = total.add(sub); !ok {
			return nil, false
		}
	}
	if total == nil {
		return nil, false
	}
	return total.v, true
}

// PlainDecimal reads plain digits with at most one point that is not followed
// by superfluous zeros.
func PlainDecimal(s string) (*big.Rat, bool) {
	ip, fp, hasPoint := strings.Cut(s, ".")
	if ip == "" || hasPoint && (fp == "" || strings.HasSuffix(fp, "0")) {
		return nil, false
	}
	for _, r := range ip + fp {
		if r < '0' || r > '9' {
			return nil, false
		}
	}
	v, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		return nil, false
	}
	return new(big.Rat).Mul(new(big.Rat).SetInt(v), pow10(-len(fp))), true
}
