package wire

import "strings"

var digBytes = [10]int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}

// DecimalLen is the storage size of DECIMAL(p,s).
func DecimalLen(p, s int) int {
	i := p - s
	return i/9*4 + digBytes[i%9] + s/9*4 + digBytes[s%9]
}

// EncodeDecimal packs a decimal given by exactly p-s integer digits and s
// fraction digits.
func EncodeDecimal(p, s int, neg bool, intDigits, fracDigits string) []byte {
	if len(intDigits) != p-s || len(fracDigits) != s {
		panic("EncodeDecimal: wrong digit counts")
	}
	var out []byte
	put := func(digits string) {
		var v uint64
		for _, c := range digits {
			v = v*10 + uint64(c-'0')
		}
		n := digBytes[len(digits)]
		for k := n - 1; k >= 0; k-- {
			out = append(out, byte(v>>(8*k)))
		}
	}
	lead := (p - s) % 9
	put(intDigits[:lead])
	for i := lead; i < len(intDigits); i += 9 {
		put(intDigits[i : i+9])
	}
	i := 0
	for ; i+9 <= s; i += 9 {
		put(fracDigits[i : i+9])
	}
	if i < s {
		put(fracDigits[i:])
	}
	if neg {
		for k := range out {
			out[k] ^= 0xff
		}
	}
	out[0] ^= 0x80
	return out
}

// DecimalText is the canonical text of the same value.
func DecimalText(neg bool, intDigits, fracDigits string) string {
	i := strings.TrimLeft(intDigits, "0")
	if i == "" {
		i = "0"
	}
	t := i
	if fracDigits != "" {
		t += "." + fracDigits
	}
	if neg {
		t = "-" + t
	}
	return t
}

// AllZero says whether every digit is zero.
func AllZero(parts ...string) bool {
	for _, p := range parts {
		if strings.Trim(p, "0") != "" {
			return false
		}
	}
	return true
}
