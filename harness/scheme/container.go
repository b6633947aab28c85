package scheme

import (
	"math/rand"
	"strings"
)

func vcontainer(r *rand.Rand) string {
	n := 10
	if r.Intn(8) == 0 {
		n = r.Intn(14)
	}
	b := make([]byte, n)
	for i := range b {
		if i < 4 && r.Intn(8) > 0 || r.Intn(8) == 0 {
			b[i] = byte('A' + r.Intn(26))
		} else {
			b[i] = byte('0' + r.Intn(10))
		}
	}
	if r.Intn(6) == 0 && n > 0 {
		b[r.Intn(n)] = "?-_ a\xff:@["[r.Intn(9)]
	}
	return string(b)
}

func vcdok(cn string) bool {
	return len(cn) == 10 && strings.Trim(cn, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") == ""
}

// vcd is ISO 6346's check digit: letters count 10 to 38, leaving out the
// multiples of 11, position k counts 2^k.
func vcd(cn string) int {
	val := map[byte]int{}
	n := 10
	for c := byte('A'); c <= 'Z'; c++ {
		for n%11 == 0 {
			n++
		}
		val[c] = n
		n++
	}
	sum := 0
	for k := 0; k < 10; k++ {
		x := int(cn[k] - '0')
		if cn[k] >= 'A' {
			x = val[cn[k]]
		}
		sum += x << uint(k)
	}
	return sum % 11 % 10
}
