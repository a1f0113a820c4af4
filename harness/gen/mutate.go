package gen

import (
	"fmt"

	"joyverif/vt"
)

// Mutate changes a byte string the way a hostile or broken producer would:
// flips, overwrites with interesting values, cuts, inserts, duplicates.
func Mutate(t *vt.T, in []byte, l string) []byte {
	b := append([]byte(nil), in...)
	n := t.Int(1, 5, l+"n")
	for i := 0; i < n && len(b) > 0; i++ {
		p := t.Int(0, len(b)-1, l+"pos")
		switch t.Int(0, 8, l+"op") {
		case 0:
			b[p] ^= 1 << uint(t.Int(0, 7, l+"bit"))
		case 1:
			b[p] = vt.Pick(t, l+"val", byte(0), 1, 2, 7, 8, 9, 0x0a, 0x0f, 0x10, 0x11, 0x7f, 0x80, 0xff)
		case 2:
			b[p] = t.Byte(l + "val")
		case 3: // forged 32-bit field
			v := vt.Pick(t, l+"v32", uint32(0), 1, 7, 8, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x10000000, 0x00ffffff)
			for k := 0; k < 4 && p+k < len(b); k++ {
				b[p+k] = byte(v >> (24 - 8*uint(k)))
			}
		case 4: // forged 16/24-bit field
			for k := 0; k < t.Int(2, 3, l+"w") && p+k < len(b); k++ {
				b[p+k] = 0xff
			}
		case 5:
			b = b[:p]
		case 6:
			q := p + t.Int(0, min(len(b)-p, 64), l+"del")
			b = append(b[:p], b[q:]...)
		case 7:
			ins := t.RawBytes(16, l+"ins")
			b = append(b[:p], append(ins, b[p:]...)...)
		case 8:
			q := p + t.Int(0, min(len(b)-p, 200), l+"dup")
			b = append(b[:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		}
	}
	return b
}

// Cuts gives the truncation points to try: all of them for short inputs,
// otherwise the neighbourhood of the given borders and some drawn ones.
func Cuts(t *vt.T, n int, borders []int, all int, l string) []int {
	if n <= all {
		c := make([]int, n+1)
		for i := range c {
			c[i] = i
		}
		return c
	}
	seen := map[int]bool{}
	var c []int
	add := func(x int) {
		if x >= 0 && x <= n && !seen[x] {
			seen[x] = true
			c = append(c, x)
		}
	}
	for k := 0; k < 20; k++ {
		add(t.Int(0, n, l))
	}
	for _, b := range borders {
		for d := -16; d <= 16; d++ {
			add(b + d)
		}
	}
	return c
}

func Hex(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}
