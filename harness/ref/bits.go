package ref

// BitBuf collects bits one by one, most significant first.
type BitBuf struct {
	Bits []byte
}

// U appends the low n bits of v.
func (b *BitBuf) U(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		b.Bits = append(b.Bits, byte(v>>uint(i))&1)
	}
}

// Flag appends one bit.
func (b *BitBuf) Flag(v bool) {
	if v {
		b.Bits = append(b.Bits, 1)
	} else {
		b.Bits = append(b.Bits, 0)
	}
}

// UE appends an unsigned Exp-Golomb code.
func (b *BitBuf) UE(v uint64) {
	v++
	n := 0
	for t := v; t > 1; t >>= 1 {
		n++
	}
	b.U(0, n)
	b.U(v, n+1)
}

// SE appends a signed Exp-Golomb code.
func (b *BitBuf) SE(v int64) {
	if v > 0 {
		b.UE(uint64(2*v - 1))
	} else {
		b.UE(uint64(-2 * v))
	}
}

// Raw appends whole bytes.
func (b *BitBuf) Raw(p []byte) {
	for _, c := range p {
		b.U(uint64(c), 8)
	}
}

// Bytes packs the bits, zero-padding the last byte.
func (b *BitBuf) Bytes() []byte {
	out := make([]byte, (len(b.Bits)+7)/8)
	for i, v := range b.Bits {
		out[i/8] |= v << uint(7-i%8)
	}
	return out
}
