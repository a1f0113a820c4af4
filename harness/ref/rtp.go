package ref

import "encoding/binary"

// RTPOpt is the header of an RTP packet (RFC 3550).
type RTPOpt struct {
	PT     int
	Seq    uint16
	TS     uint32
	SSRC   uint32
	Marker bool
	CSRC   int
	Ext    int // words of the header extension; -1 none
	Pad    int // bytes of padding, 0 none
}

// RTP encodes an RTP packet.
func RTP(o RTPOpt, payload []byte) []byte {
	b := make([]byte, 12, 12+len(payload))
	b[0] = 0x80 | byte(o.CSRC)
	b[1] = byte(o.PT)
	if o.Marker {
		b[1] |= 0x80
	}
	binary.BigEndian.PutUint16(b[2:], o.Seq)
	binary.BigEndian.PutUint32(b[4:], o.TS)
	binary.BigEndian.PutUint32(b[8:], o.SSRC)
	for i := 0; i < o.CSRC; i++ {
		b = binary.BigEndian.AppendUint32(b, o.SSRC+uint32(i)*77)
	}
	if o.Ext >= 0 {
		b[0] |= 0x10
		b = append(b, 0xbe, 0xde, byte(o.Ext>>8), byte(o.Ext))
		for i := 0; i < o.Ext; i++ {
			b = append(b, 0x24, byte(i), 'R', 0)
		}
	}
	b = append(b, payload...)
	if o.Pad > 0 {
		b[0] |= 0x20
		for i := 1; i < o.Pad; i++ {
			b = append(b, 0)
		}
		b = append(b, byte(o.Pad))
	}
	return b
}

// Block wraps data of a channel for an RTSP connection (RFC 2326, 10.12).
func Block(channel int, data []byte) []byte {
	return append([]byte{'$', byte(channel), byte(len(data) >> 8), byte(len(data))}, data...)
}

// FUA splits a NAL unit into fragmentation units; sizes are the payload bytes
// of each but the last (RFC 6184, 5.8).
func FUA(nal []byte, sizes []int) (out [][]byte) {
	rest := nal[1:]
	for i := 0; i <= len(sizes); i++ {
		n := len(rest)
		if i < len(sizes) {
			n = sizes[i]
		}
		h := nal[0] & 0x1f
		if i == 0 {
			h |= 0x80
		}
		if i == len(sizes) {
			h |= 0x40
		}
		out = append(out, append([]byte{nal[0]&0xe0 | 28, h}, rest[:n]...))
		rest = rest[n:]
	}
	return
}

// STAPA aggregates NAL units (RFC 6184, 5.7.1).
func STAPA(nals [][]byte) []byte {
	b := []byte{24}
	for _, n := range nals {
		if n[0]&0x60 > b[0]&0x60 {
			b[0] = n[0]&0x60 | 24
		}
	}
	for _, n := range nals {
		b = append(b, byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	return b
}

// AACPayload makes an MPEG4-GENERIC payload with the given access unit sizes
// announced in its headers (RFC 3640, 3.2).
func AACPayload(sizeLen, indexLen int, sizes []int, data ...[]byte) []byte {
	w := &BitBuf{}
	for _, s := range sizes {
		w.U(uint64(s), sizeLen)
		w.U(0, indexLen)
	}
	bits := len(sizes) * (sizeLen + indexLen)
	for i := bits; i%8 != 0; i++ {
		w.U(0, 1)
	}
	b := append([]byte{byte(bits >> 8), byte(bits)}, w.Bytes()...)
	for _, d := range data {
		b = append(b, d...)
	}
	return b
}
