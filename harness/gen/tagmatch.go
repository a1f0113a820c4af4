package gen

import (
	"bytes"
	"fmt"

	"github.com/nareix/joy5/av"

	"joyverif/ref"
)

// TagMatches compares a written tag with the packet it stands for.
func TagMatches(p Pkt, tag ref.FLVTag, pub bool) string {
	ms := uint32(p.P.Time.Milliseconds())
	if tag.Stream != 0 {
		return fmt.Sprintf("stream id %d", tag.Stream)
	}
	if tag.Time != ms {
		return fmt.Sprintf("timestamp %d, want %d", tag.Time, ms)
	}
	b := tag.Body
	switch p.P.Type {
	case av.AAC, av.AACDecoderConfig:
		pt := byte(1)
		if p.P.Type == av.AACDecoderConfig {
			pt = 0
		}
		if tag.Type != 8 || len(b) < 2 || b[0]>>4 != 10 || b[1] != pt || !bytes.Equal(b[2:], p.P.Data) {
			return fmt.Sprintf("not an AAC tag of packet type %d with the payload", pt)
		}
		if b[0]>>2&3 != 3 {
			return fmt.Sprintf("AAC sound rate %d, the format requires 3", b[0]>>2&3)
		}
	case av.H264, av.H264DecoderConfig:
		pt := byte(1)
		if p.P.Type == av.H264DecoderConfig {
			pt = 0
		}
		if tag.Type != 9 || len(b) < 5 || b[0]&15 != 7 || b[1] != pt || !bytes.Equal(b[5:], p.P.Data) {
			return fmt.Sprintf("not an AVC tag of packet type %d with the payload", pt)
		}
		ct := int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8
		wantft := byte(2)
		if pt == 0 || p.P.IsKeyFrame {
			wantft = 1
		}
		wantct := int32(p.P.CTime.Milliseconds())
		if pt == 0 {
			wantct = 0
		}
		if b[0]>>4 != wantft || ct != wantct {
			return fmt.Sprintf("frame type %d offset %d, want %d %d", b[0]>>4, ct, wantft, wantct)
		}
	case av.Metadata:
		if tag.Type != 18 {
			return fmt.Sprintf("metadata in tag type %d", tag.Type)
		}
		vs, err := ref.ParseAMF0All(b)
		if err != nil {
			return fmt.Sprintf("script tag does not decode: %v", err)
		}
		pre := []interface{}{"onMetaData"}
		if pub {
			pre = []interface{}{"@setDataFrame", "onMetaData"}
		}
		all := append(pre, p.Meta...)
		if len(vs) != len(all) {
			return fmt.Sprintf("script tag of %d values, want %d", len(vs), len(all))
		}
		for i := range all {
			if s := Same(Normal(all[i]), ToLib(vs[i])); s != "" {
				return "script tag: " + s
			}
		}
	}
	return ""
}
