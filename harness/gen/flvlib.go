package gen

import (
	"io"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
)

// SW turns a writer into the muxer's destination.
type SW struct{ io.Writer }

func (SW) Streams() ([]interface{}, error) { return nil, nil }

// MuxFLV writes packets with the library's muxer. If hdr is set the header is
// written explicitly first.
func MuxFLV(w io.Writer, ps []Pkt, video, audio, publishing, hdr bool) error {
	m := flv.NewMuxer(SW{w})
	m.HasVideo, m.HasAudio, m.Publishing = video, audio, publishing
	if hdr {
		if err := m.WriteFileHeader(); err != nil {
			return err
		}
	}
	for _, p := range ps {
		if err := m.WritePacket(p.P); err != nil {
			return err
		}
	}
	return nil
}

// ReadAll reads packets until an error.
func ReadAll(r av.PacketReader, max int) (ps []av.Packet, err error) {
	for len(ps) <= max {
		var p av.Packet
		if p, err = r.ReadPacket(); err != nil {
			return
		}
		ps = append(ps, p)
	}
	return
}
