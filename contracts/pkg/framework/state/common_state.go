package state

import (
	"encoding/binary"
	"io"
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

func invManager(m *Manager) bool {
	return m.registry != nil && param.VCInvRegistry(m.registry) && param.VCInvValues(m.registry) && len(param.VCOrder(m.registry)) < 1<<31
}

// sink is a writer over a fixed buffer, n bytes of which are written.
type sink struct {
	b []byte
	n int
}

func (s *sink) Write(p []byte) (int, error) {
	if len(p) > len(s.b)-s.n {
		return 0, io.ErrShortWrite
	}
	copy(s.b[s.n:s.n+len(p)], p)
	s.n += len(p)
	return len(p), nil
}

// source is a reader over fixed bytes. It knows whose state they hold.
type source struct {
	b  []byte
	at int
	of *Manager
}

func (s *source) Read(p []byte) (int, error) {
	if s.at >= len(s.b) {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(s.b)-s.at {
		n = len(s.b) - s.at
		copy(p[:n], s.b[s.at:])
	} else {
		copy(p, s.b[s.at:s.at+n])
	}
	s.at += n
	return n, nil
}

func invSource(s *source) bool { return s.at >= 0 && s.at <= len(s.b) }

func le32(b []byte, at int) uint32 { return binary.LittleEndian.Uint32(b[at:]) }
func le64(b []byte, at int) uint64 { return binary.LittleEndian.Uint64(b[at:]) }

// headed: b begins with the header of m's state.
func headed(b []byte, m *Manager) bool {
	return len(b) >= 14 && string(b[:6]) == "VST3GO" && le32(b, 6) == m.version && le32(b, 10) == uint32(len(param.VCOrder(m.registry)))
}

// records: b holds the first n parameters of m at their places.
func records(b []byte, m *Manager, n int) bool {
	return len(b) >= 14+12*n && vc.Forall(0, n, func(i int) bool { return record(b, m, i) })
}

func record(b []byte, m *Manager, i int) bool {
	id := param.VCOrder(m.registry)[i]
	return le32(b, 14+12*i) == id && le64(b, 18+12*i) == math.Float64bits(param.VCParams(m.registry)[id].GetValue())
}

//vc:loop state.Manager.Save
func loopSaveAt(m *Manager, w io.Writer, it int) bool { return w.(*sink).n == 14+12*it }

//vc:loop state.Manager.Save
func loopSaveHead(m *Manager, w io.Writer) bool { return headed(w.(*sink).b, m) }

//vc:loop state.Manager.Save
func loopSaveRecords(m *Manager, w io.Writer, it int) bool { return records(w.(*sink).b, m, it) }

//vc:loop io.ReadAtLeast
func loopRead(r io.Reader, buf []byte, min int, phi int) bool {
	s := r.(*source)
	return phi >= 0 && phi <= len(buf) && s.at == vc.Pre(func() int { return s.at })+phi && s.at <= len(s.b) &&
		vc.Forall(0, phi, func(i int) bool { return buf[i] == s.b[s.at-phi+i] })
}

func gen_Manager(g *vc.G) *Manager { return NewManager(param.VCGenRegistry(g)) }

func gen_Save_buf(g *vc.G) []byte { return make([]byte, 512) }

func gen_RoundTrip_buf(g *vc.G) []byte { return make([]byte, 512) }
