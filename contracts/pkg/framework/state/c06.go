package state

import (
	"github.com/justyntemme/vst3go/internal/vc"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

//vc:contract props=C06
func ctr_Save(m *Manager, buf []byte) {
	vc.Inv(invManager(m))
	vc.Requires(m.customSave == nil)
	n := len(param.VCOrder(m.registry))
	vc.Requires(len(buf) >= 18+12*n)
	w := &sink{b: buf}
	err := m.Save(w)
	vc.Ensures("saving succeeds", err == nil)
	vc.Ensures("the state begins with the format, version and count", headed(buf, m))
	vc.Ensures("every parameter is saved in order", records(buf, m, n))
	vc.Ensures("the state ends with the mark of absent custom data", w.n == 18+12*n && le32(buf, 14+12*n) == 0)
}
