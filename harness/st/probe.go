package st

import (
	"encoding/binary"
	"sync"
	"sync/atomic"

	bin "github.com/gagliardetto/binary"
)

// Probe reports every call to the log its token stands for, so that calls can be
// counted where the encoder or decoder is made inside the library.
type Probe struct {
	Token uint64
	Seq   uint32
}

var (
	probeLogs sync.Map // token -> *ProbeLog
	probeNext uint64
)

type ProbeLog struct {
	Token    uint64
	Enc, Dec []uint32
}

func NewProbeLog() *ProbeLog {
	l := &ProbeLog{Token: atomic.AddUint64(&probeNext, 1)}
	probeLogs.Store(l.Token, l)
	return l
}

func (l *ProbeLog) Close() { probeLogs.Delete(l.Token) }

func (p Probe) MarshalWithEncoder(e *bin.Encoder) error {
	if l, ok := probeLogs.Load(p.Token); ok {
		l := l.(*ProbeLog)
		l.Enc = append(l.Enc, p.Seq)
	}
	if err := e.WriteUint64(p.Token, binary.BigEndian); err != nil {
		return err
	}
	return e.WriteUint32(p.Seq, binary.BigEndian)
}

func (p *Probe) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	if p.Token, err = d.ReadUint64(binary.BigEndian); err != nil {
		return err
	}
	if p.Seq, err = d.ReadUint32(binary.BigEndian); err != nil {
		return err
	}
	if l, ok := probeLogs.Load(p.Token); ok {
		l := l.(*ProbeLog)
		l.Dec = append(l.Dec, p.Seq)
	}
	return nil
}
