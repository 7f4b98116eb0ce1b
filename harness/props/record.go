package props

import (
	"bytes"
	"fmt"
	"strings"

	bin "github.com/gagliardetto/binary"

	"vmon/core"
	"vmon/tm"
)

// refBytes is the documented rendering of a byte string.
func refBytes(b []byte) string {
	var s []string
	for _, x := range b {
		s = append(s, fmt.Sprint(int(x)))
	}
	return "{" + strings.Join(s, ", ") + "}"
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

func init() {
	reg(&core.Prop{ID: "C36", Rule: "Histories of raw writes, primitive writes, whole encodings, reports and reuse of the written buffers on recording writers; distinct by the list of writes.",
		Need: map[string]int64{"histories": 3000, "writes": 30000, "encodings": 3000, "reports": 3000, "swept": 640}, Run: func(c *core.Ctx) {
			c.Run("recorder", c.Scaled(6000), func(k *core.Case) {
				name := []string{"", "w", "a name:\n", "ключ", "100%", "%s%d%v", "%!", "- 0: {}", "\x00\xff"}[k.N(9)]
				if k.P(25) {
					name = string(k.Bytes(k.N(40)))
				}
				rec := bin.NewWriteByWrite(name)
				var want [][]byte
				var all []byte
				var log []string
				k.Count("histories", 1)
				check := func() {
					k.Eval(3)
					k.Count("reports", 1)
					k.Detail(map[string]interface{}{"history": log})
					got := rec.Bytes()
					if !bytes.Equal(got, all) {
						k.Fail("recorded %s, want %s", core.Hex(got), core.Hex(all))
					}
					for j := range got { // what is returned is the caller's
						got[j] ^= 0xff
					}
					_ = append(got, 1, 2, 3)
					var sb strings.Builder
					if name != "" {
						sb.WriteString(name + ":\n")
					}
					for i, w := range want {
						fmt.Fprintf(&sb, "- %d: %s(len=%d)\n", i, refBytes(w), len(w))
					}
					if s := rec.String(); s != sb.String() {
						k.Fail("the report is %q, want %q", s, sb.String())
					}
				}
				// the encoder's writes pass through tee, which logs them
				enc := newEncoder(tm.Encs[k.N(3)], writerFunc(func(p []byte) (int, error) {
					cp := append([]byte(nil), p...)
					want, all = append(want, cp), append(all, cp...)
					k.Count("writes", 1)
					n, err := rec.Write(p)
					if n != len(cp) || err != nil {
						k.Fail("writing %d bytes gave %d, %v", len(cp), n, err)
					}
					return n, err
				}))
				n := 1 + k.N(12)
				if k.P(5) {
					n = 60 + k.N(200)
					if k.P(2) {
						n += 1000
					}
				}
				for ; n > 0; n-- {
					switch k.N(6) {
					case 0, 1: // raw write from a buffer that is reused at once
						b := k.Bytes([]int{0, 1, k.N(20), k.N(300), k.N(msgLen(k) + 1)}[k.N(5)])
						if len(want) > 0 && k.P(15) { // the same again
							b = append([]byte(nil), want[len(want)-1]...)
						}
						cp := append([]byte(nil), b...)
						m, err := rec.Write(b)
						if m != len(b) || err != nil {
							k.Fail("writing %d bytes gave %d, %v", len(b), m, err)
						}
						for j := range b {
							b[j] = 0xaa
						}
						want, all = append(want, cp), append(all, cp...)
						k.Count("writes", 1)
						log = append(log, "write "+core.Hex(cp))
					case 2, 3: // primitive writes
						x := k.Edge()
						var err error
						var b []byte
						switch k.N(4) {
						case 0:
							err, b = enc.WriteUint64(x, bin.LE), fixed(x, 8, false)
						case 1:
							err, b = enc.WriteUint32(uint32(x), bin.BE), fixed(x&0xffffffff, 4, true)
						case 2:
							err, b = enc.WriteByte(byte(x)), []byte{byte(x)}
						case 3:
							b = k.Bytes(1 + k.N(9))
							err = enc.WriteBytes(append([]byte(nil), b...), false)
						}
						if err != nil {
							k.Fail("a primitive write failed: %v", err)
						}
						log = append(log, "primitive "+core.Hex(b))
					case 4: // a whole encoding: its bytes, in whatever pieces
						e := tm.Encs[k.N(3)]
						cf := tm.Full(e)
						cf.BigLens, cf.BigMax = k.P(8), 20000
						g := tm.NewGen(k.Rng, cf)
						t := tm.Of(g.Type(2))
						v := g.Value(t)
						if e != tm.Borsh && multiMap(t, v) {
							continue
						}
						b, err := marshal(e, iface(k, v))
						if err != nil {
							continue
						}
						r2 := bin.NewWriteByWrite(name)
						if err := newEncoder(e, r2).Encode(iface(k, v)); err != nil {
							k.Fail("encoding into a recorder failed: %v", err)
						}
						k.Count("encodings", 1)
						k.Eval(1)
						if !bytes.Equal(r2.Bytes(), b) {
							k.Fail("a recorder holds %s of the encoding %s", core.Hex(r2.Bytes()), core.Hex(b))
						}
						log = append(log, "encoding "+core.Hex(b))
					case 5:
						check()
						log = append(log, "report")
					}
				}
				check()
				k.Seen(fmt.Sprint(want))
				// a second recorder is independent
				if o := bin.NewWriteByWrite(name); len(o.Bytes()) != 0 {
					k.Fail("a new recorder already holds %x", o.Bytes())
				}
			})
			// very many writes, judged at the end
			c.Run("many", c.Scaled(12), func(k *core.Case) {
				rec := bin.NewWriteByWrite("many")
				var all []byte
				var last []byte
				var sb strings.Builder
				sb.WriteString("many:\n")
				n := []int{300, 1100, 2100, 4200, 9000}[k.I%5] + k.N(60)
				for i := 0; i < n; i++ {
					b := k.Bytes([]int{0, 1, 1, 1, 2, 8, k.N(40)}[k.N(7)])
					if k.P(10) {
						b = append([]byte(nil), last...)
					}
					last = append([]byte(nil), b...)
					m, err := rec.Write(b)
					if m != len(b) || err != nil {
						k.Fail("write %d of %d bytes gave %d, %v", i, len(b), m, err)
					}
					fmt.Fprintf(&sb, "- %d: %s(len=%d)\n", i, refBytes(b), len(b))
					all = append(all, b...)
				}
				k.Eval(2)
				k.Count("writes", int64(n))
				k.Count("long_recordings", 1)
				k.Seen("many", n, all)
				k.Detail(map[string]interface{}{"writes": n, "bytes": core.Hex(all)})
				if !bytes.Equal(rec.Bytes(), all) {
					k.Fail("after %d writes the recorder holds %s, want %s", n, core.Hex(rec.Bytes()), core.Hex(all))
				}
				if s := rec.String(); s != sb.String() {
					k.Fail("the report of %d writes differs at offset %d", n, firstDiff([]byte(s), []byte(sb.String())))
				}
			})
			// every number of writes, and writes of every size
			c.Run("sweep", 640, func(k *core.Case) {
				rec := bin.NewWriteByWrite("s")
				var all []byte
				var sb strings.Builder
				sb.WriteString("s:\n")
				n, size := k.I, 0
				if k.I >= 320 {
					n = 1 + k.N(4)
				}
				for i := 0; i < n; i++ {
					if size = k.N(4); k.I >= 320 {
						size = (k.I-320)*4 + i
					}
					b := k.Bytes(size)
					m, err := rec.Write(b)
					if m != len(b) || err != nil {
						k.Fail("write %d of %d bytes gave %d, %v", i, len(b), m, err)
					}
					fmt.Fprintf(&sb, "- %d: %s(len=%d)\n", i, refBytes(b), len(b))
					all = append(all, b...)
				}
				k.Eval(2)
				k.Count("writes", int64(n))
				k.Count("swept", 1)
				k.Seen("sweep", n, all)
				k.Detail(map[string]interface{}{"writes": n, "bytes": core.Hex(all)})
				if !bytes.Equal(rec.Bytes(), all) {
					k.Fail("after %d writes the recorder holds %s, want %s", n, core.Hex(rec.Bytes()), core.Hex(all))
				}
				if s := rec.String(); s != sb.String() {
					k.Fail("the report of %d writes differs at offset %d", n, firstDiff([]byte(s), []byte(sb.String())))
				}
			})
			c.Run("format", c.Scaled(4000), func(k *core.Case) {
				b := k.Bytes([]int{0, 1, k.N(20), k.N(400)}[k.N(4)])
				if k.I < 1100 {
					b = k.Bytes(k.I)
				}
				if k.I == 1100 {
					b = make([]byte, 256)
					for i := range b {
						b[i] = byte(i)
					}
				}
				k.Detail(map[string]interface{}{"bytes": core.Hex(b)})
				k.Eval(2)
				k.Seen("f", b)
				cp := append([]byte(nil), b...)
				if s, w := bin.FormatByteSlice(b), refBytes(b)+fmt.Sprintf("(len=%d)", len(b)); s != w {
					k.Fail("formatted as %s, want %s", s, w)
				}
				var d [8]byte
				copy(d[:], k.Bytes(8))
				if s := bin.FormatDiscriminator(d); s != refBytes(d[:]) {
					k.Fail("discriminator formatted as %s, want %s", s, refBytes(d[:]))
				}
				if !bytes.Equal(b, cp) {
					k.Fail("formatting changed the bytes")
				}
			})
		}})
}
