package readline

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"testing"
	"time"
)

// vConn is a connection whose input is fixed and whose output is collected
type vConn struct {
	net.Conn
	in  *bytes.Reader
	out bytes.Buffer
}

func (c *vConn) Read(p []byte) (int, error)  { return c.in.Read(p) }
func (c *vConn) Write(p []byte) (int, error) { return c.out.Write(p) }
func (c *vConn) Close() error                { return nil }

func vMsg(typ int16, data []byte) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, int32(len(data)+2))
	binary.Write(&b, binary.BigEndian, typ)
	b.Write(data)
	return b.Bytes()
}

func TestReplayC24(t *testing.T) {
	over := vDeadline(30 * time.Second)
	rnd := vRand()
	types := []int16{0, 1, 2, 3, 4, 5, 6, 7, 255, 256, -1, -2, 32767, -32768}
	payload := func(n int) []byte {
		d := make([]byte, n)
		for i := range d {
			d[i] = []byte{0, 1, 2, 255, 128, byte(rnd.Intn(256))}[rnd.Intn(6)]
		}
		return d
	}
	sizes := []int{0, 1, 2, 3, 4, 7, 8, 16, 100, 255, 256, 510, 511, 512, 4095, 4096, 4097, 65533, 65534, 65536, 70000}
	// messages
	for round := 0; round < 1500 && !over(); round++ {
		typ := types[rnd.Intn(len(types))]
		d := payload(sizes[rnd.Intn(len(sizes))])
		var w bytes.Buffer
		w.WriteString("before")
		desc := func() string { return fmt.Sprintf("message of type %d with %d bytes (%.20x)", typ, len(d), d) }
		if x := vGuard(desc, func() { NewMessage(MsgType(typ), d).WriteTo(&w) }); x != nil {
			vFound(t, "writing a %s panics: %v", desc(), x)
		}
		if !bytes.Equal(w.Bytes(), append([]byte("before"), vMsg(typ, d)...)) {
			vFound(t, "writing a %s puts %.40x (%d bytes) on the wire, want %.40x", desc(), w.Bytes()[6:], w.Len()-6, vMsg(typ, d))
		}
		r := bytes.NewReader(append(vMsg(typ, d), 7, 8, 9))
		var m *Message
		var err error
		if x := vGuard(desc, func() { m, err = ReadMessage(r) }); x != nil {
			vFound(t, "reading a %s panics: %v", desc(), x)
		}
		if err != nil || m == nil || m.Type != MsgType(typ) || !bytes.Equal(m.Data, d) || r.Len() != 3 {
			vFound(t, "reading back a %s gives %v, error %v, %d bytes left over, want 3", desc(), m, err, r.Len())
		}
		// truncated
		full := vMsg(typ, d)
		cut := rnd.Intn(len(full))
		if x := vGuard(desc, func() { m, err = ReadMessage(bytes.NewReader(full[:cut])) }); x != nil {
			vFound(t, "reading %d bytes of a %s panics: %v", cut, desc(), x)
		}
		if err == nil || m != nil {
			vFound(t, "reading only %d bytes of a %s is accepted: %v", cut, desc(), m)
		}
		// impossible lengths
		bad := append([]byte(nil), full...)
		for len(bad) < 64 {
			bad = append(bad, 0)
		}
		l := []int32{1, 0, -1, -2, -1 << 31, -100}[rnd.Intn(6)]
		binary.BigEndian.PutUint32(bad, uint32(l))
		if x := vGuard(desc, func() { m, err = ReadMessage(bytes.NewReader(bad)) }); x != nil {
			vFound(t, "reading a message of declared length %d panics: %v", l, x)
		}
		if err == nil {
			vFound(t, "a message of declared length %d is accepted: %v", l, m)
		}
	}
	// sessions
	for round := 0; round < 400 && !over(); round++ {
		var in []byte
		hist := ""
		add := func(typ int16, d []byte) {
			in = append(in, vMsg(typ, d)...)
			hist += fmt.Sprintf("type %d data %.20x(%d); ", typ, d, len(d))
		}
		tty, width, eof := false, -1, false
		report := func(typ int16, d []byte) {
			add(typ, d)
			if len(d) < 2 {
				return
			}
			v := int(d[0])<<8 | int(d[1])
			if typ == 3 {
				tty = v != 0
			} else {
				width = v
			}
		}
		small := func() []byte { return payload([]int{2, 2, 2, 2, 4, 3, 1, 0}[rnd.Intn(8)]) }
		report(3, small())
		report(2, small())
		var data []byte
		for k := rnd.Intn(8); k > 0; k-- {
			switch rnd.Intn(6) {
			case 0:
				report(3, small())
			case 1:
				report(2, small())
			case 2:
				add(types[7+rnd.Intn(len(types)-7)], payload(rnd.Intn(5)))
			case 3:
				if rnd.Intn(3) == 0 {
					add(6, nil)
					eof = true
				}
			default:
				d := payload(rnd.Intn(600))
				add(0, d)
				data = append(data, d...)
			}
		}
		c := &vConn{in: bytes.NewReader(in)}
		var rs *RemoteSvr
		var err error
		if x := vGuard(func() string { return hist }, func() {
			rs, err = NewRemoteSvr(c)
			if err == nil {
				select {
				case <-rs.stopChan:
				case <-time.After(2 * time.Second):
					vFound(t, "session %sis not ended 2 s after the end of the connection", hist)
				}
			}
		}); x != nil {
			vFound(t, "session %spanics: %v", hist, x)
		}
		if err != nil {
			vFound(t, "session %sis rejected: %v", hist, err)
		}
		if rs.IsTerminal() != tty || rs.GetWidth() != width {
			vFound(t, "session %sterminal %v width %d, want %v and %d", hist, rs.IsTerminal(), rs.GetWidth(), tty, width)
		}
		var got []byte
		for len(got) < len(data) {
			p := make([]byte, 1+rnd.Intn(300))
			n, err := 0, error(nil)
			if x := vGuard(func() string { return hist + "reading the data" }, func() { n, err = rs.Read(p) }); x != nil {
				vFound(t, "session %sRead panics: %v", hist, x)
			}
			got = append(got, p[:n]...)
			if err != nil || n == 0 {
				break
			}
		}
		if !bytes.Equal(got, data) {
			vFound(t, "session %s%d data bytes are read, want %d, equal prefix %v", hist, len(got), len(data), bytes.HasPrefix(data, got))
		}
		if eof {
			if n, err := rs.Read(make([]byte, 4)); n != 0 || err != io.EOF {
				vFound(t, "session %sRead after the end gives %d, %v", hist, n, err)
			}
		}
	}
	// client
	for round := 0; round < 300 && !over(); round++ {
		c := &vConn{in: bytes.NewReader(nil)}
		cli, _ := NewRemoteCli(c)
		is := rnd.Intn(2) == 0
		d := payload(rnd.Intn(1000))
		var n int
		if x := vGuard(func() string { return "client" }, func() {
			cli.MarkIsTerminal(is)
			cli.reportIsTerminal()
			n, _ = cli.Write(d)
			cli.Close()
		}); x != nil {
			vFound(t, "client writing %d bytes panics: %v", len(d), x)
		}
		rep := []byte{0, 0}
		if is {
			rep[1] = 1
		}
		want := append(append(vMsg(3, rep), vMsg(0, d)...), vMsg(6, nil)...)
		if n != len(d) || !bytes.Equal(c.out.Bytes(), want) {
			vFound(t, "client marked %v writing %d bytes: returns %d, sends %.60x, want %.60x", is, len(d), n, c.out.Bytes(), want)
		}
	}
}
