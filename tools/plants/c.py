P = [
dict(id="c14-alloc-before-bound", property="C14", pkg="codec",
 needs="a peer announcing a frame far above the receive limit", breaks="the receive buffer is grown to whatever length the peer announces before the announced length is compared with the limit",
 edits=[("codec/fixlen.go", """	size := c.headDecoder(c.headBuf)
""", """	size := c.headDecoder(c.headBuf)
	c.reserve(size)
"""), ("codec/fixlen.go", """	if cap(c.bodyBuf) < size {
		c.bodyBuf = make([]byte, size, size+128)
	}
	buff := c.bodyBuf[:size]
""", """	buff := c.bodyBuf[:size]
"""), ("codec/fixlen.go", "func (c *fixlenCodec) Send(", """// reserve makes room for size bytes in the receive buffer.
func (c *fixlenCodec) reserve(size int) {
	if size > cap(c.bodyBuf) {
		c.bodyBuf = make([]byte, size, size+128)
	}
}

func (c *fixlenCodec) Send(""")],
 test='''
package codec

import (
	"bytes"
	"encoding/binary"
	"runtime"
	"testing"
)

type demoConn struct{ *bytes.Buffer }

func TestDemoAlloc(t *testing.T) {
	var head [4]byte
	binary.BigEndian.PutUint32(head[:], 200<<20)
	c, err := FixLen(Byte(), 4, binary.BigEndian, 1024, 1024).NewCodec(demoConn{bytes.NewBuffer(head[:])})
	if err != nil {
		t.Fatal(err)
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if _, err := c.Receive(); err != ErrTooLargePacket {
		t.Fatal(err)
	}
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > 1<<20 {
		t.Fatal("allocated", d)
	}
}
'''),
dict(id="c18-nil-logger", property="C18", pkg="hsms", peer=True,
 needs="an application that resets the logger to nil", breaks="a nil logger is replaced by one that writes to standard error instead of the silent one",
 edits=[("hsms/protocol.go", """	if logger == nil {
		logger = common.NopLogger()
	}
	p.logger = logger
""", """	if logger == nil {
		logger = common.NewStdLogger(nil, p.name)
	}
	p.logger = logger
""")],
 test='''
package hsms

import (
	"io"
	"os"
	"testing"
	"time"
)

func TestDemoSilent(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stderr
	os.Stderr = w
	port := freePort(t)
	p := NewHsmsProtocol("127.0.0.1", port, false, 5, "eq")
	p.SetLogger(nil)
	p.Timeouts().SetLinktest(60)
	p.Enable()
	peer := dialPeer(t, port)
	time.Sleep(300 * time.Millisecond)
	peer.c.Close()
	p.Disable()
	time.Sleep(300 * time.Millisecond)
	os.Stderr = old
	w.Close()
	out, _ := io.ReadAll(r)
	if len(out) > 0 {
		t.Fatalf("written to standard error: %q", out)
	}
}
'''),
dict(id="c32-shared-send-lock", property="C32", pkg=".",
 needs="two goroutines sending on a session without a send queue at the same time", breaks="the frames of two senders can interleave inside the codec",
 edits=[("session.go", """		session.sendMutex.Lock()
		defer session.sendMutex.Unlock()

		err := session.codec.Send(msg)
""", """		session.sendMutex.RLock()
		defer session.sendMutex.RUnlock()

		err := session.codec.Send(msg)
""")],
 test='''
package link

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type demoCodec struct{ in, over int32 }

func (c *demoCodec) Receive() (interface{}, error) { select {} }
func (c *demoCodec) Close() error                  { return nil }
func (c *demoCodec) Send(interface{}) error {
	if atomic.AddInt32(&c.in, 1) > 1 {
		atomic.StoreInt32(&c.over, 1)
	}
	time.Sleep(5 * time.Millisecond)
	atomic.AddInt32(&c.in, -1)
	return nil
}

func TestDemoOverlap(t *testing.T) {
	c := &demoCodec{}
	s := NewSession(c, 0)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5; j++ {
				s.Send(j)
			}
		}()
	}
	wg.Wait()
	if atomic.LoadInt32(&c.over) != 0 {
		t.Fatal("two sends overlapped in the codec")
	}
}
'''),
]
