// M02: message framing is exact under any chunking and hostile bytes.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
	"verif/harness/wm"
)

var errInjected = errors.New("injected failure")

// chunkReader hands out data in the given chunk sizes (cyclically), then
// fails with end.
type chunkReader struct {
	data    []byte
	sizes   []int
	i, used int
	end     error
	endWith bool // return the final error together with the last bytes
	block   chan struct{}
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.used == len(r.data) {
		if r.block != nil {
			<-r.block
		}
		return 0, r.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(r.sizes) > 0 {
		n = min(n, r.sizes[r.i%len(r.sizes)])
		r.i++
	}
	n = copy(p[:n], r.data[r.used:])
	r.used += n
	if r.used == len(r.data) && r.endWith {
		return n, r.end
	}
	return n, nil
}

func genChunks(t *rapid.T) []int {
	s := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 5, 7, 12, 16, 17, 33, 100}), 0, 5).Draw(t, "chunks")
	total := 0
	for _, n := range s {
		total += n
	}
	if total == 0 {
		return nil
	}
	return s
}

func genSeq(c *prop.C, most int) (ms []*wm.Msg, bs [][]byte, all []byte) {
	for i := rapid.IntRange(1, most).Draw(c.T, "messages"); i > 0; i-- {
		m := wm.Gen(c.T, rapid.SampledFrom(wm.Ops).Draw(c.T, "op"), 2)
		b := m.Encode()
		ms, bs, all = append(ms, m), append(bs, b), append(all, b...)
		c.Note("%s", m)
	}
	return ms, bs, all
}

func stream(c *prop.C) {
	ms, bs, all := genSeq(c, 4)
	cut := len(all)
	if rapid.Bool().Draw(c.T, "truncate") {
		cut = rapid.IntRange(0, len(all)-1).Draw(c.T, "cut")
	}
	r := &chunkReader{data: all[:cut], sizes: genChunks(c.T), end: io.EOF, endWith: rapid.Bool().Draw(c.T, "endWith")}
	if rapid.IntRange(0, 2).Draw(c.T, "fault") == 0 {
		r.end = errInjected
	}
	c.Note("cut at %d of %d, chunks %v, end %v", cut, len(all), r.sizes, r.end)
	c.NonTrivial(fmt.Sprint(all, cut, r.sizes, r.end))
	pos := 0
	for i, b := range bs {
		msg, err := mongowire.ReadMessage(context.Background(), r)
		if pos+len(b) > cut {
			c.Class("ends inside a message")
			if err == nil || msg != nil {
				c.Failf("message %d is cut at byte %d of %d but ReadMessage returned %v, %v", i, cut-pos, len(b), msg, err)
			}
			if r.end == errInjected && !errors.Is(err, errInjected) {
				c.Failf("message %d: reader failed, ReadMessage returned %v", i, err)
			}
			if pos < cut && errors.Is(err, io.EOF) {
				c.Failf("message %d is cut at byte %d of %d but ReadMessage reports a clean end of the stream", i, cut-pos, len(b))
			}
			return
		}
		if err != nil {
			c.Failf("message %d: %v", i, err)
		}
		pos += len(b)
		if r.used != pos {
			c.Failf("message %d: %d bytes were consumed, the messages so far have %d", i, r.used, pos)
		}
		want := ms[i].Parsed().Encode()
		if got := msg.Serialize(); !bytes.Equal(got, want) {
			c.Failf("message %d: %s", i, bm.Diff(got, want))
		}
		c.Class("whole message")
	}
	msg, err := mongowire.ReadMessage(context.Background(), r)
	if msg != nil || err == nil || !errors.Is(err, r.end) {
		c.Failf("at the end of the stream: %v, %v; want %v", msg, err, r.end)
	}
}

func cancelled(c *prop.C) {
	goroutines := runtime.NumGoroutine()
	if rapid.IntRange(0, 2).Draw(c.T, "send") == 0 {
		cancelledSend(c)
	} else {
		cancelledRead(c)
	}
	c.Settled(goroutines, "a cancelled message")
}

// stalledWriter takes some bytes, a part at a time, and then no more.
type stalledWriter struct {
	limitWriter
	release chan struct{}
}

func (w *stalledWriter) Write(p []byte) (int, error) {
	if len(w.got) >= w.limit {
		<-w.release
		return 0, errInjected
	}
	n := min(len(p), max(1, w.step), w.limit-len(w.got))
	w.got = append(w.got, p[:n]...)
	return n, nil
}

func cancelledSend(c *prop.C) {
	m := wm.Gen(c.T, rapid.SampledFrom(wm.Ops).Draw(c.T, "op"), 2)
	msg := wm.Build(c.T, m)
	want := m.Encode()
	w := &stalledWriter{release: make(chan struct{})}
	defer close(w.release)
	w.limit, w.step = rapid.IntRange(0, len(want)-1).Draw(c.T, "limit"), rapid.SampledFrom([]int{1000, 1, 7}).Draw(c.T, "step")
	c.Note("cancelled, the writer stalls at %d of %d", w.limit, len(want))
	c.NonTrivial(fmt.Sprint(want, w.limit))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	time.AfterFunc(time.Duration(rapid.IntRange(0, 300).Draw(c.T, "us"))*time.Microsecond, cancel)
	if err := mongowire.SendMessage(ctx, msg, w); err == nil {
		c.Failf("cancelled while the writer is stalled, and no error")
	}
}

func cancelledRead(c *prop.C) {
	_, bs, all := genSeq(c, 2)
	cut := rapid.IntRange(0, len(all)-1).Draw(c.T, "cut")
	r := &chunkReader{data: all[:cut], sizes: genChunks(c.T), end: io.EOF, block: make(chan struct{})}
	defer close(r.block)
	early := rapid.Bool().Draw(c.T, "early")
	c.Note("cancelled %v, stream stalls at %d of %d", map[bool]string{true: "before the call", false: "during the call"}[early], cut, len(all))
	c.NonTrivial(fmt.Sprint(all, cut, early))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if early {
		cancel()
		if msg, err := mongowire.ReadMessage(ctx, r); msg != nil || !errors.Is(err, context.Canceled) {
			c.Failf("reading with a cancelled context: %v, %v", msg, err)
		}
		var w limitWriter
		if err := mongowire.SendMessage(ctx, wm.Build(c.T, wm.Gen(c.T, wm.Query, 1)), &w); !errors.Is(err, context.Canceled) {
			c.Failf("sending with a cancelled context: %v", err)
		}
		return
	}
	if cut >= len(bs[0]) {
		if _, err := mongowire.ReadMessage(ctx, r); err != nil {
			c.Failf("first message: %v", err)
		}
	}
	time.AfterFunc(time.Duration(rapid.IntRange(0, 300).Draw(c.T, "us"))*time.Microsecond, cancel)
	if msg, err := mongowire.ReadMessage(ctx, r); msg != nil || !errors.Is(err, context.Canceled) {
		c.Failf("cancelled while the stream is stalled: %v, %v", msg, err)
	}
}

// limitWriter takes at most step bytes per call and fails after limit.
type limitWriter struct {
	got         []byte
	step, limit int
	fail        bool
	stall       bool
}

func (w *limitWriter) Write(p []byte) (int, error) {
	n := len(p)
	if w.step > 0 {
		n = min(n, w.step)
	}
	if w.fail {
		n = min(n, w.limit-len(w.got))
	}
	w.got = append(w.got, p[:n]...)
	if w.fail && len(w.got) == w.limit {
		if w.stall {
			return n, nil
		}
		return n, errInjected
	}
	return n, nil
}

func send(c *prop.C) {
	m := wm.Gen(c.T, rapid.SampledFrom(wm.Ops).Draw(c.T, "op"), 2)
	steps := []int{0, 0, 1, 3, 16, 50}
	if len(m.Docs) > 0 && rapid.IntRange(0, 31).Draw(c.T, "large") == 0 {
		n := rapid.SampledFrom([]int{500, 4000, 5000, 20000, 70000}).Draw(c.T, "size")
		m.Docs[0] = append(m.Docs[0][:len(m.Docs[0]):len(m.Docs[0])], bm.F("large", bm.NString(strings.Repeat("x", n))))
		steps = []int{0, 100, 511, 4095, 4096, 4097, 5000, 32768, 65537}
		c.Class("large")
	}
	msg := wm.Build(c.T, m)
	want := m.Encode()
	c.Note("%s", m)
	w := &limitWriter{step: rapid.SampledFrom(steps).Draw(c.T, "step")}
	w.fail = rapid.Bool().Draw(c.T, "fail")
	if w.fail {
		w.limit = rapid.IntRange(0, len(want)-1).Draw(c.T, "limit")
		w.stall = rapid.Bool().Draw(c.T, "stall")
	}
	c.Note("writer takes %d at a time, fails %v after %d, stalls %v", w.step, w.fail, w.limit, w.stall)
	c.NonTrivial(fmt.Sprint(want, w))
	err := mongowire.SendMessage(context.Background(), msg, w)
	if w.fail {
		if err == nil || (!w.stall && !errors.Is(err, errInjected)) {
			c.Failf("writer failed after %d of %d bytes, SendMessage returned %v", w.limit, len(want), err)
		}
		want = want[:w.limit]
	} else if err != nil {
		c.Failf("SendMessage: %v", err)
	}
	if !bytes.Equal(w.got, want) {
		c.Failf("written bytes: %s", bm.Diff(w.got, want))
	}
}

// accepted uses a message that parsing accepted in every way.
func accepted(c *prop.C, msg mongowire.Message) {
	c.Class("accepted")
	var b []byte
	c.NoPanic("using an accepted message", func() {
		b = append(b, msg.Serialize()...)
		msg.HasResponse()
		if s := msg.Scope(); s != nil {
			_ = s.Validate()
		}
		mongowire.GetModel(msg)
		_, _ = shell.RequestMessageToDocument(msg)
		_, _ = shell.ResponseMessageToDocument(msg)
	})
	if h := msg.Header(); int(h.Size) != len(b) {
		c.Failf("header size %d, serialized %d bytes", h.Size, len(b))
	}
	var back mongowire.Message
	var err error
	c.NoPanic("reading the serialization of an accepted message", func() {
		back, err = mongowire.ReadMessage(context.Background(), bytes.NewReader(b))
	})
	if err != nil {
		c.Failf("the serialization %x of an accepted message is rejected: %v", b, err)
	}
	if got := back.Serialize(); !bytes.Equal(got, b) {
		c.Failf("serialization is not stable: %s", bm.Diff(got, b))
	}
}

func hostile(c *prop.C) {
	m := wm.Gen(c.T, rapid.SampledFrom(wm.Ops).Draw(c.T, "op"), 2)
	b := m.Encode()
	c.Note("%s", m)
	fixLen := rapid.IntRange(0, 3).Draw(c.T, "fixlen") != 0
	for i := rapid.IntRange(1, 3).Draw(c.T, "mutations"); i > 0; i-- {
		lo := 16
		if rapid.IntRange(0, 5).Draw(c.T, "header") == 0 || len(b) <= 16 {
			lo = 0
		}
		if len(b) == 0 {
			break
		}
		if lo >= len(b) {
			lo = 0
		}
		p := rapid.IntRange(lo, len(b)-1).Draw(c.T, "pos")
		switch rapid.IntRange(0, 6).Draw(c.T, "how") {
		case 0:
			b[p] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		case 1:
			b[p] = rapid.Byte().Draw(c.T, "byte")
		case 2:
			b = b[:p]
		case 3:
			b = append(b[:p], b[min(len(b), p+rapid.IntRange(1, 8).Draw(c.T, "drop")):]...)
		case 4:
			ins := rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(c.T, "ins")
			b = append(b[:p:p], append(ins, b[p:]...)...)
		case 5:
			if p+4 <= len(b) {
				v := rapid.OneOf(rapid.SampledFrom([]int32{-1, 0, 1, 4, 5, -2147483648, 2147483647, 1 << 28, int32(len(b)), int32(len(b) - p)}), rapid.Int32()).Draw(c.T, "len")
				binary.LittleEndian.PutUint32(b[p:], uint32(v))
			}
		case 6:
			if len(b) < 16 {
				break
			}
			binary.LittleEndian.PutUint32(b[12:], uint32(rapid.SampledFrom(append([]int32{0, 2003, 2012, -1}, wm.Ops...)).Draw(c.T, "opcode")))
		}
	}
	if fixLen && len(b) >= 4 {
		binary.LittleEndian.PutUint32(b, uint32(len(b)))
	}
	c.Note("bytes %x", b)
	try(c, b)
}

// verdict compares acceptance with the model's reading of the same bytes.
func verdict(c *prop.C, what string, b []byte, msg mongowire.Message, err error, framed bool) {
	size := int32(len(b))
	if framed {
		if len(b) >= 4 {
			size = int32(binary.LittleEndian.Uint32(b))
		}
		if len(b) < 16 || size < 16 || int64(size) > int64(len(b)) {
			if err == nil {
				c.Failf("%s accepted %d bytes that claim to be %d", what, len(b), size)
			}
			return
		}
	}
	m, exact, merr := wm.Decode(int32(binary.LittleEndian.Uint32(b[12:])), b[16:size])
	if merr != nil {
		if err == nil {
			c.Failf("%s accepted a malformed message: %x", what, b)
		}
		return
	}
	if !exact {
		c.Class("open to interpretation")
		return
	}
	if framed {
		m.Req, m.Resp = int32(binary.LittleEndian.Uint32(b[4:])), int32(binary.LittleEndian.Uint32(b[8:]))
	}
	c.Class("valid message")
	if err != nil {
		c.Failf("%s rejected a valid message: %v: %x", what, err, b)
	}
	if got, want := msg.Serialize(), m.Parsed().Encode(); !bytes.Equal(got, want) && arraysByIndex(m) {
		c.Failf("%s: %s", what, bm.Diff(got, want))
	}
}

// arraysByIndex reports whether all arrays carry their canonical keys.
func arraysByIndex(m *wm.Msg) bool {
	ok := true
	var walk func(fs []bm.Field)
	walk = func(fs []bm.Field) {
		for _, f := range fs {
			for i, k := range f.V.Kids {
				ok = ok && (f.V.T != bm.Array || k.K == fmt.Sprint(i))
			}
			walk(f.V.Kids)
		}
	}
	for _, d := range m.Docs {
		walk(d)
	}
	for _, s := range m.Sections {
		for _, d := range s.Docs {
			walk(d)
		}
	}
	return ok
}

func try(c *prop.C, b []byte) {
	c.NonTrivial(b)
	orig := append([]byte(nil), b...)
	var msg mongowire.Message
	var err error
	c.NoPanic("ReadMessage", func() { msg, err = mongowire.ReadMessage(context.Background(), bytes.NewReader(b)) })
	if (msg == nil) == (err == nil) {
		c.Failf("ReadMessage returned %v and %v", msg, err)
	}
	verdict(c, "ReadMessage", b, msg, err, true)
	if err == nil {
		accepted(c, msg)
	} else {
		c.Class("rejected")
	}
	if len(b) >= 16 {
		h := mongowire.MessageHeader{Size: int32(len(b)), OpCode: mongowire.OpType(binary.LittleEndian.Uint32(b[12:]))}
		var m2 mongowire.Message
		c.NoPanic("Parse", func() { m2, err = h.Parse(b[16:]) })
		verdict(c, "Parse", b, m2, err, false)
		if err == nil {
			accepted(c, m2)
		}
	}
	if !bytes.Equal(b, orig) {
		c.Failf("the input bytes were modified")
	}
}

func random(c *prop.C) {
	op := rapid.SampledFrom(wm.Ops).Draw(c.T, "op")
	body := rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), 0, 40),
		rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 0, 1, 5, 6, 2, 'a', 0xff, 0x80}), 0, 60),
	).Draw(c.T, "body")
	b := make([]byte, 16, 16+len(body))
	binary.LittleEndian.PutUint32(b, uint32(16+len(body)))
	binary.LittleEndian.PutUint32(b[12:], uint32(op))
	b = append(b, body...)
	c.Note("bytes %x", b)
	try(c, b)
}

// claims: a header may claim any length; memory follows what arrives.
func claims(c *prop.C) {
	size := rapid.OneOf(rapid.Int32(), rapid.Int32Range(-20, 40), rapid.SampledFrom([]int32{200 * 1024 * 1024, 200*1024*1024 + 1, 199 << 20, 2147483647, -2147483648, 542393671})).Draw(c.T, "size")
	b := binary.LittleEndian.AppendUint32(nil, uint32(size))
	b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "rest")...)
	c.Note("bytes %x", b)
	c.NonTrivial(b)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var msg mongowire.Message
	var err error
	c.NoPanic("ReadMessage", func() {
		msg, err = mongowire.ReadMessage(context.Background(), &chunkReader{data: b, sizes: genChunks(c.T), end: io.EOF})
	})
	runtime.ReadMemStats(&m1)
	if int64(size) > int64(len(b)) || size < 16 {
		if err == nil || msg != nil {
			c.Failf("length %d, %d bytes present: %v, %v", size, len(b), msg, err)
		}
	}
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 8<<20 {
		c.Failf("%d bytes of input made ReadMessage allocate %d", len(b), d)
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:          "M02",
		Rule:        "every case (a message sequence with its chunking and cut, a faulty writer, or a hostile byte string); distinct by its bytes and faults",
		Assumptions: []string{"readers follow the io.Reader contract and make progress in the end"},
		Subs: []prop.Sub{
			{Name: "stream", Quick: 100000, Thorough: 1000000, Shards: 2, Fn: stream, HangIsViolation: true},
			{Name: "cancelled", Quick: 15000, Thorough: 150000, Fn: cancelled, HangIsViolation: true},
			{Name: "send", Quick: 50000, Thorough: 500000, Fn: send, HangIsViolation: true},
			{Name: "hostile", Quick: 300000, Thorough: 4000000, Shards: 3, Fn: hostile, HangIsViolation: true},
			{Name: "random", Quick: 300000, Thorough: 4000000, Fn: random, HangIsViolation: true},
			{Name: "claims", Quick: 20000, Thorough: 200000, Fn: claims, HangIsViolation: true},
		},
	})
}
