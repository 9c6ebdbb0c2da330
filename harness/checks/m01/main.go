// M01: wire messages survive serialization and parsing.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"testing/iotest"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
	"verif/harness/wm"
)

func sameDoc(c *prop.C, what string, d *birch.Document, want []bm.Field) {
	if d == nil {
		c.Failf("%s: missing document", what)
	}
	got, err := bm.FromDocErr(d)
	if err != nil || !bm.FieldsEqual(got, want) {
		c.Failf("%s: %v: %s want %s", what, err, bm.Show(got), bm.Show(want))
	}
}

func sameDocs(c *prop.C, what string, ds []birch.Document, want [][]bm.Field) {
	if len(ds) != len(want) {
		c.Failf("%s: %d documents, want %d", what, len(ds), len(want))
	}
	for i := range ds {
		sameDoc(c, fmt.Sprintf("%s %d", what, i), &ds[i], want[i])
	}
}

// checkMsg compares a library message with the model.
func checkMsg(c *prop.C, what string, msg mongowire.Message, m *wm.Msg, upconverted bool) {
	want := m.Encode()
	got := msg.Serialize()
	if !bytes.Equal(got, want) {
		c.Failf("%s: serialized bytes: %s", what, bm.Diff(got, want))
	}
	if again := msg.Serialize(); !bytes.Equal(again, want) {
		c.Failf("%s: second serialization: %s", what, bm.Diff(again, want))
	}
	if h := msg.Header(); h != (mongowire.MessageHeader{Size: int32(len(want)), RequestID: m.Req, ResponseTo: m.Resp, OpCode: mongowire.OpType(m.Op)}) {
		c.Failf("%s: header %+v, message has %d bytes", what, h, len(want))
	}
	var scope *mongowire.OpScope
	switch m.Op {
	case wm.Reply, wm.CommandReply:
	case wm.Command:
		scope = &mongowire.OpScope{Context: m.NS, Command: m.Cmd}
	case wm.KillCursors:
		scope = &mongowire.OpScope{}
	case wm.OpMsg:
		scope = &mongowire.OpScope{}
		for _, s := range m.Sections {
			if s.Kind == 0 {
				if d := s.Docs[0]; len(d) > 0 {
					scope.Command = d[0].K
				}
				for _, f := range s.Docs[0] {
					if f.K == "$db" {
						if f.V.T == bm.String {
							scope.Context = f.V.S
						}
						break
					}
				}
				break
			}
		}
	default:
		scope = &mongowire.OpScope{Context: m.NS}
	}
	if scope != nil {
		scope.Type = mongowire.OpType(m.Op)
	}
	s := msg.Scope()
	if (s == nil) != (scope == nil) || (s != nil && *s != *scope) {
		c.Failf("%s: scope %+v want %+v", what, s, scope)
	}
	switch m.Op {
	case wm.Query, wm.GetMore, wm.Command:
		if !msg.HasResponse() {
			c.Failf("%s: the message does not have a response", what)
		}
	case wm.Update, wm.Insert, wm.Delete, wm.KillCursors, wm.Reply, wm.CommandReply:
		if msg.HasResponse() {
			c.Failf("%s: the message has a response", what)
		}
	}
	// the protocol-independent model
	md, op := mongowire.GetModel(msg)
	bad := func(f string, a ...any) { c.Failf("%s: model %+v: %s", what, md, fmt.Sprintf(f, a...)) }
	if md != nil && op != mongowire.OpType(m.Op) {
		bad("operation %v", op)
	}
	switch x := md.(type) {
	case *model.Command:
		if m.Op != wm.Command || x.DB != m.NS || x.Command != m.Cmd || x.ConvertedFromQuery != upconverted {
			bad("want %s", m)
		}
		sameDoc(c, "arguments", x.Arguments, m.Docs[0])
		sameDoc(c, "metadata", x.Metadata, m.Docs[1])
		sameDocs(c, "inputs", x.Inputs, m.Docs[2:])
	case *model.Message:
		if m.Op != wm.OpMsg || x.Checksum != (m.Flags&1 != 0) || x.MoreToCome != (m.Flags&2 != 0) || len(x.Items) != len(m.Sections) {
			bad("flags %#x, %d sections", m.Flags, len(m.Sections))
		}
		for i, s := range m.Sections {
			id := s.ID
			if s.Kind == 0 && len(s.Docs[0]) > 0 {
				id = s.Docs[0][0].K
			}
			if x.Items[i].Identifier != id {
				bad("section %d has identifier %q, want %q", i, x.Items[i].Identifier, id)
			}
			sameDocs(c, "section", x.Items[i].Documents, s.Docs)
		}
	case *model.Delete:
		if m.Op != wm.Delete || x.Namespace != m.NS {
			bad("want %s", m)
		}
		sameDoc(c, "filter", x.Filter, m.Docs[0])
	case *model.Insert:
		if m.Op != wm.Insert || x.Namespace != m.NS {
			bad("want %s", m)
		}
		sameDocs(c, "documents", x.Documents, m.Docs)
	case *model.Query:
		if m.Op != wm.Query || x.Namespace != m.NS || x.Skip != m.Skip || x.NReturn != m.NReturn {
			bad("want %s", m)
		}
		sameDoc(c, "query", x.Query, m.Docs[0])
		if m.NoProject {
			if x.Project != nil {
				bad("unexpected projection")
			}
		} else {
			sameDoc(c, "projection", x.Project, m.Docs[1])
		}
	case *model.Update:
		if m.Op != wm.Update || x.Namespace != m.NS || x.Upsert != (m.Flags&1 != 0) || x.Multi != (m.Flags&2 != 0) {
			bad("want %s", m)
		}
		sameDoc(c, "filter", x.Filter, m.Docs[0])
		sameDoc(c, "update", x.Update, m.Docs[1])
	case *model.Reply:
		if m.Op != wm.Reply || x.CursorID != m.Cursor || x.StartingFrom != m.Skip || x.CursorNotFound != (m.Flags&1 != 0) || x.QueryFailure != (m.Flags&2 != 0) {
			bad("want %s", m)
		}
		sameDocs(c, "contents", x.Contents, m.Docs)
	case *model.GetMore:
		if m.Op != wm.GetMore || x.Namespace != m.NS || x.CursorID != m.Cursor || x.NReturn != m.NReturn {
			bad("want %s", m)
		}
	case nil:
		if m.Op != wm.KillCursors && m.Op != wm.CommandReply {
			bad("no model for operation %d", m.Op)
		}
	default:
		bad("unknown type %T", md)
	}
	if b := msg.Serialize(); !bytes.Equal(b, want) {
		c.Failf("%s: serialization after reading the model: %s", what, bm.Diff(b, want))
	}
}

func parse(c *prop.C, b []byte) mongowire.Message {
	var msg mongowire.Message
	var err error
	if rapid.Bool().Draw(c.T, "stream") {
		msg, err = mongowire.ReadMessage(context.Background(), iotest.HalfReader(bytes.NewReader(b)))
	} else {
		h := mongowire.MessageHeader{Size: int32(len(b))}
		le := func(o int) int32 { return int32(b[o]) | int32(b[o+1])<<8 | int32(b[o+2])<<16 | int32(b[o+3])<<24 }
		h.RequestID, h.ResponseTo, h.OpCode = le(4), le(8), mongowire.OpType(le(12))
		msg, err = h.Parse(b[16:])
	}
	if err != nil {
		c.Failf("parsing a valid message: %v", err)
	}
	return msg
}

func classify(c *prop.C, m *wm.Msg) {
	c.Class(mongowire.OpType(m.Op).String())
	if m.IsLegacyCommand() {
		c.Class("legacy command")
	}
	n := len(m.Docs)
	for _, s := range m.Sections {
		n += len(s.Docs)
	}
	if n > 0 || len(m.IDs) > 0 || m.Op == wm.GetMore {
		c.NonTrivial(m.Encode())
	}
}

func build(c *prop.C) {
	m := wm.Gen(c.T, rapid.SampledFrom(wm.Ops).Draw(c.T, "op"), 3)
	msg := wm.Build(c.T, m)
	c.Note("%s", m)
	classify(c, m)
	want := m.Encode()
	if h := msg.Header(); h.RequestID != m.Req || h.ResponseTo != m.Resp || int32(h.OpCode) != m.Op {
		c.Failf("header before serialization %+v", h)
	}
	if got := msg.Serialize(); !bytes.Equal(got, want) {
		c.Failf("serialized: %s", bm.Diff(got, want))
	}
	checkMsg(c, "constructed", msg, m, false)
	back := parse(c, append([]byte(nil), want...))
	checkMsg(c, "parsed", back, m.Parsed(), m.IsLegacyCommand())
	again := parse(c, back.Serialize())
	checkMsg(c, "parsed again", again, m.Parsed(), false)
}

func raw(c *prop.C) {
	m := wm.Gen(c.T, rapid.SampledFrom(wm.Ops).Draw(c.T, "op"), 3)
	c.Note("%s", m)
	classify(c, m)
	b := m.Encode()
	c.Note("bytes %x", b)
	checkMsg(c, "parsed", parse(c, append([]byte(nil), b...)), m.Parsed(), m.IsLegacyCommand())
}

// shellHelpers: documents survive the trip as request or response.
func shellHelpers(c *prop.C) {
	fs := bm.GenDoc(c.T, bm.Opts{MaxDepth: 2})
	c.Note("doc %s", bm.Show(fs))
	t := rapid.SampledFrom([]mongowire.OpType{mongowire.OP_MSG, mongowire.OP_COMMAND, mongowire.OP_QUERY}).Draw(c.T, "type")
	c.NonTrivial(fmt.Sprint(t, bm.EncodeFields(fs)))
	switch rapid.IntRange(0, 5).Draw(c.T, "kind") {
	case 5:
		documentOf(c)
	case 3:
		writeResponse(c, t, fs)
	case 4:
		// whatever else is in it, a response is read by its two names
		for range rapid.IntRange(0, 3).Draw(c.T, "more") {
			i := rapid.IntRange(0, len(fs)).Draw(c.T, "at")
			v := bm.GenNode(c.T, bm.Opts{MaxDepth: 1}, 1)
			k := rapid.SampledFrom([]string{"ok", "errmsg", "okay", "err"}).Draw(c.T, "key")
			if rapid.IntRange(0, 2).Draw(c.T, "typed") > 0 {
				switch k {
				case "ok":
					v = &bm.Node{T: bm.Int32, U: uint64(uint32(rapid.Int32().Draw(c.T, "ok")))}
				case "errmsg":
					v = &bm.Node{T: bm.String, S: bm.Str().Draw(c.T, "errmsg")}
				}
			}
			fs = append(fs[:i:i], append([]bm.Field{{K: k, V: v}}, fs[i:]...)...)
		}
		c.Note("response %s", bm.Show(fs))
		want, bad := shell.ErrorResponse{}, false
		for _, f := range fs {
			switch {
			case bad:
			case f.K == "ok" && f.V.T == bm.Int32:
				want.OK = int(int32(f.V.U))
			case f.K == "ok" && f.V.T == bm.Int64:
				want.OK = int(int64(f.V.U))
			case f.K == "errmsg" && f.V.T == bm.String:
				want.ErrorMessage = f.V.S
			case f.K == "ok" || f.K == "errmsg":
				bad = true
			}
		}
		var got shell.ErrorResponse
		err := got.UnmarshalDocument(bm.RepDoc(c.T, fs))
		if bad != (err != nil) || !bad && got != want {
			c.Failf("%s reads as %+v (%v), want %+v, an error: %v", bm.Show(fs), got, err, want, bad)
		}
	case 0:
		msg, err := shell.ResponseToMessage(t, bm.RepDoc(c.T, fs))
		if err != nil {
			c.Failf("ResponseToMessage: %v", err)
		}
		resp := parse(c, msg.Serialize())
		if m, ok := resp.(*mongowire.OpMessage); ok && m.Flags != 0 {
			c.Failf("a response has the flags %b", m.Flags)
		}
		if m, ok := resp.(*mongowire.ReplyMessage); ok && (m.Flags != 0 || m.CursorId != 0 || m.StartingFrom != 0 || m.NumberReturned != 1) {
			c.Failf("a response reads as %+v", m)
		}
		d, err := shell.ResponseMessageToDocument(resp)
		if err != nil {
			c.Failf("ResponseMessageToDocument: %v", err)
		}
		sameDoc(c, "response", d, fs)
	case 1:
		if len(fs) == 0 && t != mongowire.OP_MSG {
			return
		}
		msg, err := shell.RequestToMessage(t, bm.RepDoc(c.T, fs))
		if err != nil {
			c.Failf("RequestToMessage: %v", err)
		}
		req := parse(c, msg.Serialize())
		d, err := shell.RequestMessageToDocument(req)
		if err != nil {
			c.Failf("RequestMessageToDocument: %v", err)
		}
		sameDoc(c, "request", d, fs)
		if m, ok := req.(*mongowire.OpMessage); ok && m.Flags != 0 {
			c.Failf("a request has the flags %b", m.Flags)
		}
		if len(fs) > 0 && req.Scope().Command != fs[0].K {
			c.Failf("request scope %+v", req.Scope())
		}
	case 2:
		var e error
		text := bm.Str().Draw(c.T, "text")
		ok := rapid.Bool().Draw(c.T, "ok")
		if text != "" {
			e = errors.New(text)
		}
		resp := shell.MakeErrorResponse(ok, e)
		doc, err := resp.MarshalDocument()
		if err != nil {
			c.Failf("MarshalDocument: %v", err)
		}
		msg, err := shell.ResponseToMessage(t, doc)
		if err != nil {
			c.Failf("ResponseToMessage: %v", err)
		}
		d, err := shell.ResponseMessageToDocument(parse(c, msg.Serialize()))
		if err != nil {
			c.Failf("ResponseMessageToDocument: %v", err)
		}
		var back shell.ErrorResponse
		if err := back.UnmarshalDocument(d); err != nil || back != resp {
			c.Failf("%+v reads back as %+v (%v)", resp, back, err)
		}
		if err := back.SuccessOrError(); (err == nil) != (ok && text == "") || (text != "" && err.Error() != text) {
			c.Failf("%+v gives error %v", back, err)
		}
	}
}

// documentOf reads the document out of messages of every kind and content.
func documentOf(c *prop.C) {
	t := c.T
	m := wm.Gen(t, rapid.SampledFrom(wm.Ops).Draw(t, "op"), 2)
	if m.Op == wm.OpMsg && len(m.Sections) > 1 && rapid.Bool().Draw(t, "sequence first") {
		i := rapid.IntRange(1, len(m.Sections)-1).Draw(t, "other")
		m.Sections[0], m.Sections[i] = m.Sections[i], m.Sections[0]
	}
	msg := wm.Build(t, m)
	c.Note("%s", m)
	var body []bm.Field
	has := false
	for _, s := range m.Sections {
		if m.Op == wm.OpMsg && s.Kind == 0 && len(s.Docs) > 0 && !has {
			body, has = s.Docs[0], true
		}
	}
	check := func(what string, d *birch.Document, err error, want []bm.Field, has bool) {
		if (err == nil) != has {
			c.Failf("the %s document of %s: %v, it has one: %v", what, m, err, has)
		}
		if has {
			sameDoc(c, what, d, want)
		}
	}
	req, reqHas := body, has
	if m.Op == wm.Command {
		req, reqHas = m.Docs[0], true
	}
	resp, respHas := body, has
	if m.Op == wm.Reply && len(m.Docs) > 0 || m.Op == wm.CommandReply {
		resp, respHas = m.Docs[0], true
	}
	d, err := shell.RequestMessageToDocument(msg)
	check("request", d, err, req, reqHas)
	d, err = shell.ResponseMessageToDocument(msg)
	check("response", d, err, resp, respHas)
}

// limited accepts so many bytes, a few at a time.
type limited struct {
	data        []byte
	step, limit int
	failed      bool
}

func (w *limited) Write(p []byte) (int, error) {
	n := min(len(p), w.step)
	if len(w.data)+n > w.limit {
		n = w.limit - len(w.data)
		w.data = append(w.data, p[:n]...)
		w.failed = true
		return n, errors.New("the writer is full")
	}
	w.data = append(w.data, p[:n]...)
	return n, nil
}

// writeResponse writes the responses that services send.
func writeResponse(c *prop.C, t mongowire.OpType, fs []bm.Field) {
	w := &limited{step: rapid.SampledFrom([]int{1 << 20, 1 << 20, 100, 7}).Draw(c.T, "step"), limit: 1 << 20}
	if rapid.IntRange(0, 3).Draw(c.T, "full") == 0 {
		w.limit = rapid.IntRange(0, 80).Draw(c.T, "limit")
	}
	text := bm.Str().Draw(c.T, "text")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	canceled := rapid.IntRange(0, 9).Draw(c.T, "canceled") == 0
	if canceled {
		cancel()
	}
	kind := rapid.SampledFrom([]string{"ok", "not ok", "error", "document"}).Draw(c.T, "response")
	c.Note("write %s %q, %d bytes at a time, at most %d, canceled: %v", kind, text, w.step, w.limit, canceled)
	var err error
	want := []bm.Field{{K: "ok", V: &bm.Node{T: bm.Int32}}, {K: "errmsg", V: &bm.Node{T: bm.String}}}
	switch kind {
	case "ok":
		err = shell.WriteOKResponse(ctx, w, t, "op")
		want[0].V.U = 1
	case "not ok":
		err = shell.WriteNotOKResponse(ctx, w, t, "op")
	case "error":
		err = shell.WriteErrorResponse(ctx, w, t, errors.New(text), "op")
		want[1].V.S = text
	case "document":
		msg, merr := shell.ResponseToMessage(t, bm.RepDoc(c.T, fs))
		if merr != nil {
			c.Failf("ResponseToMessage: %v", merr)
		}
		err = shell.WriteResponse(ctx, w, msg, "op")
		want = fs
	}
	if canceled {
		if err == nil || len(w.data) > 0 {
			c.Failf("%d bytes were written for a canceled request: %v", len(w.data), err)
		}
		return
	}
	if w.failed {
		if err == nil {
			c.Failf("writing to a full writer: no error")
		}
		return
	}
	if err != nil {
		c.Failf("writing: %v", err)
	}
	d, err := shell.ResponseMessageToDocument(parse(c, w.data))
	if err != nil {
		c.Failf("ResponseMessageToDocument: %v", err)
	}
	sameDoc(c, "written response", d, want)
}

// namespaces divide at the first dot.
func namespaces(c *prop.C) {
	t := c.T
	ns := rapid.StringOfN(rapid.SampledFrom([]rune("ab.$é0 ")), 0, 12, -1).Draw(t, "ns")
	if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
		ns = strings.Repeat(ns, rapid.IntRange(1, 40).Draw(t, "times"))
	}
	db, coll, dotted := strings.Cut(ns, ".")
	c.Note("%q", ns)
	if got := mongowire.NamespaceToDB(ns); got != db {
		c.Failf("the database of %q is %q", ns, got)
	}
	if got := mongowire.NamespaceToCollection(ns); got != coll {
		c.Failf("the collection of %q is %q", ns, got)
	}
	if got := mongowire.NamespaceIsCommand(ns); got != (dotted && strings.HasPrefix(coll, "$")) {
		c.Failf("%q names a command: %v", ns, got)
	}
	if dotted && strings.Count(ns, ".") > 1 || strings.Contains(ns, "$") {
		c.NonTrivial(ns)
	}
}

func main() {
	prop.Main(prop.Spec{
		ID:          "M01",
		Rule:        "a message that carries at least one document or cursor, distinct by its encoding; or a namespace with several dots or a dollar",
		Assumptions: []string{"namespaces, identifiers and command names contain no NUL byte", "only the optional projection of a query may be a nil document", "reserved fields are zero"},
		Subs: []prop.Sub{
			{Name: "build", Quick: 200000, Thorough: 2000000, Shards: 3, Fn: build},
			{Name: "raw", Quick: 200000, Thorough: 2000000, Shards: 3, Fn: raw},
			{Name: "namespaces", Quick: 250000, Thorough: 2500000, Fn: namespaces},
			{Name: "shell", Quick: 100000, Thorough: 1000000, Fn: shellHelpers},
		},
	})
}
