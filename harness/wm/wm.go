// Package wm is an independent model of the wire protocol: messages, their
// encoding and generators.
package wm

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"pgregory.net/rapid"
	"verif/harness/bm"
)

// Section is one section of an OP_MSG.
type Section struct {
	Kind byte
	ID   string
	Docs [][]bm.Field
}

// Msg is a wire message.
type Msg struct {
	Op            int32
	Req, Resp     int32
	Flags         int32
	NS            string // namespace, or database
	Cmd           string
	Skip, NReturn int32
	Cursor        int64
	IDs           []int64
	Docs          [][]bm.Field // fixed documents first (selector, update, ...)
	NoProject     bool
	Sections      []Section
	Checksum      int32
}

// Operation codes.
const (
	Reply, Update, Insert, Query, GetMore, Delete, KillCursors, Command, CommandReply, OpMsg int32 = 1, 2001, 2002, 2004, 2005, 2006, 2007, 2010, 2011, 2013
)

// Ops lists the operation codes.
var Ops = []int32{Reply, Update, Insert, Query, GetMore, Delete, KillCursors, Command, CommandReply, OpMsg}

func i32(b []byte, v int32) []byte { return binary.LittleEndian.AppendUint32(b, uint32(v)) }
func i64(b []byte, v int64) []byte { return binary.LittleEndian.AppendUint64(b, uint64(v)) }
func cs(b []byte, s string) []byte { return append(append(b, s...), 0) }
func docs(b []byte, ds [][]bm.Field) []byte {
	for _, d := range ds {
		b = append(b, bm.EncodeFields(d)...)
	}
	return b
}

// Encode gives the bytes of the message by the protocol's definition.
func (m *Msg) Encode() []byte {
	b := i32(nil, 0)
	b = i32(b, m.Req)
	b = i32(b, m.Resp)
	b = i32(b, m.Op)
	switch m.Op {
	case Reply:
		b = i32(b, m.Flags)
		b = i64(b, m.Cursor)
		b = i32(b, m.Skip)
		b = i32(b, m.NReturn)
		b = docs(b, m.Docs)
	case Update, Delete:
		b = i32(b, 0)
		b = cs(b, m.NS)
		b = i32(b, m.Flags)
		b = docs(b, m.Docs)
	case Insert:
		b = i32(b, m.Flags)
		b = cs(b, m.NS)
		b = docs(b, m.Docs)
	case Query:
		b = i32(b, m.Flags)
		b = cs(b, m.NS)
		b = i32(b, m.Skip)
		b = i32(b, m.NReturn)
		b = docs(b, m.Docs)
	case GetMore:
		b = i32(b, 0)
		b = cs(b, m.NS)
		b = i32(b, m.NReturn)
		b = i64(b, m.Cursor)
	case KillCursors:
		b = i32(b, 0)
		b = i32(b, int32(len(m.IDs)))
		for _, id := range m.IDs {
			b = i64(b, id)
		}
	case Command:
		b = cs(b, m.NS)
		b = cs(b, m.Cmd)
		b = docs(b, m.Docs)
	case CommandReply:
		b = docs(b, m.Docs)
	case OpMsg:
		b = i32(b, m.Flags)
		for _, s := range m.Sections {
			b = append(b, s.Kind)
			if s.Kind == 0 {
				b = docs(b, s.Docs)
				continue
			}
			at := len(b)
			b = i32(b, 0)
			b = cs(b, s.ID)
			b = docs(b, s.Docs)
			binary.LittleEndian.PutUint32(b[at:], uint32(len(b)-at))
		}
		if m.Flags&1 == 1 {
			b = i32(b, m.Checksum)
		}
	}
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

// IsLegacyCommand reports if the message is a query of a command collection,
// which parses to a command.
func (m *Msg) IsLegacyCommand() bool {
	i := strings.IndexByte(m.NS, '.')
	return m.Op == Query && i >= 0 && strings.HasPrefix(m.NS[i+1:], "$")
}

func (m *Msg) String() string {
	s := fmt.Sprintf("op %d req %d resp %d flags %#x ns %q cmd %q skip %d nreturn %d cursor %d ids %v checksum %d", m.Op, m.Req, m.Resp, uint32(m.Flags), m.NS, m.Cmd, m.Skip, m.NReturn, m.Cursor, m.IDs, m.Checksum)
	for _, d := range m.Docs {
		s += "\n  doc " + bm.Show(d)
	}
	for _, x := range m.Sections {
		s += fmt.Sprintf("\n  section %d %q", x.Kind, x.ID)
		for _, d := range x.Docs {
			s += "\n    doc " + bm.Show(d)
		}
	}
	return s
}

func namespace(t *rapid.T) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"", "db", "db.", ".", ".$cmd", "db.coll", "db.coll.more", "db.$cmd", "db.$cmd.sys.inprog", "a.b$", "$cmd", "db.a.$cmd"}), bm.CStr()).Draw(t, "ns")
}

// GenFlags draws flag words.
func GenFlags(t *rapid.T) int32 {
	return rapid.OneOf(rapid.Int32Range(0, 8), bm.InterestingInt32()).Draw(t, "flags")
}

// Gen draws a message. Legacy command queries have a non-empty selector.
func Gen(t *rapid.T, op int32, maxDocs int) *Msg {
	m := &Msg{Op: op, Req: bm.InterestingInt32().Draw(t, "req"), Resp: bm.InterestingInt32().Draw(t, "resp")}
	o := bm.Opts{MaxDepth: 2, MaxLen: 4}
	doc := func() []bm.Field { return bm.GenDoc(t, o) }
	many := func(fixed int) {
		n := fixed + rapid.IntRange(0, maxDocs).Draw(t, "ndocs")
		for i := 0; i < n; i++ {
			m.Docs = append(m.Docs, doc())
		}
	}
	switch op {
	case Reply:
		m.Flags, m.Cursor = GenFlags(t), bm.InterestingInt64().Draw(t, "cursor")
		m.Skip, m.NReturn = bm.InterestingInt32().Draw(t, "from"), bm.InterestingInt32().Draw(t, "n")
		many(0)
	case Update:
		m.NS, m.Flags = namespace(t), GenFlags(t)
		m.Docs = [][]bm.Field{doc(), doc()}
	case Delete:
		m.NS, m.Flags = namespace(t), GenFlags(t)
		m.Docs = [][]bm.Field{doc()}
	case Insert:
		m.NS, m.Flags = namespace(t), GenFlags(t)
		many(0)
	case Query:
		m.NS, m.Flags = namespace(t), GenFlags(t)
		m.Skip, m.NReturn = bm.InterestingInt32().Draw(t, "skip"), bm.InterestingInt32().Draw(t, "n")
		m.Docs = [][]bm.Field{doc()}
		if m.IsLegacyCommand() && len(m.Docs[0]) == 0 {
			m.Docs[0] = []bm.Field{bm.F("ping", bm.NInt32(1))}
		}
		if rapid.Bool().Draw(t, "project") {
			m.Docs = append(m.Docs, doc())
		} else {
			m.NoProject = true
		}
	case GetMore:
		m.NS, m.NReturn, m.Cursor = namespace(t), bm.InterestingInt32().Draw(t, "n"), bm.InterestingInt64().Draw(t, "cursor")
	case KillCursors:
		for i := rapid.IntRange(0, 6).Draw(t, "ids"); i > 0; i-- {
			m.IDs = append(m.IDs, bm.InterestingInt64().Draw(t, "id"))
		}
	case Command:
		m.NS, m.Cmd = bm.CStr().Draw(t, "db"), bm.CStr().Draw(t, "cmd")
		many(2)
	case CommandReply:
		many(2)
	case OpMsg:
		m.Flags = GenFlags(t)
		if m.Flags&1 == 1 {
			m.Checksum = bm.InterestingInt32().Draw(t, "checksum")
		}
		for i := rapid.IntRange(0, 4).Draw(t, "sections"); i > 0; i-- {
			if rapid.Bool().Draw(t, "body") {
				d := doc()
				if rapid.IntRange(0, 2).Draw(t, "names a database") == 0 {
					// usually the name of a database
					v := bm.GenNode(t, bm.Opts{MaxDepth: 1, MaxLen: 2}, 0)
					if rapid.Bool().Draw(t, "by a string") {
						v = bm.NString(bm.CStr().Draw(t, "database"))
					}
					i := rapid.IntRange(0, len(d)).Draw(t, "at")
					d = append(d[:i:i], append([]bm.Field{bm.F("$db", v)}, d[i:]...)...)
				}
				m.Sections = append(m.Sections, Section{Kind: 0, Docs: [][]bm.Field{d}})
				continue
			}
			s := Section{Kind: 1, ID: bm.CStr().Draw(t, "id")}
			for k := rapid.IntRange(0, maxDocs).Draw(t, "n"); k > 0; k-- {
				s.Docs = append(s.Docs, doc())
			}
			m.Sections = append(m.Sections, s)
		}
	}
	return m
}

// Build makes the message through the library's constructors. The header is
// the one the constructors give (request id 19, response to 0).
func Build(t *rapid.T, m *Msg) mongowire.Message {
	rd := func(fs []bm.Field) *birch.Document { return bm.RepDoc(t, fs) }
	vals := func(ds [][]bm.Field) (out []birch.Document) {
		for _, d := range ds {
			out = append(out, *rd(d))
		}
		return out
	}
	m.Req, m.Resp = 19, 0
	switch m.Op {
	case Reply:
		return mongowire.NewReply(m.Cursor, m.Flags, m.Skip, m.NReturn, vals(m.Docs))
	case Update:
		return mongowire.NewUpdate(m.NS, m.Flags, rd(m.Docs[0]), rd(m.Docs[1]))
	case Insert:
		m.Flags = 0
		var ds []*birch.Document
		for _, d := range m.Docs {
			ds = append(ds, rd(d))
		}
		return mongowire.NewInsert(m.NS, ds...)
	case Query:
		var project *birch.Document
		if !m.NoProject {
			project = rd(m.Docs[1])
		}
		return mongowire.NewQuery(m.NS, m.Flags, m.Skip, m.NReturn, rd(m.Docs[0]), project)
	case GetMore:
		return mongowire.NewGetMore(m.NS, m.NReturn, m.Cursor)
	case Delete:
		return mongowire.NewDelete(m.NS, m.Flags, rd(m.Docs[0]))
	case KillCursors:
		return mongowire.NewKillCursors(m.IDs...)
	case Command:
		return mongowire.NewCommand(m.NS, m.Cmd, rd(m.Docs[0]), rd(m.Docs[1]), vals(m.Docs[2:]))
	case CommandReply:
		return mongowire.NewCommandReply(rd(m.Docs[0]), rd(m.Docs[1]), vals(m.Docs[2:]))
	case OpMsg:
		var bodies []birch.Document
		var seqs []model.SequenceItem
		var sections []Section
		for _, s := range m.Sections {
			if s.Kind == 0 {
				bodies = append(bodies, *rd(s.Docs[0]))
				sections = append(sections, s)
			}
		}
		for _, s := range m.Sections {
			if s.Kind == 1 {
				seqs = append(seqs, model.SequenceItem{Identifier: s.ID, Documents: vals(s.Docs)})
				sections = append(sections, s)
			}
		}
		m.Sections, m.Checksum = sections, 0
		more := m.Flags&2 != 0
		m.Flags = 0
		if more {
			m.Flags = 2
		}
		return mongowire.NewOpMessage(more, bodies, seqs...)
	}
	panic("op")
}

// Parsed is the message that parsing m gives.
func (m *Msg) Parsed() *Msg {
	if !m.IsLegacyCommand() {
		return m
	}
	q := m.Docs[0]
	return &Msg{Op: Command, Req: m.Req, Resp: m.Resp, NS: m.NS[:strings.IndexByte(m.NS, '.')], Cmd: q[0].K, Docs: [][]bm.Field{q, {}}}
}

// Size in bytes.
func (m *Msg) Size() int32 { return int32(min(len(m.Encode()), math.MaxInt32)) }
