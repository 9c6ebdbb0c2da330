package wm

import (
	"bytes"
	"encoding/binary"
	"errors"

	"verif/harness/bm"
)

var errBad = errors.New("malformed message")

// Decode reads the body of a message by the protocol's definition. It fails
// where a required part is missing or malformed. exact reports that nothing
// in the body is left to interpretation: no bytes follow the message,
// reserved fields are zero and only ordinary binary subtypes occur, so that
// the message must be accepted and reproduced.
func Decode(op int32, body []byte) (m *Msg, exact bool, err error) {
	m = &Msg{Op: op}
	b, exact := body, true
	fail := func() { err = errBad }
	r32 := func() (v int32) {
		if err != nil || len(b) < 4 {
			fail()
			return 0
		}
		v, b = int32(binary.LittleEndian.Uint32(b)), b[4:]
		return v
	}
	r64 := func() (v int64) {
		if err != nil || len(b) < 8 {
			fail()
			return 0
		}
		v, b = int64(binary.LittleEndian.Uint64(b)), b[8:]
		return v
	}
	str := func() (s string) {
		i := bytes.IndexByte(b, 0)
		if err != nil || i < 0 {
			fail()
			return ""
		}
		s, b = string(b[:i]), b[i+1:]
		return s
	}
	doc := func() (fs []bm.Field) {
		if err != nil || len(b) < 5 {
			fail()
			return nil
		}
		l := int32(binary.LittleEndian.Uint32(b))
		if l < 5 || int64(l) > int64(len(b)) {
			fail()
			return nil
		}
		fs, derr := bm.DecodeDoc(b[:l])
		if derr != nil {
			fail()
			return nil
		}
		if !plain(fs) {
			exact = false
		}
		b = b[l:]
		return fs
	}
	rest := func() {
		for err == nil && len(b) > 0 {
			m.Docs = append(m.Docs, doc())
		}
	}
	switch op {
	case Reply:
		m.Flags, m.Cursor, m.Skip, m.NReturn = r32(), r64(), r32(), r32()
		rest()
	case Update, Delete:
		exact = r32() == 0
		m.NS, m.Flags = str(), r32()
		m.Docs = append(m.Docs, doc())
		if op == Update {
			m.Docs = append(m.Docs, doc())
		}
	case Insert:
		m.Flags, m.NS = r32(), str()
		rest()
	case Query:
		m.Flags, m.NS, m.Skip, m.NReturn = r32(), str(), r32(), r32()
		m.Docs = append(m.Docs, doc())
		m.NoProject = len(b) == 0
		if err == nil && !m.NoProject {
			m.Docs = append(m.Docs, doc())
		}
		if m.IsLegacyCommand() && err == nil && len(m.Docs[0]) == 0 {
			fail() // a command has a name
		}
	case GetMore:
		exact = r32() == 0
		m.NS, m.NReturn, m.Cursor = str(), r32(), r64()
	case KillCursors:
		exact = r32() == 0
		n := r32()
		if n < 0 || int64(n)*8 > int64(len(b)) {
			fail()
		}
		for ; n > 0 && err == nil; n-- {
			m.IDs = append(m.IDs, r64())
		}
	case Command:
		m.NS, m.Cmd = str(), str()
		m.Docs = append(m.Docs, doc(), doc())
		rest()
	case CommandReply:
		m.Docs = append(m.Docs, doc(), doc())
		rest()
	case OpMsg:
		m.Flags = r32()
		if err == nil && m.Flags&1 == 1 {
			if len(b) < 4 {
				fail()
				break
			}
			m.Checksum = int32(binary.LittleEndian.Uint32(b[len(b)-4:]))
			b = b[:len(b)-4]
		}
		for err == nil && len(b) > 0 {
			s := Section{Kind: b[0]}
			b = b[1:]
			switch s.Kind {
			case 0:
				s.Docs = append(s.Docs, doc())
			case 1:
				whole := b
				n := r32()
				if err != nil || n < 5 || int64(n) > int64(len(whole)) {
					fail()
					break
				}
				after := whole[n:]
				b = whole[4:n]
				s.ID = str()
				for err == nil && len(b) > 0 {
					s.Docs = append(s.Docs, doc())
				}
				b = after
			default:
				fail()
			}
			m.Sections = append(m.Sections, s)
		}
	default:
		fail()
	}
	return m, exact && len(b) == 0 && err == nil, err
}

// plain reports whether the documents hold only the binary subtypes that the
// library documents, and arrays with their canonical keys.
func plain(fs []bm.Field) bool {
	for _, f := range fs {
		if f.V.T == bm.Binary && f.V.Sub > 5 && f.V.Sub < 0x80 {
			return false
		}
		if !plain(f.V.Kids) {
			return false
		}
	}
	return true
}
