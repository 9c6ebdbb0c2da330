// Package jm is an independent model of JSON: a strict RFC 8259 parser that
// keeps order and duplicates, a writer with free formatting and generators.
package jm

import (
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// J is a JSON value; K is 'o', 'a', 's', 'n' (number), 't', 'f' or '0' (null).
type J struct {
	K    byte
	S    string // string content, or the literal of a number
	Keys []string
	Kids []*J
}

func Obj(kv ...any) *J {
	j := &J{K: 'o'}
	for i := 0; i < len(kv); i += 2 {
		j.Keys = append(j.Keys, kv[i].(string))
		j.Kids = append(j.Kids, kv[i+1].(*J))
	}
	return j
}
func Arr(kids ...*J) *J { return &J{K: 'a', Kids: kids} }
func Str(s string) *J   { return &J{K: 's', S: s} }
func Num(s string) *J   { return &J{K: 'n', S: s} }
func Int(i int64) *J    { return Num(strconv.FormatInt(i, 10)) }
func Bool(b bool) *J {
	if b {
		return &J{K: 't'}
	}
	return &J{K: 'f'}
}
func Null() *J { return &J{K: '0'} }

var errSyntax = errors.New("syntax error")

type parser struct {
	b []byte
	i int
	// MaxDepth seen
	deepest int
}

// Parse reads one JSON text strictly. depth is the nesting depth reached.
func Parse(b []byte) (j *J, depth int, err error) {
	p := &parser{b: b}
	p.ws()
	j, err = p.value(0)
	if err != nil {
		return nil, p.deepest, err
	}
	p.ws()
	if p.i != len(b) {
		return nil, p.deepest, errSyntax
	}
	return j, p.deepest, nil
}

func (p *parser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) peek() int {
	if p.i < len(p.b) {
		return int(p.b[p.i])
	}
	return -1
}

func (p *parser) lit(s string) error {
	if !strings.HasPrefix(string(p.b[p.i:min(len(p.b), p.i+len(s))]), s) {
		return errSyntax
	}
	p.i += len(s)
	return nil
}

func (p *parser) value(depth int) (*J, error) {
	p.deepest = max(p.deepest, depth)
	if depth > 200000 {
		return nil, errors.New("too deep")
	}
	switch c := p.peek(); {
	case c == '{':
		j := &J{K: 'o'}
		p.deepest = max(p.deepest, depth+1)
		p.i++
		p.ws()
		if p.peek() == '}' {
			p.i++
			return j, nil
		}
		for {
			p.ws()
			if p.peek() != '"' {
				return nil, errSyntax
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.peek() != ':' {
				return nil, errSyntax
			}
			p.i++
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			j.Keys, j.Kids = append(j.Keys, k), append(j.Kids, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case '}':
				p.i++
				return j, nil
			default:
				return nil, errSyntax
			}
		}
	case c == '[':
		j := &J{K: 'a'}
		p.deepest = max(p.deepest, depth+1)
		p.i++
		p.ws()
		if p.peek() == ']' {
			p.i++
			return j, nil
		}
		for {
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			j.Kids = append(j.Kids, v)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case ']':
				p.i++
				return j, nil
			default:
				return nil, errSyntax
			}
		}
	case c == '"':
		s, err := p.str()
		return Str(s), err
	case c == 't':
		return Bool(true), p.lit("true")
	case c == 'f':
		return Bool(false), p.lit("false")
	case c == 'n':
		return Null(), p.lit("null")
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	}
	return nil, errSyntax
}

func (p *parser) digits() bool {
	s := p.i
	for c := p.peek(); c >= '0' && c <= '9'; c = p.peek() {
		p.i++
	}
	return p.i > s
}

func (p *parser) num() (*J, error) {
	s := p.i
	if p.peek() == '-' {
		p.i++
	}
	if p.peek() == '0' {
		p.i++
	} else if !p.digits() {
		return nil, errSyntax
	}
	if p.peek() == '.' {
		p.i++
		if !p.digits() {
			return nil, errSyntax
		}
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.i++
		if c := p.peek(); c == '+' || c == '-' {
			p.i++
		}
		if !p.digits() {
			return nil, errSyntax
		}
	}
	return Num(string(p.b[s:p.i])), nil
}

func (p *parser) hex4() (rune, bool) {
	if p.i+4 > len(p.b) {
		return 0, false
	}
	for _, c := range p.b[p.i : p.i+4] {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return 0, false
		}
	}
	n, _ := strconv.ParseUint(string(p.b[p.i:p.i+4]), 16, 32)
	p.i += 4
	return rune(n), true
}

func (p *parser) str() (string, error) {
	p.i++
	var out []byte
	for {
		c := p.peek()
		switch {
		case c < 0x20:
			return "", errSyntax
		case c == '"':
			p.i++
			return string(out), nil
		case c != '\\':
			out = append(out, byte(c))
			p.i++
		default:
			p.i++
			e := p.peek()
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, byte(e))
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex4()
				if !ok {
					return "", errSyntax
				}
				if utf16.IsSurrogate(r) {
					pair := rune(utf8.RuneError)
					at := p.i
					if p.i+6 <= len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
						p.i += 2
						if r2, ok := p.hex4(); ok {
							pair = utf16.DecodeRune(r, r2)
						}
					}
					if pair == utf8.RuneError {
						p.i = at
					}
					r = pair
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", errSyntax
			}
		}
	}
}

// NumVal is the exact value of a number literal; nil when its exponent is
// beyond anything a double or an integer can hold.
func NumVal(s string) *big.Rat {
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 5000 || e < -5000 {
			return nil
		}
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil
	}
	return r
}

// Write appends a canonical compact rendering.
func (j *J) String() string { return string(j.append(nil, nil)) }

// Text renders the value with drawn whitespace, escapes and letter case.
func (j *J) Text(t *rapid.T) []byte {
	style := rapid.IntRange(0, 3).Draw(t, "style")
	if style == 0 {
		return j.append(nil, nil)
	}
	// a small pool of drawn choices keeps the number of draws down
	pool := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "format")
	return j.append(nil, &format{pool: pool})
}

type format struct {
	pool []byte
	n    int
}

func (f *format) next() byte {
	f.n++
	return f.pool[f.n%len(f.pool)] + byte(f.n/len(f.pool))
}

func (f *format) ws(b []byte) []byte {
	if f == nil {
		return b
	}
	for n := f.next(); n%4 == 3; n /= 4 {
		b = append(b, " \t\n\r"[n/64])
	}
	return b
}

func (f *format) quote(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		raw := s[i : i+n]
		i += n
		esc := f != nil && f.next()%8 == 0
		switch {
		case r == utf8.RuneError && n == 1:
			b = append(b, raw...)
		case r == '"' || r == '\\':
			b = append(b, '\\', raw[0])
		case r == '/' && esc:
			b = append(b, '\\', '/')
		case r < 0x20 || esc:
			short := map[rune]string{'\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[r]
			if short != "" && (f == nil || f.next()%2 == 0) {
				b = append(b, short...)
			} else if r >= 0x10000 {
				a, c := utf16.EncodeRune(r)
				b = f.u4(f.u4(b, a), c)
			} else {
				b = f.u4(b, r)
			}
		default:
			b = append(b, raw...)
		}
	}
	return append(b, '"')
}

func (f *format) u4(b []byte, r rune) []byte {
	if f != nil && f.next()%2 == 0 {
		return append(b, fmt.Sprintf(`\u%04X`, r)...)
	}
	return append(b, fmt.Sprintf(`\u%04x`, r)...)
}

func (j *J) append(b []byte, f *format) []byte {
	b = f.ws(b)
	switch j.K {
	case 'o':
		b = append(b, '{')
		for i, k := range j.Keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = f.ws(f.quote(f.ws(b), k))
			b = append(b, ':')
			b = j.Kids[i].append(b, f)
		}
		b = append(f.ws(b), '}')
	case 'a':
		b = append(b, '[')
		for i, k := range j.Kids {
			if i > 0 {
				b = append(b, ',')
			}
			b = k.append(b, f)
		}
		b = append(f.ws(b), ']')
	case 's':
		b = f.quote(b, j.S)
	case 'n':
		b = append(b, j.S...)
	case 't':
		b = append(b, "true"...)
	case 'f':
		b = append(b, "false"...)
	case '0':
		b = append(b, "null"...)
	}
	return f.ws(b)
}

// GenNum draws number literals of every form.
func GenNum() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`-?(0|[1-9][0-9]{0,25})`),
		rapid.StringMatching(`-?(0|[1-9][0-9]{0,5})(\.[0-9]{1,20})?([eE][+-]?[0-9]{1,2})?`),
		rapid.StringMatching(`-?(0|[1-9])(\.[0-9]{1,3})?[eE][+-]?(0{0,3}[0-9]{1,3})`),
		rapid.SampledFrom([]string{"0", "-0", "-0.0", "0e5", "1.0", "1e2", "100e-2", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "2147483647", "2147483648", "-2147483648", "-2147483649",
			"18446744073709551616", "9007199254740993", "9007199254740993.0", "1e18", "1e19", "9.3e18", "1e308", "1.7976931348623157e308", "1e309", "-1e400", "5e-324", "1e-400", "0.1", "123456789012345678.5"}),
	)
}

// GenStr draws string contents.
func GenStr() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "a", "b", "\"", "\\", "\\\\", "\\\"", "/", "\n\t\r\b\f", "\x00", "\x1f\x7f", "é", "日本", "😀", "\u2028", "<>&", "a\\", "{", "}", "[]", ",", ":", "null", "\ufffd", "\uffff"}),
		rapid.StringMatching(`[ -~]{0,10}`),
		rapid.String(),
		rapid.StringMatching(`[\\"/a]{0,8}`),
	)
}

// Gen draws a value; the kinds o and a become rarer with depth.
func Gen(t *rapid.T, depth int, keys *rapid.Generator[string]) *J {
	hi := 9
	if depth <= 0 {
		hi = 5
	}
	switch rapid.IntRange(0, hi).Draw(t, "kind") {
	case 0:
		return Null()
	case 1:
		return Bool(rapid.Bool().Draw(t, "b"))
	case 2, 3:
		return Num(GenNum().Draw(t, "num"))
	case 4, 5:
		return Str(GenStr().Draw(t, "str"))
	case 6, 7:
		return GenArr(t, depth, keys)
	default:
		return GenObj(t, depth, keys)
	}
}

func GenObj(t *rapid.T, depth int, keys *rapid.Generator[string]) *J {
	j := &J{K: 'o'}
	for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
		j.Keys = append(j.Keys, keys.Draw(t, "key"))
		j.Kids = append(j.Kids, Gen(t, depth-1, keys))
	}
	return j
}

func GenArr(t *rapid.T, depth int, keys *rapid.Generator[string]) *J {
	j := &J{K: 'a'}
	for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
		j.Kids = append(j.Kids, Gen(t, depth-1, keys))
	}
	return j
}
