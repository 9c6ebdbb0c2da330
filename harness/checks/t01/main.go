// T01: decimal128 text and bits denote the same number.
package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/prop"
)

const minExp, maxExp = -6176, 6111

var maxCoef = new(big.Int).Sub(new(big.Int).Exp(big.NewInt(10), big.NewInt(34), nil), big.NewInt(1))

// dec is the value of a decimal: class 'f' (finite), 'n' (NaN) or 'i'.
type dec struct {
	class byte
	neg   bool
	coef  *big.Int
	exp   int
}

func (d dec) String() string {
	s := ""
	if d.neg {
		s = "-"
	}
	switch d.class {
	case 'n':
		return "NaN"
	case 'i':
		return s + "Infinity"
	}
	return fmt.Sprintf("%s%se%d", s, d.coef, d.exp)
}

func (d dec) same(o dec) bool {
	if d.class != o.class {
		return false
	}
	switch d.class {
	case 'n':
		return true
	case 'i':
		return d.neg == o.neg
	}
	return d.neg == o.neg && d.exp == o.exp && d.coef.Cmp(o.coef) == 0
}

// decode reads the bits as IEEE 754 decimal128 (binary integer encoding).
func decode(h, l uint64) dec {
	d := dec{class: 'f', neg: h>>63 == 1}
	switch h >> 58 & 31 {
	case 31:
		d.class = 'n'
		return d
	case 30:
		d.class = 'i'
		return d
	}
	if h>>61&3 == 3 {
		d.exp = int(h>>47&0x3fff) - 6176
		d.coef = new(big.Int)
		return d
	}
	d.exp = int(h>>49&0x3fff) - 6176
	c := new(big.Int).SetUint64(h & (1<<49 - 1))
	c.Lsh(c, 64).Or(c, new(big.Int).SetUint64(l))
	if c.Cmp(maxCoef) > 0 {
		c = new(big.Int)
	}
	d.coef = c
	return d
}

// text gives the text that the BSON specification asks for.
func (d dec) text() string {
	if d.class != 'f' {
		return d.String()
	}
	s := ""
	if d.neg {
		s = "-"
	}
	digits := d.coef.String()
	adjusted := d.exp + len(digits) - 1
	if d.exp > 0 || adjusted < -6 {
		s += digits[:1]
		if len(digits) > 1 {
			s += "." + digits[1:]
		}
		return s + fmt.Sprintf("E%+d", adjusted)
	}
	if d.exp == 0 {
		return s + digits
	}
	for len(digits) <= -d.exp {
		digits = "0" + digits
	}
	return s + digits[:len(digits)+d.exp] + "." + digits[len(digits)+d.exp:]
}

// encode gives the canonical bits of a finite decimal.
func encode(d dec) (uint64, uint64) {
	var h uint64
	if d.neg {
		h = 1 << 63
	}
	switch d.class {
	case 'n':
		return 31 << 58, 0
	case 'i':
		return h | 30<<58, 0
	}
	l := new(big.Int).And(d.coef, new(big.Int).SetUint64(^uint64(0))).Uint64()
	h |= new(big.Int).Rsh(d.coef, 64).Uint64()
	return h | uint64(d.exp+6176)<<49, l
}

var (
	grammar = regexp.MustCompile(`^([+-]?)(?:([0-9]+)(?:(\.)([0-9]*))?|(\.)([0-9]+))(?:[eE]([+-]?[0-9]+))?$`)
	special = regexp.MustCompile(`(?i)^([+-]?)(nan|inf|infinity)$`)
)

type verdict int

const (
	must    verdict = iota // this value
	mustErr                // an error
	may                    // this value or an error
)

// read is the reference parser: the exact value of a literal.
func read(s string) (dec, verdict) {
	if m := special.FindStringSubmatch(s); m != nil {
		if strings.EqualFold(m[2], "nan") {
			return dec{class: 'n'}, must
		}
		return dec{class: 'i', neg: m[1] == "-"}, must
	}
	m := grammar.FindStringSubmatch(s)
	if m == nil {
		return dec{}, mustErr
	}
	v := must
	ip, fp := m[2], m[4]
	if m[5] != "" {
		fp = m[6]
	}
	if m[3] != "" && fp == "" {
		v = may // "5." and "5.e1": not in every grammar
	}
	d := dec{class: 'f', neg: m[1] == "-", coef: new(big.Int)}
	d.coef.SetString(ip+fp, 10)
	e := new(big.Int)
	if m[7] != "" {
		e.SetString(strings.TrimPrefix(m[7], "+"), 10)
		if len(strings.TrimLeft(m[7], "+-")) > 4 {
			v = may // such an exponent may be refused by its length alone
		}
	}
	e.Sub(e, big.NewInt(int64(len(fp))))
	if d.coef.Sign() == 0 {
		// zero keeps its exponent within range, else it is clamped
		d.exp = minExp
		if e.Cmp(big.NewInt(maxExp)) > 0 {
			d.exp, v = maxExp, may
		} else if e.Cmp(big.NewInt(minExp)) >= 0 {
			d.exp = int(e.Int64())
		} else {
			v = may
		}
		return d, v
	}
	ten := big.NewInt(10)
	digits := len(d.coef.String())
	if e.Cmp(big.NewInt(40000)) > 0 {
		return d, mustErr
	}
	if e.Cmp(big.NewInt(-40000)) < 0 {
		return d, mustErr
	}
	exp := int(e.Int64())
	// bring the coefficient to 34 digits and the exponent into range, only by
	// exact steps
	if k := max(digits-34, minExp-exp, 0); k > 0 {
		txt := d.coef.String()
		if len(txt)-len(strings.TrimRight(txt, "0")) < k {
			return d, mustErr
		}
		d.coef.SetString(txt[:len(txt)-k], 10)
		digits, exp = digits-k, exp+k
	}
	if k := exp - maxExp; k > 0 {
		if digits+k > 34 {
			return d, mustErr
		}
		d.coef.Mul(d.coef, new(big.Int).Exp(ten, big.NewInt(int64(k)), nil))
		exp = maxExp
	}
	d.exp = exp
	return d, v
}

func genCoef(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 6).Draw(t, "ck") {
	case 0:
		return big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, "c")))
	case 1:
		n := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rapid.IntRange(0, 34).Draw(t, "p"))), nil)
		return n.Add(n, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, "d"))))
	case 2:
		return new(big.Int).SetUint64(rapid.Uint64().Draw(t, "c"))
	case 3:
		n, _ := new(big.Int).SetString(rapid.StringMatching(`[0-9]{1,34}`).Draw(t, "c"), 10)
		return n
	case 4:
		n, _ := new(big.Int).SetString(rapid.StringMatching(`[0-9]{1,20}0{1,14}`).Draw(t, "c"), 10)
		return n
	case 5:
		n := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 112).Draw(t, "b")))
		return n.Sub(n, big.NewInt(int64(rapid.IntRange(0, 1).Draw(t, "d"))))
	default:
		return new(big.Int).Sub(maxCoef, big.NewInt(int64(rapid.IntRange(0, 9).Draw(t, "c"))))
	}
}

func genExp(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(-45, 45), rapid.IntRange(-45, 45), rapid.IntRange(minExp, maxExp),
		rapid.SampledFrom([]int{minExp, minExp + 1, minExp + 33, minExp + 34, minExp + 35, maxExp, maxExp - 1, 0, -1, 1})).Draw(t, "e")
}

func genBits(t *rapid.T) (uint64, uint64) {
	switch rapid.IntRange(0, 5).Draw(t, "bk") {
	case 0:
		return rapid.Uint64().Draw(t, "h"), rapid.Uint64().Draw(t, "l")
	case 1: // any combination field
		return rapid.Uint64Range(0, 63).Draw(t, "top")<<58 | rapid.Uint64Range(0, 1<<58-1).Draw(t, "h"), rapid.Uint64().Draw(t, "l")
	case 2: // significands around the largest canonical one
		c := new(big.Int).Add(maxCoef, big.NewInt(int64(rapid.IntRange(-2, 3).Draw(t, "d"))))
		return encode(dec{class: 'f', neg: rapid.Bool().Draw(t, "neg"), coef: c, exp: genExp(t)})
	default:
		c := genCoef(t)
		if c.Sign() < 0 {
			c = new(big.Int)
		}
		return encode(dec{class: 'f', neg: rapid.Bool().Draw(t, "neg"), coef: c, exp: genExp(t)})
	}
}

func bits(c *prop.C) {
	h, l := genBits(c.T)
	d := types.NewDecimal128(h, l)
	want := decode(h, l)
	c.Note("bits %#016x %#016x = %s", h, l, want)
	c.NonTrivial(fmt.Sprint(h, l))
	gh, gl := d.GetBytes()
	if gh != h || gl != l {
		c.Failf("GetBytes of %#x,%#x gives %#x,%#x", h, l, gh, gl)
	}
	var s string
	c.NoPanic("String", func() { s = d.String() })
	c.Class(map[byte]string{'n': "NaN", 'i': "infinity", 'f': "finite"}[want.class])
	read, v := read(s)
	if v != must {
		c.Failf("%#x,%#x (%s) formats as %q, which is no decimal literal in range", h, l, want, s)
	}
	if !read.same(want) {
		c.Failf("%#x,%#x is %s but formats as %q = %s", h, l, want, s, read)
	}
	if s != want.text() {
		c.Failf("%#x,%#x formats as %q, want %q", h, l, s, want.text())
	}
	var back types.Decimal128
	var err error
	c.NoPanic("ParseDecimal128("+s+")", func() { back, err = types.ParseDecimal128(s) })
	if err != nil {
		c.Failf("%#x,%#x formats as %q, which does not parse: %v", h, l, s, err)
	}
	bh, bl := back.GetBytes()
	wh, wl := encode(want)
	if bh != wh || bl != wl {
		c.Failf("%#x,%#x (%s) formats as %q and parses as %#x,%#x (%s)", h, l, want, s, bh, bl, decode(bh, bl))
	}
}

func checkText(c *prop.C, s string) {
	c.Note("text %q", clip(s))
	want, v := read(s)
	var got types.Decimal128
	var err error
	c.NoPanic(fmt.Sprintf("ParseDecimal128(%q)", clip(s)), func() { got, err = types.ParseDecimal128(s) })
	switch {
	case v == mustErr && err == nil:
		h, l := got.GetBytes()
		c.Failf("%q is not representable but parses as %s (%#x,%#x)", clip(s), decode(h, l), h, l)
	case v == must && err != nil:
		c.Failf("%q = %s does not parse: %v", clip(s), want, err)
	}
	if err != nil {
		c.Class("rejected")
		return
	}
	c.Class("accepted")
	h, l := got.GetBytes()
	wh, wl := encode(want)
	if h != wh || l != wl {
		c.Failf("%q = %s parses as %s (%#x,%#x instead of %#x,%#x)", clip(s), want, decode(h, l), h, l, wh, wl)
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:120] + fmt.Sprintf("...(%d)...", len(s)) + s[len(s)-60:]
	}
	return s
}

func genLiteral(t *rapid.T) string {
	var b strings.Builder
	b.WriteString(rapid.SampledFrom([]string{"", "", "-", "+"}).Draw(t, "sign"))
	digs := func(label string) string {
		switch rapid.IntRange(0, 31).Draw(t, label+"k") % 28 {
		case 0, 5, 6, 7:
			return strings.Repeat("0", rapid.IntRange(0, 40).Draw(t, label+"z"))
		case 1, 8, 9, 10:
			return rapid.StringMatching(`[1-9][0-9]{30,36}`).Draw(t, label)
		case 2, 11, 12, 13:
			return rapid.StringMatching(`[1-9][0-9]{0,33}`).Draw(t, label) + strings.Repeat("0", rapid.IntRange(0, 40).Draw(t, label+"z"))
		case 3, 14, 15, 16:
			return strings.Repeat("0", rapid.IntRange(0, 40).Draw(t, label+"z")) + rapid.StringMatching(`[1-9][0-9]{0,33}`).Draw(t, label)
		case 27:
			n := rapid.IntRange(6000, 6250).Draw(t, label+"n")
			if rapid.Bool().Draw(t, label+"lead") {
				return strings.Repeat("0", n) + rapid.StringMatching(`[1-9][0-9]{0,33}`).Draw(t, label)
			}
			return rapid.StringMatching(`[1-9][0-9]{0,33}`).Draw(t, label) + strings.Repeat("0", n)
		default:
			return rapid.StringMatching(`[0-9]{0,12}`).Draw(t, label)
		}
	}
	b.WriteString(digs("int"))
	if rapid.Bool().Draw(t, "dot") {
		b.WriteString("." + digs("frac"))
	}
	if rapid.IntRange(0, 2).Draw(t, "hasexp") > 0 {
		b.WriteString(rapid.SampledFrom([]string{"E", "e"}).Draw(t, "E"))
		b.WriteString(rapid.SampledFrom([]string{"", "+", "-"}).Draw(t, "esign"))
		e := rapid.OneOf(rapid.IntRange(0, 50), rapid.IntRange(6100, 6220), rapid.IntRange(0, 13000)).Draw(t, "exp")
		if rapid.IntRange(0, 9).Draw(t, "pad") == 0 {
			b.WriteString(strings.Repeat("0", rapid.IntRange(1, 6).Draw(t, "npad")))
		}
		b.WriteString(strconv.Itoa(e))
	}
	return b.String()
}

func text(c *prop.C) {
	s := genLiteral(c.T)
	c.NonTrivial(s)
	checkText(c, s)
}

func malformed(c *prop.C) {
	var s string
	switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
	case 0:
		s = rapid.StringMatching(`[-+0-9.eE]{0,12}`).Draw(c.T, "s")
	case 1:
		s = rapid.SampledFrom([]string{"NaN", "nan", "Inf", "Infinity", "infinity", "INF", "Nan1", "nano", "sNaN", "infinite", "Infinit", "infi", "nan.", "infinit0"}).Draw(c.T, "s")
		if rapid.Bool().Draw(c.T, "mixed case") {
			b := []byte(s)
			for i := range b {
				if rapid.Bool().Draw(c.T, "flip") {
					b[i] ^= 0x20 * (b[i] >> 6)
				}
			}
			s = string(b)
		}
		s = rapid.SampledFrom([]string{"", "-", "+", "--"}).Draw(c.T, "sign") + s
	case 2:
		s = rapid.String().Draw(c.T, "s")
	default:
		b := []byte(genLiteral(c.T))
		for i := rapid.IntRange(1, 3).Draw(c.T, "edits"); i > 0 && len(b) > 0; i-- {
			p := rapid.IntRange(0, len(b)-1).Draw(c.T, "p")
			switch rapid.IntRange(0, 2).Draw(c.T, "edit") {
			case 0:
				b = append(b[:p:p], b[p+1:]...)
			case 1:
				b[p] = rapid.SampledFrom([]byte("+-.eE019 x\x00nNiI_")).Draw(c.T, "c")
			default:
				b = append(b[:p:p], append([]byte{rapid.SampledFrom([]byte("+-.eE019 x\x00")).Draw(c.T, "c")}, b[p:]...)...)
			}
		}
		s = string(b)
	}
	c.NonTrivial(s)
	checkText(c, s)
}

func main() {
	prop.Main(prop.Spec{
		ID:   "T01",
		Rule: "every generated bit pattern or text is judged against the reference decoder; cases are counted distinct by their bits or text",
		Subs: []prop.Sub{
			{Name: "bits", Quick: 2400000, Thorough: 24000000, Shards: 3, Fn: bits},
			{Name: "text", Quick: 1200000, Thorough: 12000000, Shards: 3, Fn: text},
			{Name: "malformed", Quick: 1200000, Thorough: 12000000, Shards: 2, Fn: malformed},
		},
	})
}
