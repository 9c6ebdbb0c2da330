// T02: object ids are unique, time-ordered and round-trip as text.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/types"
	"pgregory.net/rapid"
	"verif/harness/prop"
)

var hex24 = regexp.MustCompile(`^[0-9a-fA-F]{24}$`)

func genID(t *rapid.T) (id types.ObjectID) {
	switch rapid.IntRange(0, 4).Draw(t, "idk") {
	case 0:
		b := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 0xff}), 12, 12).Draw(t, "id")
		copy(id[:], b)
	case 1:
		id[rapid.IntRange(0, 11).Draw(t, "at")] = rapid.Byte().Draw(t, "b")
	default:
		copy(id[:], rapid.SliceOfN(rapid.Byte(), 12, 12).Draw(t, "id"))
	}
	return id
}

func roundtrip(c *prop.C) {
	id := genID(c.T)
	c.Note("id % x", id[:])
	c.NonTrivial(id[:])
	want := hex.EncodeToString(id[:])
	if id.Hex() != want {
		c.Failf("Hex of % x is %q", id[:], id.Hex())
	}
	if s := id.String(); s != fmt.Sprintf("ObjectID(%q)", want) {
		c.Failf("String of %s is %q", want, s)
	}
	if id.IsZero() != bytes.Equal(id[:], make([]byte, 12)) {
		c.Failf("IsZero of %s is %v", want, id.IsZero())
	}
	// hexadecimal digits of either case
	txt := []byte(want)
	for i := range txt {
		if txt[i] >= 'a' && rapid.Bool().Draw(c.T, "up") {
			txt[i] -= 'a' - 'A'
		}
	}
	got, err := types.ObjectIDFromHex(string(txt))
	if err != nil || got != id {
		c.Failf("ObjectIDFromHex(%q) gives %s, %v", txt, got.Hex(), err)
	}
	c.NoPanic("MustObjectIDFromHex", func() {
		if m := types.MustObjectIDFromHex(string(txt)); m != id {
			c.Failf("MustObjectIDFromHex(%q) gives %s", txt, m.Hex())
		}
	})
	js, err := id.MarshalJSON()
	if err != nil || string(js) != `"`+want+`"` {
		c.Failf("MarshalJSON of %s gives %q, %v", want, js, err)
	}
	prev := genID(c.T)
	for what, doc := range map[string]string{
		"MarshalJSON":   string(js),
		"quoted":        `"` + string(txt) + `"`,
		"extended":      `{"$oid":"` + string(txt) + `"}`,
		"spaced":        ` { "$oid" : "` + string(txt) + `" } `,
		"extended+more": `{"$oid":"` + string(txt) + `","x":1}`,
	} {
		u := prev
		if err := u.UnmarshalJSON([]byte(doc)); err != nil || u != id {
			c.Failf("%s: UnmarshalJSON(%s) gives %s, %v", what, doc, u.Hex(), err)
		}
	}
	// the twelve raw bytes are accepted as documented
	u := prev
	if err := u.UnmarshalJSON(id[:]); err != nil || u != id {
		c.Failf("UnmarshalJSON of the 12 bytes % x gives %s, %v", id[:], u.Hex(), err)
	}
	// through encoding/json, alone, in containers and as a pointer
	type rec struct {
		A types.ObjectID
		B *types.ObjectID
		C []types.ObjectID
		D map[string]types.ObjectID
	}
	in := rec{A: id, B: &prev, C: []types.ObjectID{id, prev}, D: map[string]types.ObjectID{"x": id}}
	enc, err := json.Marshal(in)
	if err != nil {
		c.Failf("json.Marshal: %v", err)
	}
	var out rec
	if err := json.Unmarshal(enc, &out); err != nil {
		c.Failf("json.Unmarshal(%s): %v", enc, err)
	}
	if out.A != in.A || *out.B != *in.B || len(out.C) != 2 || out.C[0] != id || out.C[1] != prev || out.D["x"] != id {
		c.Failf("ids change through encoding/json: %s", enc)
	}
	// and through a document
	d := birch.DC.Elements(birch.EC.ObjectID("_id", id))
	if o, ok := d.Lookup("_id").ObjectIDOK(); !ok || o != id {
		c.Failf("document returns %s for %s", o.Hex(), want)
	}
}

// strings that are not 24 hexadecimal digits
func reject(c *prop.C) {
	var s string
	switch rapid.IntRange(0, 3).Draw(c.T, "k") {
	case 0:
		s = rapid.StringMatching(`[0-9a-f]{0,50}`).Draw(c.T, "s")
	case 1:
		s = rapid.String().Draw(c.T, "s")
	case 2: // 24 bytes or 24 characters, not all digits
		b := []rune(hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 12, 12).Draw(c.T, "id")))
		for i := rapid.IntRange(1, 3).Draw(c.T, "n"); i > 0; i-- {
			b[rapid.IntRange(0, 23).Draw(c.T, "p")] = rapid.SampledFrom([]rune("gG/:@`-+ xé世\x00\"\\")).Draw(c.T, "c")
		}
		s = string(b)
	default:
		s = rapid.StringMatching(`[0-9a-fA-F]{22,26}`).Draw(c.T, "s")
	}
	c.Note("string %q", s)
	c.NonTrivial(s)
	valid := hex24.MatchString(s)
	c.Class(fmt.Sprintf("valid=%v", valid))
	var id types.ObjectID
	var err error
	c.NoPanic("ObjectIDFromHex", func() { id, err = types.ObjectIDFromHex(s) })
	if (err == nil) != valid {
		c.Failf("ObjectIDFromHex(%q) gives %s, %v", s, id.Hex(), err)
	}
	if err != nil && !id.IsZero() {
		c.Failf("ObjectIDFromHex(%q) fails but returns %s", s, id.Hex())
	}
	p, _ := prop.Catch(func() { types.MustObjectIDFromHex(s) })
	if (p == nil) != valid {
		c.Failf("MustObjectIDFromHex(%q) panic: %v", s, p)
	}
	q, _ := json.Marshal(s)
	for _, txt := range [][]byte{q, []byte(`{"$oid":` + string(q) + `}`)} {
		if len(txt) == 12 {
			continue // twelve bytes are read as the raw id, as documented
		}
		var u types.ObjectID
		c.NoPanic("UnmarshalJSON", func() { err = u.UnmarshalJSON(txt) })
		if (err == nil) != valid {
			c.Failf("UnmarshalJSON(%s) gives %s, %v", txt, u.Hex(), err)
		}
	}
}

// any other bytes: an error, never a panic
func junk(c *prop.C) {
	var b []byte
	if rapid.Bool().Draw(c.T, "json") {
		b = []byte(rapid.SampledFrom([]string{"null", "1", "true", "[]", "{}", `{"$oid":1}`, `{"$oid":null}`, `{"$oid":{}}`, `{"oid":"000000000000000000000000"}`, `["000000000000000000000000"]`, `"`, ``, `{"$oid":["000000000000000000000000"]}`, `{"$oid":{"$oid":"000000000000000000000000"}}`}).Draw(c.T, "j"))
	} else {
		b = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "b")
	}
	if len(b) == 12 {
		return
	}
	c.Note("bytes %q", b)
	c.NonTrivial(b)
	var s string
	if json.Unmarshal(b, &s) == nil && hex24.MatchString(s) {
		return
	}
	var u types.ObjectID
	var err error
	c.NoPanic("UnmarshalJSON", func() { err = u.UnmarshalJSON(b) })
	if err == nil {
		c.Failf("UnmarshalJSON(%q) succeeds with %s", b, u.Hex())
	}
}

func generate(c *prop.C) {
	workers := rapid.IntRange(1, 12).Draw(c.T, "workers")
	n := rapid.IntRange(1, 400).Draw(c.T, "n")
	c.Note("%d goroutines generate %d ids each", workers, n)
	c.NonTrivial(fmt.Sprint(workers, n))
	if workers > 1 {
		c.Class("concurrent")
	}
	out := make([][]types.ObjectID, workers)
	start := make(chan struct{})
	lo := time.Now().Unix()
	var wg sync.WaitGroup
	for w := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			ids := make([]types.ObjectID, n)
			for i := range ids {
				ids[i] = types.NewObjectID()
			}
			out[w] = ids
		}()
	}
	close(start)
	wg.Wait()
	hi := time.Now().Unix()
	seen := map[types.ObjectID]bool{}
	uniq := out[0][0][4:9]
	for w, ids := range out {
		last := uint32(0)
		for i, id := range ids {
			if seen[id] {
				c.Failf("goroutine %d: id %d (%s) was generated before", w, i, id.Hex())
			}
			seen[id] = true
			if id.IsZero() {
				c.Failf("a generated id is zero")
			}
			sec := binary.BigEndian.Uint32(id[:4])
			if int64(sec) < lo || int64(sec) > hi {
				c.Failf("id %s encodes second %d, made between %d and %d", id.Hex(), sec, lo, hi)
			}
			if sec < last {
				c.Failf("goroutine %d: id %d (%s) is older than the one before", w, i, id.Hex())
			}
			last = sec
			if !bytes.Equal(id[4:9], uniq) {
				c.Failf("ids of one process differ in the process part: %s, % x", id.Hex(), uniq)
			}
		}
	}
}

// many ids from one process, as many as a second can produce
func volume(c *prop.C) {
	workers := rapid.IntRange(4, 8).Draw(c.T, "workers")
	n := rapid.IntRange(20000, 60000).Draw(c.T, "n")
	c.Note("%d goroutines generate %d ids each", workers, n)
	c.NonTrivial(fmt.Sprint(workers, n))
	out := make([][]types.ObjectID, workers)
	var wg sync.WaitGroup
	for w := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ids := make([]types.ObjectID, n)
			for i := range ids {
				ids[i] = types.NewObjectID()
			}
			out[w] = ids
		}()
	}
	wg.Wait()
	seen := make(map[types.ObjectID]struct{}, workers*n)
	for _, ids := range out {
		for _, id := range ids {
			if _, ok := seen[id]; ok {
				c.Failf("id %s was generated twice", id.Hex())
			}
			seen[id] = struct{}{}
		}
	}
}

// processes compares the ids of many processes, in which every byte that tells
// processes apart has to vary.
func processes(c *prop.C) {
	const many = 12
	n := rapid.IntRange(1, 5).Draw(c.T, "n")
	c.Note("%d processes generate %d ids each", many, n)
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	out := make([][]types.ObjectID, many)
	errs := make([]error, many)
	var wg sync.WaitGroup
	lo := time.Now().Unix()
	for w := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d", generateEnv, n))
			b, err := cmd.Output()
			if err != nil || len(b) != 12*n {
				errs[w] = fmt.Errorf("%d bytes, %v", len(b), err)
				return
			}
			for len(b) > 0 {
				out[w] = append(out[w], types.ObjectID(b[:12]))
				b = b[12:]
			}
		}()
	}
	wg.Wait()
	hi := time.Now().Unix()
	seen := map[types.ObjectID]bool{}
	var varies [12]bool
	for w, ids := range out {
		if errs[w] != nil {
			c.Failf("generating in process %d: %v", w, errs[w])
		}
		for _, id := range ids {
			if sec := int64(binary.BigEndian.Uint32(id[:4])); sec < lo || sec > hi {
				c.Failf("id %s encodes second %d, made between %d and %d", id.Hex(), sec, lo, hi)
			}
			if seen[id] {
				c.Failf("two processes generated %s", id.Hex())
			}
			seen[id] = true
			if !bytes.Equal(id[4:9], ids[0][4:9]) {
				c.Failf("process %d changed its part of the ids", w)
			}
		}
		for i := range varies {
			varies[i] = varies[i] || ids[0][i] != out[0][0][i]
		}
	}
	for i, v := range varies[4:] {
		if !v {
			c.Failf("byte %d of the first ids of %d processes is always %#x", i+4, many, out[0][0][i+4])
		}
	}
	c.NonTrivial(fmt.Sprint(out))
}

const generateEnv = "VERIF_T02_GENERATE"

func main() {
	if n, err := strconv.Atoi(os.Getenv(generateEnv)); err == nil {
		for range n {
			id := types.NewObjectID()
			_, _ = os.Stdout.Write(id[:])
		}
		return
	}
	prop.Main(prop.Spec{
		ID:   "T02",
		Rule: "every generated id, string or generation schedule exercises the property; cases are counted distinct by value",
		Assumptions: []string{
			"schedules are the ones the Go runtime produces under the race detector with up to 12 goroutines",
			"a process makes fewer than 2^24 ids within one second (the counter has 24 bits)",
		},
		Subs: []prop.Sub{
			{Name: "roundtrip", Quick: 60000, Thorough: 2000000, Shards: 2, Fn: roundtrip},
			{Name: "reject", Quick: 60000, Thorough: 2000000, Shards: 2, Fn: reject},
			{Name: "junk", Quick: 30000, Thorough: 1000000, Fn: junk},
			{Name: "generate", Quick: 1500, Thorough: 60000, Shards: 2, Fn: generate},
			{Name: "volume", Quick: 20, Thorough: 300, Fn: volume},
			{Name: "processes", Quick: 12, Thorough: 200, Fn: processes},
		},
	})
}
