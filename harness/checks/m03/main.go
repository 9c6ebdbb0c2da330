// M03: requests are dispatched to the handler registered for their scope.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
	"verif/harness/wm"
)

// patience bounds the waits for things that must happen.
const patience = 30 * time.Second

var (
	contexts = []string{"", "a", "b", "a.b", "A"}
	commands = []string{"", "x", "y", "X", "a"}
)

type key struct {
	op       int32
	ctx, cmd string
}

func (k key) scope() *mongowire.OpScope {
	return &mongowire.OpScope{Type: mongowire.OpType(k.op), Context: k.ctx, Command: k.cmd}
}

// valid is the documented rule of which scopes can be registered.
func (k key) valid() bool {
	switch k.op {
	case wm.Command, wm.OpMsg:
		return k.cmd != ""
	case wm.KillCursors:
		return k.ctx == "" && k.cmd == ""
	case wm.Delete, wm.Update, wm.Query, wm.Insert, wm.GetMore:
		return k.ctx != "" && k.cmd == ""
	}
	return false
}

// lookup: the exact scope wins, then the one for any context.
func lookup(m map[key]int, k key) (int, bool) {
	if i, ok := m[k]; ok {
		return i, true
	}
	k.ctx = ""
	i, ok := m[k]
	return i, ok
}

func genKey(t *rapid.T, ops []int32) key {
	return key{rapid.SampledFrom(ops).Draw(t, "op"), rapid.SampledFrom(contexts).Draw(t, "context"), rapid.SampledFrom(commands).Draw(t, "command")}
}

var allOps = append([]int32{0, 2003, -1, 2012}, wm.Ops...)

// genValid draws a scope that can be registered.
func genValid(t *rapid.T) key {
	k := genKey(t, []int32{wm.Command, wm.OpMsg, wm.Command, wm.OpMsg, wm.KillCursors, wm.Delete, wm.Update, wm.Query, wm.Insert, wm.GetMore})
	switch k.op {
	case wm.Command, wm.OpMsg:
		if k.cmd == "" {
			k.cmd = "x"
		}
	case wm.KillCursors:
		k.ctx, k.cmd = "", ""
	default:
		k.cmd = ""
		if k.ctx == "" {
			k.ctx = "a.b"
		}
	}
	return k
}

// registry: histories of registrations and lookups against a map.
func registry(c *prop.C) {
	reg := &mrpc.OperationRegistry{}
	svc := mrpc.NewBasicService("127.0.0.1", 0)
	model := map[key]int{}
	got := -1
	handler := func(i int) mrpc.HandlerFunc {
		return func(context.Context, io.Writer, mongowire.Message) { got = i }
	}
	check := func(k key) {
		h, ok := reg.Get(k.scope())
		i, want := lookup(model, k)
		if ok != want {
			c.Failf("lookup of %+v: found %v, want %v (%v)", k, ok, want, model)
		}
		if !ok {
			c.Class("miss")
			return
		}
		c.Class("hit")
		got = -1
		h(context.Background(), io.Discard, nil)
		if got != i {
			c.Failf("lookup of %+v gives the handler of registration %d, want %d (%v)", k, got, i, model)
		}
	}
	adds := 0
	add := func(k key, null bool) {
		adds++
		var h mrpc.HandlerFunc
		if !null {
			h = handler(adds)
		}
		s := k.scope()
		if e := s.Validate(); (e == nil) != k.valid() {
			c.Failf("Validate of %+v: %v", k, e)
		}
		_, dup := model[k]
		want := k.valid() && !null && !dup
		err := reg.Add(*s, h)
		err2 := svc.RegisterOperation(s, h)
		c.Note("add %+v nil=%v -> %v", k, null, err)
		if (err == nil) != want || (err2 == nil) != want {
			c.Failf("registering %+v (nil %v, duplicate %v): %v, service %v", k, null, dup, err, err2)
		}
		if *s != *k.scope() {
			c.Failf("registering changed the scope")
		}
		if want {
			model[k] = adds
			// the caller's scope is its own again
			s.Command, s.Context, s.Type = "other", "other", 1
		} else if dup {
			c.Class("duplicate")
		} else {
			c.Class("refused")
		}
		check(k)
	}
	n := 0
	c.Repeat(map[string]func(*rapid.T){
		"add":     func(t *rapid.T) { n++; add(genValid(t), false) },
		"add any": func(t *rapid.T) { n++; add(genKey(t, allOps), rapid.IntRange(0, 3).Draw(t, "nil") == 0) },
		"get":     func(t *rapid.T) { k := genKey(t, allOps); c.Note("get %+v", k); check(k) },
		"get near": func(t *rapid.T) {
			k := genValid(t)
			k.ctx = rapid.SampledFrom(contexts).Draw(t, "elsewhere")
			c.Note("get %+v", k)
			check(k)
		},
		"": func(t *rapid.T) {
			for k := range model {
				check(k)
			}
		},
	})
	if len(model) > 1 {
		c.NonTrivial(fmt.Sprint(model))
	}
}

// messages: the scope of a parsed message finds the handler of its operation.
func messages(c *prop.C) {
	reg := &mrpc.OperationRegistry{}
	m := wm.Gen(c.T, rapid.SampledFrom(wm.Ops).Draw(c.T, "op"), 2)
	if rapid.Bool().Draw(c.T, "named") {
		if m.Op == wm.OpMsg {
			m.Sections = append([]wm.Section{{Docs: [][]bm.Field{{bm.F("x", bm.NInt32(1)), bm.F("$db", bm.NString("a"))}}}}, m.Sections...)
		}
		if m.Op == wm.Command && m.Cmd == "" {
			m.Cmd = "x"
		}
	}
	c.Note("%s", m)
	p := m.Parsed()
	msg, err := mongowire.ReadMessage(context.Background(), strings.NewReader(string(m.Encode())))
	if err != nil {
		c.Failf("reading: %v", err)
	}
	k := key{op: p.Op}
	switch p.Op {
	case wm.Reply, wm.CommandReply:
		if msg.Scope() != nil {
			c.Failf("a reply has scope %+v", msg.Scope())
		}
		c.Class("reply")
		return
	case wm.Command:
		k.ctx, k.cmd = p.NS, p.Cmd
	case wm.OpMsg:
		for _, s := range p.Sections {
			if s.Kind == 0 {
				if len(s.Docs[0]) > 0 {
					k.cmd = s.Docs[0][0].K
				}
				for _, f := range s.Docs[0] {
					if f.K == "$db" {
						if f.V.T == bm.String {
							k.ctx = f.V.S
						}
						break
					}
				}
				break
			}
		}
	case wm.KillCursors:
	default:
		k.ctx = p.NS
	}
	if !k.valid() {
		c.Class("scope cannot be registered")
		return
	}
	c.NonTrivial(m.String())
	model := map[key]int{}
	got := 0
	add := func(k key) {
		if _, dup := model[k]; dup || !k.valid() {
			return
		}
		i := len(model) + 1
		model[k] = i
		if err := reg.Add(*k.scope(), func(context.Context, io.Writer, mongowire.Message) { got = i }); err != nil {
			c.Failf("adding %+v: %v", k, err)
		}
	}
	// neighbours first
	for _, o := range wm.Ops {
		if o != k.op {
			add(key{o, k.ctx, k.cmd})
			add(key{o, "", k.cmd})
		}
	}
	for _, d := range []string{"x", ".", "$", " "} {
		add(key{k.op, k.ctx + d, k.cmd})
		add(key{k.op, k.ctx, k.cmd + d})
		add(key{k.op, "", k.cmd + d})
	}
	add(key{k.op, strings.ToUpper(k.ctx), strings.ToUpper(k.cmd) + "_"})
	if rapid.Bool().Draw(c.T, "exact") {
		add(k)
	}
	if rapid.Bool().Draw(c.T, "any context") {
		add(key{k.op, "", k.cmd})
	}
	i, want := lookup(model, k)
	h, ok := reg.Get(msg.Scope())
	if ok != want {
		c.Failf("message of %+v (scope %+v): found %v, want %v", k, msg.Scope(), ok, want)
	}
	if ok {
		c.Class("hit")
		h(context.Background(), io.Discard, msg)
		if got != i {
			c.Failf("message of %+v goes to registration %d, want %d: %v", k, got, i, model)
		}
	}
}

// server runs a service on a free port.
type server struct {
	mrpc.Service
	addr   string
	cancel context.CancelFunc
	done   chan error
	mu     sync.Mutex
	errs   []string
}

func (s *server) errors() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.errs...)
}

func startServer(c *prop.C, setup func(host string, port int, s *server) mrpc.Service) *server {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Failf("no port: %v", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		_ = l.Close()
		s := &server{addr: fmt.Sprintf("127.0.0.1:%d", port), done: make(chan error, 1)}
		s.Service = setup("127.0.0.1", port, s)
		if s.Address() != s.addr {
			c.Failf("service for %s has address %s", s.addr, s.Address())
		}
		s.RegisterErrorHandler(func(err error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.errs = append(s.errs, err.Error())
		})
		ctx, cancel := context.WithCancel(context.Background())
		s.cancel = cancel
		go func() { s.done <- s.Run(ctx) }()
		end := time.Now().Add(patience)
		for {
			conn, err := net.Dial("tcp", s.addr)
			if err == nil {
				_ = conn.Close()
				return s
			}
			select {
			case err := <-s.done:
				cancel()
				if try > 20 {
					c.Failf("service does not start: %v", err)
				}
				goto again
			case <-time.After(time.Millisecond):
			}
			if time.Now().After(end) {
				cancel()
				c.Failf("service does not listen: %v", err)
			}
		}
	again:
	}
}

func (s *server) stop(c *prop.C, conns []net.Conn) {
	s.cancel()
	select {
	case err := <-s.done:
		if err != nil {
			c.Failf("Run returned %v after its context ended", err)
		}
	case <-time.After(patience):
		c.Failf("Run does not return after its context ended")
	}
	for _, conn := range conns {
		_ = conn.SetReadDeadline(time.Now().Add(patience))
		b := make([]byte, 1)
		n, err := conn.Read(b)
		var ne net.Error
		if n > 0 || (errors.As(err, &ne) && ne.Timeout()) {
			c.Failf("connection still open after the service stopped: %d %v", n, err)
		}
		_ = conn.Close()
	}
	if conn, err := net.Dial("tcp", s.addr); err == nil {
		// something else may have taken the port, but it would not be this service.
		_ = conn.SetReadDeadline(time.Now().Add(patience))
		_ = conn.Close()
	}
}

// request draws a request of the scope and its bytes.
func request(t *rapid.T, k key, id int32) *wm.Msg {
	m := &wm.Msg{Op: k.op, Req: id, NS: k.ctx, Cmd: k.cmd}
	doc := func() []bm.Field { return bm.GenDoc(t, bm.Opts{MaxDepth: 1, MaxLen: 3}) }
	switch k.op {
	case wm.Command:
		m.Docs = [][]bm.Field{doc(), doc()}
		if rapid.IntRange(0, 3).Draw(t, "legacy") == 0 && !strings.Contains(k.ctx, ".") {
			m.Op, m.NS, m.NoProject = wm.Query, k.ctx+".$cmd", true
			m.Docs = [][]bm.Field{append([]bm.Field{bm.F(k.cmd, bm.NInt32(1))}, doc()...)}
		}
	case wm.OpMsg:
		body := append([]bm.Field{bm.F(k.cmd, bm.NInt32(1))}, bm.F("n", bm.NInt32(id)))
		if k.ctx != "" {
			body = append(body, bm.F("$db", bm.NString(k.ctx)))
		}
		m.Sections = []wm.Section{{Docs: [][]bm.Field{body}}}
		if rapid.Bool().Draw(t, "sequence") {
			m.Sections = append(m.Sections, wm.Section{Kind: 1, ID: "docs", Docs: [][]bm.Field{doc(), doc()}})
			if rapid.Bool().Draw(t, "sequence first") {
				m.Sections[0], m.Sections[1] = m.Sections[1], m.Sections[0]
			}
		}
	case wm.KillCursors:
		m.IDs = []int64{int64(id)}
	case wm.Update:
		m.Docs = [][]bm.Field{doc(), doc()}
	case wm.GetMore:
	default:
		m.Docs = [][]bm.Field{doc()}
		m.NoProject = true
	}
	return m
}

type seen struct {
	handler int
	req     int32
}

const (
	replies = iota
	panics
	silent
	slow
)

// live: every request of every connection reaches its handler, over a real
// connection.
func live(c *prop.C) {
	t := c.T
	type reg struct {
		k    key
		mode int
	}
	var regs []reg
	model := map[key]int{}
	for i := rapid.IntRange(1, 6).Draw(t, "handlers"); i > 0; i-- {
		k := genValid(t)
		if _, dup := model[k]; dup {
			continue
		}
		model[k] = len(regs)
		regs = append(regs, reg{k, rapid.SampledFrom([]int{replies, replies, replies, panics, silent, slow}).Draw(t, "mode")})
		c.Note("handler %d %+v mode %d", len(regs)-1, k, regs[len(regs)-1].mode)
	}
	type sent struct {
		m       *wm.Msg
		handler int
		ok      bool
		broken  bool
		conn    int
	}
	nconn := rapid.IntRange(1, 4).Draw(t, "connections")
	plan := make([][]sent, nconn)
	id := int32(100)
	for i := range plan {
		for j := rapid.IntRange(0, 8).Draw(t, "requests"); j > 0; j-- {
			id++
			k := regs[rapid.IntRange(0, len(regs)-1).Draw(t, "registered")].k
			r := sent{conn: i}
			switch rapid.IntRange(0, 15).Draw(t, "kind") {
			case 0: // another scope, perhaps one nobody registered
				k = genValid(t)
			case 1: // not a request
				r.m = wm.Gen(t, rapid.SampledFrom([]int32{wm.Reply, wm.CommandReply}).Draw(t, "reply"), 1)
			case 2:
				r.m, r.broken = request(t, k, id), true
			case 3, 4:
				if k.op == wm.Command || k.op == wm.OpMsg {
					k.ctx = rapid.SampledFrom(contexts).Draw(t, "elsewhere")
				}
			}
			if r.m == nil {
				r.m = request(t, k, id)
				r.handler, r.ok = lookup(model, k)
			}
			c.Note("connection %d: %s %+v handler %d %v broken %v", i, r.m, k, r.handler, r.ok, r.broken)
			plan[i] = append(plan[i], r)
			if !r.ok {
				break // the connection ends here
			}
		}
	}
	cut := rapid.IntRange(1, 64).Draw(t, "chunk")
	hangUp := rapid.SliceOfN(rapid.Bool(), nconn, nconn).Draw(t, "last sends nothing more")

	var mu sync.Mutex
	got := map[seen]int{}
	released := make(chan struct{})
	s := startServer(c, func(host string, port int, s *server) mrpc.Service {
		svc := mrpc.NewBasicService(host, port)
		for i, r := range regs {
			i, mode := i, r.mode
			err := svc.RegisterOperation(r.k.scope(), func(ctx context.Context, w io.Writer, m mongowire.Message) {
				req := m.Header().RequestID
				mu.Lock()
				got[seen{i, req}]++
				mu.Unlock()
				switch mode {
				case panics:
					panic(fmt.Sprintf("handler %d", i))
				case silent:
					return
				case slow:
					<-released
				}
				doc := birch.DC.Elements(birch.EC.Int("handler", i), birch.EC.Int32("request", req))
				var resp mongowire.Message
				if m.Header().OpCode == mongowire.OP_MSG {
					resp = mongowire.NewOpMessage(false, []birch.Document{*doc})
				} else {
					resp = mongowire.NewReply(0, 0, 0, 1, []birch.Document{*doc})
				}
				_ = mongowire.SendMessage(ctx, resp, w)
			})
			if err != nil {
				c.Failf("registering %+v: %v", r.k, err)
			}
		}
		return svc
	})

	conns := make([]net.Conn, nconn)
	var wg sync.WaitGroup
	fails := make([]string, nconn)
	closing := make([]bool, nconn)
	for i := range plan {
		conn, err := net.Dial("tcp", s.addr)
		if err != nil {
			c.Failf("connection %d: %v", i, err)
		}
		conns[i] = conn
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = conn.SetDeadline(time.Now().Add(patience))
			var all []byte
			want := map[int]map[int32]bool{} // handler -> requests to be answered
			n := 0
			for _, r := range plan[i] {
				b := r.m.Encode()
				if r.broken {
					b = b[:len(b)-1]
				}
				all = append(all, b...)
				if !r.ok {
					closing[i] = true
				}
				if r.ok && regs[r.handler].mode != panics && regs[r.handler].mode != silent {
					if want[r.handler] == nil {
						want[r.handler] = map[int32]bool{}
					}
					want[r.handler][r.m.Req] = true
					n++
				}
			}
			broken := len(plan[i]) > 0 && plan[i][len(plan[i])-1].broken
			go func() {
				for at := 0; at < len(all); at += cut * 7 {
					if _, err := conn.Write(all[at:min(len(all), at+cut*7)]); err != nil {
						return
					}
				}
				if broken || hangUp[i] {
					_ = conn.(*net.TCPConn).CloseWrite()
				}
			}()
			for ; n > 0; n-- {
				m, err := mongowire.ReadMessage(context.Background(), conn)
				if err != nil {
					fails[i] = fmt.Sprintf("%d replies missing: %v", n, err)
					return
				}
				d, err := shell.ResponseMessageToDocument(m)
				if err != nil {
					fails[i] = err.Error()
					return
				}
				h, req := d.Lookup("handler").Int(), d.Lookup("request").Int32()
				if !want[h][req] {
					fails[i] = fmt.Sprintf("unexpected or repeated reply of handler %d to request %d", h, req)
					return
				}
				delete(want[h], req)
			}
			if closing[i] || hangUp[i] {
				m, err := mongowire.ReadMessage(context.Background(), conn)
				var ne net.Error
				if err == nil {
					fails[i] = fmt.Sprintf("unexpected message %+v at the end", m)
				} else if errors.As(err, &ne) && ne.Timeout() {
					fails[i] = "connection not closed"
				}
			}
		}()
	}
	// the slow handlers wait until other requests had their chance.
	time.Sleep(time.Duration(rapid.IntRange(0, 2).Draw(t, "ms")) * time.Millisecond)
	close(released)
	wg.Wait()
	for i, f := range fails {
		if f != "" {
			c.Failf("connection %d: %s; errors %q", i, f, s.errors())
		}
	}
	// every request was handled once, by its handler.
	want := map[seen]int{}
	reports, total := 0, 0
	for _, p := range plan {
		for _, r := range p {
			total++
			if r.ok {
				want[seen{r.handler, r.m.Req}]++
				if regs[r.handler].mode == panics {
					reports++
				}
			} else {
				reports++
			}
		}
	}
	settled := func() string {
		mu.Lock()
		defer mu.Unlock()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("handled %v, want %v", got, want)
		}
		if e := s.errors(); len(e) < reports {
			return fmt.Sprintf("%d failures, %d reported: %q", reports, len(e), e)
		}
		return ""
	}
	end := time.Now().Add(patience)
	for settled() != "" {
		if time.Now().After(end) {
			c.Failf("%s", settled())
		}
		time.Sleep(time.Millisecond)
	}
	// and the service still serves.
	if last, err := net.Dial("tcp", s.addr); err != nil {
		c.Failf("service no longer accepts connections: %v", err)
	} else {
		for i, r := range regs {
			if r.mode != replies {
				continue
			}
			m := request(t, r.k, int32(7000+i))
			_ = last.SetDeadline(time.Now().Add(patience))
			if _, err := last.Write(m.Encode()); err != nil {
				c.Failf("later request: %v", err)
			}
			resp, err := mongowire.ReadMessage(context.Background(), last)
			if err != nil {
				c.Failf("later request to handler %d: %v", i, err)
			}
			d, err := shell.ResponseMessageToDocument(resp)
			if err != nil || d.Lookup("handler").Int() != i || int(d.Lookup("request").Int32()) != 7000+i {
				c.Failf("later request to handler %d: %v %v", i, d, err)
			}
		}
		conns = append(conns, last)
	}
	if total > 1 {
		c.NonTrivial(fmt.Sprint(model, plan, cut))
	}
	if reports > 0 {
		c.Class("failures")
	}
	s.stop(c, conns)
	if e := s.errors(); reports == 0 && len(e) > 0 {
		for _, x := range e {
			if !strings.Contains(x, "connection") {
				c.Failf("errors reported though nothing failed: %q", e)
			}
		}
	}
}

// together: handlers run at the same time, also those of one connection; their
// contexts end with the service; every error handler learns of every error.
func together(c *prop.C) {
	t := c.T
	var regs []key
	model := map[key]int{}
	for i := rapid.IntRange(1, 4).Draw(t, "handlers"); i > 0; i-- {
		k := genValid(t)
		if _, dup := model[k]; !dup {
			model[k] = len(regs)
			regs = append(regs, k)
		}
	}
	nconn := rapid.IntRange(1, 3).Draw(t, "connections")
	plan := make([][]*wm.Msg, nconn)
	total := 0
	for i := range plan {
		for j := rapid.IntRange(1, 5).Draw(t, "requests"); j > 0; j-- {
			total++
			m := request(t, regs[rapid.IntRange(0, len(regs)-1).Draw(t, "registered")], int32(100+total))
			c.Note("connection %d: %s", i, m)
			plan[i] = append(plan[i], m)
		}
	}
	// each request waits until all of them have arrived; then some panic, some
	// finish, and the others wait for the end of the service.
	const (
		finishes = iota
		fails
		waits
	)
	ends := rapid.SliceOfN(rapid.SampledFrom([]int{finishes, fails, waits}), total, total).Draw(t, "ends")
	nerr := rapid.IntRange(0, 3).Draw(t, "error handlers")
	c.Note("requests end by %v, %d more error handlers", ends, nerr)
	c.NonTrivial(fmt.Sprint(plan, ends, nerr))

	var mu sync.Mutex
	arrived := 0
	all := make(chan struct{})
	stuck := make(chan struct{})
	var finished sync.WaitGroup
	finished.Add(total)
	errs := make([][]string, nerr)
	s := startServer(c, func(host string, port int, s *server) mrpc.Service {
		svc := mrpc.NewBasicService(host, port)
		for i := range errs {
			svc.RegisterErrorHandler(func(err error) {
				mu.Lock()
				defer mu.Unlock()
				errs[i] = append(errs[i], err.Error())
			})
		}
		for _, k := range regs {
			err := svc.RegisterOperation(k.scope(), func(ctx context.Context, w io.Writer, m mongowire.Message) {
				defer finished.Done()
				mu.Lock()
				if arrived++; arrived == total {
					close(all)
				}
				mu.Unlock()
				select {
				case <-all:
				case <-stuck:
					return
				}
				switch ends[m.Header().RequestID-101] {
				case fails:
					panic(fmt.Sprintf("request %d", m.Header().RequestID))
				case waits:
					select {
					case <-ctx.Done():
					case <-stuck:
					}
				}
			})
			if err != nil {
				c.Failf("registering %+v: %v", k, err)
			}
		}
		return svc
	})
	var conns []net.Conn
	for i := range plan {
		conn, err := net.Dial("tcp", s.addr)
		if err != nil {
			c.Failf("connection %d: %v", i, err)
		}
		conns = append(conns, conn)
	}
	for i := range plan {
		var b []byte
		for _, m := range plan[i] {
			b = append(b, m.Encode()...)
		}
		if _, err := conns[i].Write(b); err != nil {
			c.Failf("connection %d: %v", i, err)
		}
	}
	await := func(ch <-chan struct{}, what string) {
		select {
		case <-ch:
		case <-time.After(patience):
			close(stuck)
			mu.Lock()
			defer mu.Unlock()
			c.Failf("%s (%d of %d requests arrived); errors %q", what, arrived, total, s.errors())
		}
	}
	await(all, "the handlers do not run at the same time")
	want := 0
	for _, e := range ends {
		if e == fails {
			want++
		}
	}
	// every error handler is told of every panic.
	count := func() string {
		mu.Lock()
		defer mu.Unlock()
		for i, list := range append(errs[:len(errs):len(errs)], s.errors()) {
			n := 0
			for _, e := range list {
				if strings.Contains(e, "request ") {
					n++
				}
			}
			if n < want {
				return fmt.Sprintf("error handler %d of %d learned of %d of %d panics: %q", i, nerr, n, want, list)
			}
		}
		return ""
	}
	for end := time.Now().Add(patience); count() != ""; time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			close(stuck)
			c.Failf("%s", count())
		}
	}
	s.stop(c, conns)
	over := make(chan struct{})
	go func() { finished.Wait(); close(over) }()
	await(over, "handlers still wait for their contexts to end after the service stopped")
	if e := count(); e != "" {
		c.Failf("%s", e)
	}
}

var shellCommands = []string{"isMaster", "whatsmyuri", "buildInfo", "buildinfo", "endSessions", "getCmdLineOpts", "getLog", "getFreeMonitoringStatus", "replSetGetStatus", "listCollections"}

// shells: a shell service answers the shell's commands, in any database and
// either protocol.
func shells(c *prop.C) {
	t := c.T
	over := rapid.Bool().Draw(t, "over an existing service")
	s := startServer(c, func(host string, port int, s *server) mrpc.Service {
		var svc mrpc.Service
		var err error
		if over {
			svc, err = shell.MakeShellService(mrpc.NewBasicService(host, port))
		} else {
			svc, err = shell.NewShellService(host, port)
		}
		if err != nil {
			c.Failf("no shell service: %v", err)
		}
		return svc
	})
	conn, err := net.Dial("tcp", s.addr)
	if err != nil {
		c.Failf("%v", err)
	}
	_ = conn.SetDeadline(time.Now().Add(patience))
	var used []string
	for i := rapid.IntRange(1, 12).Draw(t, "requests"); i > 0; i-- {
		name := rapid.SampledFrom(shellCommands).Draw(t, "command")
		op := rapid.SampledFrom([]int32{wm.Command, wm.OpMsg}).Draw(t, "op")
		m := request(t, key{op, rapid.SampledFrom(contexts).Draw(t, "db"), name}, int32(i))
		c.Note("%s", m)
		used = append(used, fmt.Sprint(op, name))
		if _, err := conn.Write(m.Encode()); err != nil {
			c.Failf("%v", err)
		}
		resp, err := mongowire.ReadMessage(context.Background(), conn)
		if err != nil {
			c.Failf("reply to %s: %v; %q", name, err, s.errors())
		}
		wantOp := mongowire.OP_REPLY
		if m.Op == wm.OpMsg {
			wantOp = mongowire.OP_MSG
		}
		if resp.Header().OpCode != wantOp {
			c.Failf("reply to %s of op %d is a %s", name, m.Op, resp.Header().OpCode)
		}
		d, err := shell.ResponseMessageToDocument(resp)
		if err != nil {
			c.Failf("reply to %s: %v", name, err)
		}
		var r shell.ErrorResponse
		if err := r.UnmarshalDocument(d); err != nil {
			c.Failf("reply to %s: %v", name, err)
		}
		ok := 1
		bad := ""
		switch name {
		case "isMaster":
			lo, hi := d.Lookup("minWireVersion").Int(), d.Lookup("maxWireVersion").Int()
			if lo > hi || hi < 6 {
				bad = "wire versions"
			}
		case "whatsmyuri":
			if d.Lookup("you").StringValue() != s.addr {
				bad = "uri"
			}
		case "buildInfo", "buildinfo":
			if d.Lookup("version").StringValue() == "" {
				bad = "version"
			}
		case "getLog":
			if d.Lookup("log").MutableArray().Len() != 0 {
				bad = "log"
			}
		default:
			ok = 0
		}
		if r.OK != ok || r.ErrorMessage != "" || bad != "" {
			c.Failf("reply to %s: %s (%s)", name, d, bad)
		}
	}
	sort.Strings(used)
	c.NonTrivial(fmt.Sprint(used))
	if rapid.Bool().Draw(t, "unknown") {
		m := request(t, key{rapid.SampledFrom([]int32{wm.Command, wm.OpMsg}).Draw(t, "op"), "a", "ISMASTER"}, 1)
		_, _ = conn.Write(m.Encode())
		if resp, err := mongowire.ReadMessage(context.Background(), conn); err == nil {
			c.Failf("an unknown command has the reply %v", resp)
		}
		c.Class("unknown")
	}
	// registering the commands twice is refused.
	if _, err := shell.MakeShellService(s.Service); err == nil {
		c.Failf("commands registered twice")
	}
	s.stop(c, []net.Conn{conn})
}

func main() {
	prop.Main(prop.Spec{
		ID:   "M03",
		Rule: "two or more scopes registered, a message whose scope can be registered, two or more requests over live connections; distinct by registrations, messages and requests",
		Assumptions: []string{
			"the service listens on the loopback network; waits are bounded by 30 s",
			"the library has no way to say which request a reply answers: handlers put the request id in the reply",
			"a request of an undefined scope, or one that is not a request, ends its connection once the requests before it are answered",
		},
		Subs: []prop.Sub{
			{Name: "registry", Quick: 3000, Thorough: 100000, Steps: 40, Fn: registry},
			{Name: "messages", Quick: 4000, Thorough: 200000, Fn: messages},
			{Name: "live", Quick: 300, Thorough: 12000, HangIsViolation: true, Fn: live},
			{Name: "together", Quick: 400, Thorough: 15000, HangIsViolation: true, Fn: together},
			{Name: "shell", Quick: 150, Thorough: 6000, HangIsViolation: true, Fn: shells},
		},
	})
}
