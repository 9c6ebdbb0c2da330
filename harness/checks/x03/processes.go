package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/shirou/gopsutil/net"
	"github.com/shirou/gopsutil/process"
	"github.com/tychoish/birch/x/ftdc/metrics"
	"pgregory.net/rapid"
	"verif/harness/prop"
)

// holders are processes that do nothing but exist: process snapshots ask the
// kernel whether a process exists before they read about it. They end with
// this process, at the end of their input.
var holders = sync.OnceValue(func() []int {
	r, _, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	var pids []int
	for range 9 {
		cmd := exec.Command("cat")
		cmd.Stdin = r
		cmd.Stdout = io.Discard
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		pids = append(pids, cmd.Process.Pid)
	}
	return pids
})

// nobody is never the id of a process.
const nobody = 2_000_000_000

type proc struct {
	pid, parent          int
	children             []int
	threads              int
	args                 []string
	utime, stime, iowait uint64
	statm                [7]uint64
	io                   [4]uint64 // calls and bytes read and written
	net                  net.IOCountersStat
	missing              map[string]bool
}

// inKernel puts a directory in the place of the kernel's file systems.
func inKernel(dir string, vars map[string]string) func() {
	for _, k := range []string{"HOST_PROC", "HOST_SYS", "HOST_DEV", "HOST_RUN", "HOST_ETC"} {
		vars[k] = dir
	}
	var undo []func()
	for k, v := range vars {
		old, had := os.LookupEnv(k)
		_ = os.Setenv(k, v)
		undo = append(undo, func() {
			if had {
				_ = os.Setenv(k, old)
			} else {
				_ = os.Unsetenv(k)
			}
		})
	}
	return func() {
		for _, f := range undo {
			f()
		}
	}
}

func processes(c *prop.C) {
	t := c.T
	dir, err := os.MkdirTemp("", "verif-x03-")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	write := func(name, content string, mode os.FileMode) {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(content), mode); err != nil {
			panic(err)
		}
	}
	num := func(label string) uint64 {
		return rapid.OneOf(rapid.Uint64Range(0, 9), rapid.Uint64Range(0, 1<<40)).Draw(t, label)
	}
	pids := append([]int{os.Getpid()}, holders()...)[:rapid.IntRange(1, 10).Draw(t, "processes")]
	if rapid.Bool().Draw(t, "shuffle") {
		pids = rapid.Permutation(pids).Draw(t, "pids")
	}
	procs := map[int]*proc{}
	for i, pid := range pids {
		p := &proc{pid: pid, missing: map[string]bool{}}
		procs[pid] = p
		if i > 0 {
			// chains and fans are as likely as anything between
			p.parent = pids[rapid.SampledFrom([]int{i - 1, 0, rapid.IntRange(0, i-1).Draw(t, "parent")}).Draw(t, "which parent")]
			procs[p.parent].children = append(procs[p.parent].children, pid)
		} else {
			p.parent = rapid.SampledFrom([]int{0, 1, nobody}).Draw(t, "outer parent")
		}
		p.threads = rapid.IntRange(0, 100000).Draw(t, "threads")
		p.args = rapid.SliceOfN(rapid.StringMatching(`[ -~é世]{1,8}`), 0, 4).Draw(t, "args")
		p.utime, p.stime, p.iowait = num("utime"), num("stime"), num("iowait")
		for j := range p.statm {
			p.statm[j] = num("statm") >> 4
		}
		for j := range p.io {
			p.io[j] = num("io")
		}
		for _, f := range []string{"stat", "status", "statm", "cmdline", "io", "net/dev"} {
			if rapid.IntRange(0, 15).Draw(t, "missing") == 0 {
				p.missing[f] = true
			}
		}
		file := func(name, content string) {
			if !p.missing[name] {
				write(fmt.Sprintf("%d/%s", pid, name), content, 0o644)
			}
		}
		comm := rapid.SampledFrom([]string{"cat", "a b", "(x) y)", ""}).Draw(t, "comm")
		file("stat", fmt.Sprintf("%d (%s) S %d 1 1 0 -1 4194560 1 2 3 4 %d %d 0 0 20 0 1 0 7 %s%d 0 0\n", pid, comm, p.parent, p.utime, p.stime, strings.Repeat("0 ", 19), p.iowait))
		file("status", fmt.Sprintf("Name:\t%s\nState:\tS (sleeping)\nTgid:\t%d\nPid:\t%d\nPPid:\t%d\nUid:\t0\t0\t0\t0\nGid:\t0\t0\t0\t0\nThreads:\t%d\nvoluntary_ctxt_switches:\t1\n", comm, pid, pid, p.parent, p.threads))
		file("statm", strings.Trim(fmt.Sprint(p.statm), "[]")+"\n")
		file("cmdline", strings.Join(p.args, "\x00")+rapid.SampledFrom([]string{"\x00", ""}).Draw(t, "end"))
		file("io", fmt.Sprintf("rchar: 1\nwchar: 2\nsyscr: %d\nsyscw: %d\nread_bytes: %d\nwrite_bytes: %d\ncancelled_write_bytes: 3\n", p.io[0], p.io[1], p.io[2], p.io[3]))
		text := "Inter-|   Receive                                                |  Transmit\n face |bytes    packets errs drop fifo frame compressed multicast|bytes    packets errs drop fifo colls carrier compressed\n"
		p.net.Name = "all"
		for j := range rapid.IntRange(1, 2).Draw(t, "interfaces") {
			var f [16]uint64
			for k := range f {
				f[k] = num("net")
			}
			f[4], f[12] = 0, 0
			text += fmt.Sprintf(" eth%d: %s\n", j, strings.Trim(fmt.Sprint(f), "[]"))
			p.net.BytesRecv += f[0]
			p.net.PacketsRecv += f[1]
			p.net.Errin += f[2]
			p.net.Dropin += f[3]
			p.net.BytesSent += f[8]
			p.net.PacketsSent += f[9]
			p.net.Errout += f[10]
			p.net.Dropout += f[11]
		}
		file("net/dev", text)
		write(fmt.Sprintf("%d/here", pid), "", 0o644)
	}
	// a process that has ended
	write(fmt.Sprintf("%d/here", nobody), "", 0o644)
	write("stat", "cpu 1 2 3 4 5 6 7 8 9 10\nbtime 1\n", 0o644)
	for _, p := range procs {
		text := ""
		for _, ch := range p.children {
			text += fmt.Sprintln(ch)
		}
		if text != "" {
			write(fmt.Sprintf("children/%d", p.pid), text, 0o644)
		}
	}
	write("bin/pgrep", fmt.Sprintf("#!/bin/sh\nexec cat '%s/children/'\"$2\" 2>/dev/null\n", dir), 0o755)
	defer inKernel(dir, map[string]string{"PATH": filepath.Join(dir, "bin") + ":" + os.Getenv("PATH")})()
	c.Note("%d processes: %v", len(pids), pids)

	check := func(s *metrics.ProcessInfo, message string) {
		p := procs[int(s.Pid)]
		if p == nil {
			c.Failf("a snapshot of process %d, which does not exist: %+v", s.Pid, s)
		}
		differs := func(what string, got, want any) {
			if fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", want) {
				c.Failf("%s of process %d: %#v\n want %#v (missing %v)", what, p.pid, got, want, p.missing)
			}
		}
		threads, parent := p.threads, p.parent
		if p.missing["status"] {
			threads = 0
			// either file has the parent
			if int(s.Parent) == 0 {
				parent = 0
			}
		}
		if p.missing["stat"] && int(s.Parent) == 0 {
			parent = 0
		}
		differs("parent", int(s.Parent), parent)
		differs("threads", s.Threads, threads)
		command := ""
		if !p.missing["cmdline"] {
			command = strings.Join(p.args, " ")
		}
		differs("command", s.Command, command)
		var io process.IOCountersStat
		if !p.missing["io"] {
			io = process.IOCountersStat{ReadCount: p.io[0], WriteCount: p.io[1], ReadBytes: p.io[2], WriteBytes: p.io[3]}
		}
		differs("io", s.IoStat, io)
		page := uint64(os.Getpagesize())
		var m process.MemoryInfoStat
		var ex process.MemoryInfoExStat
		if !p.missing["statm"] {
			m = process.MemoryInfoStat{VMS: p.statm[0] * page, RSS: p.statm[1] * page}
			ex = process.MemoryInfoExStat{VMS: p.statm[0] * page, RSS: p.statm[1] * page, Shared: p.statm[2] * page, Text: p.statm[3] * page, Lib: p.statm[4] * page, Dirty: p.statm[5] * page}
		}
		differs("memory", s.Memory, m)
		differs("extended memory", s.MemoryPlatform, ex)
		if p.missing["net/dev"] {
			differs("interfaces", len(s.NetStat), 0)
		} else {
			differs("network", s.NetStat, []net.IOCountersStat{p.net})
		}
		var cpu [3]uint64
		if !p.missing["stat"] {
			cpu = [3]uint64{p.utime, p.stime, p.iowait}
		}
		for i, g := range []int64{s.CPU.User, s.CPU.System, s.CPU.Iowait} {
			if d := g - int64(cpu[i]); d < -1 || d > 1 {
				c.Failf("CPU times of process %d: %+v, want %v", p.pid, s.CPU, cpu)
			}
		}
		for f := range p.missing {
			found := false
			for _, e := range s.Errors {
				found = found || strings.Contains(e, fmt.Sprintf("%s/%d/%s:", dir, p.pid, f))
			}
			if !found {
				c.Failf("the errors of process %d do not say that %s is missing: %q", p.pid, f, s.Errors)
			}
		}
		if len(p.missing) == 0 && len(s.Errors) > 0 {
			c.Failf("process %d has errors: %q", p.pid, s.Errors)
		}
		doc, err := s.MarshalDocument()
		if err != nil {
			c.Failf("%v", err)
		}
		compare(c, doc, s)
	}
	var descend func(pid int) []int
	descend = func(pid int) []int {
		out := []int{pid}
		for _, ch := range procs[pid].children {
			out = append(out, descend(ch)...)
		}
		return out
	}
	same := func(what string, got []*metrics.ProcessInfo, want []int) {
		var pids []int
		for _, s := range got {
			pids = append(pids, int(s.Pid))
		}
		if len(want) > 0 && len(pids) > 0 && what != "all processes" && pids[0] != want[0] {
			c.Failf("%s: %v, want %d first", what, pids, want[0])
		}
		sort.Ints(pids)
		sort.Ints(want)
		if fmt.Sprint(pids) != fmt.Sprint(want) {
			c.Failf("%s: %v, want %v", what, pids, want)
		}
		for _, s := range got {
			check(s, "")
		}
	}
	steps := rapid.IntRange(1, 4).Draw(t, "steps")
	var log []string
	for range steps {
		pid := rapid.SampledFrom(pids).Draw(t, "pid")
		kind := rapid.SampledFrom([]string{"one", "tree", "all", "self", "self and children", "gone", "message"}).Draw(t, "kind")
		_, selfKnown := procs[os.Getpid()]
		if strings.HasPrefix(kind, "self") && !selfKnown {
			kind = "all"
		}
		log = append(log, kind)
		c.Note("%s %d", kind, pid)
		one := func(s *metrics.ProcessInfo, pid int) {
			if s == nil || int(s.Pid) != pid {
				c.Failf("%s of %d is %+v", kind, pid, s)
			}
			check(s, "")
		}
		switch kind {
		case "one":
			one(metrics.CollectProcessInfo(int32(pid)), pid)
		case "message":
			one(metrics.MakeProcessInfo(int32(pid), "a message"), pid)
		case "tree":
			same("a tree", metrics.CollectProcessInfoWithChildren(int32(pid)), descend(pid))
		case "all":
			same("all processes", metrics.CollectAllProcesses(), append([]int{}, pids...))
		case "self":
			one(metrics.CollectProcessInfoSelf(), os.Getpid())
		case "self and children":
			same("a tree", metrics.CollectProcessInfoSelfWithChildren(), descend(os.Getpid()))
		case "gone":
			gone := rapid.SampledFrom([]int32{nobody, 0, -1}).Draw(t, "gone")
			if s := metrics.CollectProcessInfo(gone); s == nil || len(s.Errors) == 0 {
				c.Failf("a snapshot of process %d without errors: %+v", gone, s)
			}
			if l := metrics.CollectProcessInfoWithChildren(gone); len(l) > 0 {
				c.Failf("snapshots of process %d, which does not exist: %+v", gone, l[0])
			}
		}
	}
	if len(pids) > 1 {
		c.NonTrivial(fmt.Sprint(log, len(pids), procs[pids[0]].statm, procs[pids[len(pids)-1]].io))
	}
}
