// X03: snapshots of the system, processes and the Go runtime keep their values.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/shirou/gopsutil/disk"
	"github.com/shirou/gopsutil/net"
	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/metrics"
	"pgregory.net/rapid"
	"verif/harness/bm"
	"verif/harness/prop"
)

// renamed has the fields whose name in documents differs from their tag;
// fields renamed to "" are not part of documents.
var renamed = map[string]string{
	"num_cpus":            "num_cpu",
	"numThreads":          "threads",
	"vmstat.committedas":  "vmstat.commitedas",
	"vmstat.hugepagesize": "vmstat.hugepagessize",
	"errors":              "",
	"usage.inodesUsed":    "",
}

// flatten lists the leaves of a struct under the names of their tags, with the
// index of array elements in the path.
func flatten(v reflect.Value, plain, path string, out map[string]any) {
	switch x := v.Interface().(type) {
	case time.Time:
		out[path] = x.UnixMilli()
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			flatten(v.Elem(), plain, path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			// documents of the runtime use the names for BSON
			tag := f.Tag.Get("bson")
			if tag == "" {
				tag = f.Tag.Get("json")
			}
			tag, _, _ = strings.Cut(tag, ",")
			p := tag
			if plain != "" {
				p = plain + "." + tag
			}
			name := tag
			if r, ok := renamed[p]; ok {
				if r == "" {
					continue
				}
				name = r[strings.LastIndex(r, ".")+1:]
			}
			flatten(v.Field(i), p, path+"/"+name, out)
		}
	case reflect.Slice:
		out[path+"#"] = int64(v.Len())
		for i := 0; i < v.Len(); i++ {
			flatten(v.Index(i), plain, fmt.Sprintf("%s/%d", path, i), out)
		}
	case reflect.String:
		out[path] = v.String()
	case reflect.Float64:
		if plain == "vmstat.usedPercent" {
			out[path] = int64(v.Float())
		} else {
			out[path] = v.Float()
		}
	case reflect.Uint64, reflect.Uint32:
		out[path] = int64(v.Uint())
	default:
		out[path] = v.Int()
	}
}

// leaves lists the leaves of a document the same way.
func leaves(fs []bm.Field, path string, array bool, out map[string]any) error {
	for i, f := range fs {
		p := path + "/" + f.K
		if array {
			p = fmt.Sprintf("%s/%d", path, i)
		}
		if _, ok := out[p]; ok {
			return fmt.Errorf("%s appears twice", p)
		}
		switch f.V.T {
		case bm.Doc:
			if err := leaves(f.V.Kids, p, false, out); err != nil {
				return err
			}
		case bm.Array:
			out[p+"#"] = int64(len(f.V.Kids))
			if err := leaves(f.V.Kids, p, true, out); err != nil {
				return err
			}
		case bm.String:
			out[p] = f.V.S
		case bm.Double:
			out[p] = f.V.Float()
		case bm.Int32:
			out[p] = int64(int32(f.V.U))
		case bm.Int64, bm.DateTime:
			out[p] = int64(f.V.U)
		default:
			return fmt.Errorf("%s is %s", p, f.V)
		}
	}
	return nil
}

func compare(c *prop.C, doc *birch.Document, s any) {
	fs, err := bm.FromDocErr(doc)
	if err != nil {
		c.Failf("reading the document: %v", err)
	}
	got, want := map[string]any{}, map[string]any{}
	if err := leaves(fs, "", false, got); err != nil {
		c.Failf("%v in %s", err, bm.Show(fs))
	}
	flatten(reflect.ValueOf(s), "", "", want)
	var paths []string
	for p := range want {
		paths = append(paths, p)
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		g, w := got[p], want[p]
		if gf, ok := g.(float64); ok {
			wf, ok := w.(float64)
			if ok && math.Float64bits(gf) == math.Float64bits(wf) {
				continue
			}
		} else if g == w {
			continue
		}
		c.Failf("%s is %v, want %v, of %T %+v", p, g, w, s, s)
	}
}

// fill sets the fields of a struct.
func fill(t *rapid.T, v reflect.Value, label string) {
	if _, ok := v.Interface().(time.Time); ok {
		v.Set(reflect.ValueOf(time.UnixMilli(rapid.Int64Range(-1<<40, 1<<42).Draw(t, label))))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if rapid.IntRange(0, 3).Draw(t, label+" nil") == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(t, v.Elem(), label)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill(t, v.Field(i), v.Type().Field(i).Name)
			}
		}
	case reflect.Slice:
		n := rapid.IntRange(0, 3).Draw(t, label+" len")
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(t, v.Index(i), label)
		}
	case reflect.String:
		v.SetString(bm.Str().Draw(t, label))
	case reflect.Float64:
		f := bm.InterestingFloat(false).Draw(t, label)
		if label == "UsedPercent" {
			f = rapid.Float64Range(0, 100).Draw(t, label)
		}
		v.SetFloat(f)
	case reflect.Uint64:
		v.SetUint(rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 9)).Draw(t, label))
	case reflect.Int32:
		v.SetInt(int64(rapid.Int32().Draw(t, label)))
	default:
		v.SetInt(bm.InterestingInt64().Draw(t, label))
	}
}

func marshal(c *prop.C) {
	t := c.T
	var s birch.DocumentMarshaler
	switch rapid.IntRange(0, 3).Draw(t, "type") {
	case 0:
		s = &metrics.SystemInfo{}
	case 1:
		s = &metrics.ProcessInfo{}
	case 2:
		s = &metrics.GoRuntimeInfo{}
	default:
		// the parts are compared on their own
		r := &metrics.Runtime{}
		fill(t, reflect.ValueOf(r).Elem(), "runtime")
		c.Class("Runtime")
		c.Note("%+v", r)
		doc, err := r.MarshalDocument()
		if err != nil {
			c.Failf("%v", err)
		}
		want := []string{"id", "ts", "pid"}
		for _, part := range []struct {
			key  string
			s    birch.DocumentMarshaler
			none bool
		}{{"golang", r.Golang, r.Golang == nil}, {"system", r.System, r.System == nil}, {"process", r.Process, r.Process == nil}} {
			if part.none {
				continue
			}
			want = append(want, part.key)
			if sub, ok := doc.Lookup(part.key).MutableDocumentOK(); ok {
				compare(c, sub, part.s)
			}
		}
		fs, err := bm.FromDocErr(doc)
		if err != nil {
			c.Failf("%v", err)
		}
		var keys []string
		for _, f := range fs {
			keys = append(keys, f.K)
		}
		if fmt.Sprint(keys) != fmt.Sprint(want) {
			c.Failf("the document has %q, want %q", keys, want)
		}
		head := map[string]any{}
		if err := leaves(fs[:3], "", false, head); err != nil {
			c.Failf("%v", err)
		}
		if head["/id"] != int64(r.ID) || head["/pid"] != int64(r.PID) || head["/ts"] != r.Timestamp.UnixMilli() || fs[1].V.T != bm.DateTime {
			c.Failf("the document of %+v has %v", r, head)
		}
		c.NonTrivial(fmt.Sprintf("%+v", r))
		return
	}
	fill(t, reflect.ValueOf(s).Elem(), "s")
	c.Class(fmt.Sprintf("%T", s))
	c.Note("%+v", s)
	doc, err := s.MarshalDocument()
	if err != nil {
		c.Failf("%v", err)
	}
	compare(c, doc, s)
	c.NonTrivial(fmt.Sprintf("%+v", s))
}

// counters are what the runtime reports around a collection.
type counters struct {
	mem                     runtime.MemStats
	mallocs, frees, gc, cgo int64
	last                    int64
	pause                   uint64
	at                      time.Time
}

func measure() counters {
	var m runtime.MemStats
	at := time.Now()
	runtime.ReadMemStats(&m)
	return counters{m, int64(m.Mallocs), int64(m.Frees), int64(m.NumGC), runtime.NumCgoCall(), int64(m.LastGC), m.PauseNs[(m.NumGC+255)%256], at}
}

var sink []any

func work(t *rapid.T) {
	switch rapid.IntRange(0, 5).Draw(t, "work") {
	case 0:
		runtime.GC()
	case 1:
		n := rapid.IntRange(1, 5000).Draw(t, "objects")
		for i := 0; i < n; i++ {
			sink = append(sink, new([3]int))
		}
	case 2:
		sink = nil
	case 3:
		sink = nil
		runtime.GC()
	case 4: // rarely: a while after a collection
		if rapid.IntRange(0, 19).Draw(t, "wait") == 0 {
			time.Sleep(30 * time.Millisecond)
		}
	}
}

func gostats(c *prop.C) {
	t := c.T
	// the first collection starts the history of this case
	p1 := measure()
	metrics.CollectGoStatsTotals()
	p2 := measure()
	steps := rapid.IntRange(1, 12).Draw(t, "steps")
	var log []string
	for i := 0; i < steps; i++ {
		work(t)
		kind := rapid.SampledFrom([]string{"totals", "current", "deltas", "rates", "basic"}).Draw(t, "kind")
		log = append(log, kind)
		var info *metrics.GoRuntimeInfo
		var basic map[string]any
		m1 := measure()
		switch kind {
		case "totals":
			info = metrics.CollectGoStatsTotals()
		case "current":
			info = metrics.CollectGoStatsCurrent("msg")
		case "deltas":
			info = metrics.CollectGoStatsDeltas()
		case "rates":
			info = metrics.CollectGoStatsRates()
		case "basic":
			basic = metrics.CollectBasicGoStats()
		}
		m2 := measure()
		within := func(what string, got, lo, hi int64) {
			if got < lo || got > hi {
				c.Failf("%s after %q are %d, want %d to %d", what, log, got, lo, hi)
			}
		}
		// collections are at most this far apart; they are at least minSpan apart
		minSpan, maxSpan := float64(m1.at.Sub(p2.at)), float64(m2.at.Sub(p1.at))
		rate := func(what string, got any, lo, hi int64) {
			f, ok := got.(float64)
			if !ok || f < float64(lo)/maxSpan*(1-1e-9) || minSpan > 0 && f > float64(hi)/minSpan*(1+1e-9) {
				c.Failf("the rate of %s after %q is %v, %d to %d in %v to %v ns", what, log, got, lo, hi, minSpan, maxSpan)
			}
		}
		switch kind {
		case "totals", "current":
			within("mallocs", info.Mallocs, m1.mallocs, m2.mallocs)
			within("frees", info.Frees, m1.frees, m2.frees)
			within("collections", info.GC, m1.gc, m2.gc)
			within("cgo calls", info.CgoCalls, m1.cgo, m2.cgo)
		case "deltas":
			within("mallocs", info.Mallocs, m1.mallocs-p2.mallocs, m2.mallocs-p1.mallocs)
			within("frees", info.Frees, m1.frees-p2.frees, m2.frees-p1.frees)
			within("collections", info.GC, m1.gc-p2.gc, m2.gc-p1.gc)
			within("cgo calls", info.CgoCalls, m1.cgo-p2.cgo, m2.cgo-p1.cgo)
		case "rates":
			if minSpan > 0 {
				within("the rate of mallocs", info.Mallocs, int64(float64(m1.mallocs-p2.mallocs)/maxSpan), int64(float64(m2.mallocs-p1.mallocs)/minSpan)+1)
				within("the rate of frees", info.Frees, int64(float64(m1.frees-p2.frees)/maxSpan), int64(float64(m2.frees-p1.frees)/minSpan)+1)
				within("the rate of collections", info.GC, 0, int64(float64(m2.gc-p1.gc)/minSpan)+1)
			}
		case "basic":
			rate("mallocs", basic["memory.counters.mallocs"], m1.mallocs-p2.mallocs, m2.mallocs-p1.mallocs)
			rate("frees", basic["memory.counters.frees"], m1.frees-p2.frees, m2.frees-p1.frees)
			rate("collections", basic["gc.rate"], m1.gc-p2.gc, m2.gc-p1.gc)
			rate("cgo calls", basic["cgo.calls"], m1.cgo-p2.cgo, m2.cgo-p1.cgo)
			var keys []string
			for k := range basic {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			if want := []string{"cgo.calls", "gc.pause.duration.span", "gc.pause.duration.string", "gc.pause.last.span", "gc.pause.last.string", "gc.rate", "goroutines.total",
				"memory.counters.frees", "memory.counters.mallocs", "memory.heap.Idle", "memory.heap.InUse", "memory.objects.heap", "memory.summary.alloc", "memory.summary.system"}; fmt.Sprint(keys) != fmt.Sprint(want) {
				c.Failf("basic values %q\n want %q", keys, want)
			}
			if m1.gc == m2.gc && m1.last != 0 && basic["gc.pause.last.string"] != time.Duration(m2.pause).String() {
				c.Failf("the last pause is %v, want %v", basic["gc.pause.last.string"], time.Duration(m2.pause))
			}
			if m1.gc == m2.gc && basic["gc.pause.last.span"] != m2.pause {
				c.Failf("the last pause is %v, want %v", basic["gc.pause.last.span"], m2.pause)
			}
		}
		// memory values belong to the same moment as the counters
		memory := func(objects, alloc, system, idle, used uint64, routines int64) {
			// the heap also gives memory to stacks, and takes it back
			const slack = 16 << 20
			if lo, hi := min(m1.mem.HeapSys, m2.mem.HeapSys), max(m1.mem.HeapSys, m2.mem.HeapSys); idle+used != system || system+slack < lo || system > hi+slack {
				c.Failf("%d bytes idle and %d used of %d, want %d to %d", idle, used, system, m1.mem.HeapSys, m2.mem.HeapSys)
			}
			if m1.frees == m2.frees && (objects < m1.mem.HeapObjects || objects > m2.mem.HeapObjects || alloc < m1.mem.Alloc || alloc > m2.mem.Alloc) {
				c.Failf("%d objects, %d bytes, want %d to %d and %d to %d", objects, alloc, m1.mem.HeapObjects, m2.mem.HeapObjects, m1.mem.Alloc, m2.mem.Alloc)
			}
			if routines <= 0 || routines > 1000 || objects == 0 || alloc == 0 {
				c.Failf("%d goroutines, %d objects, %d bytes", routines, objects, alloc)
			}
		}
		if basic != nil {
			num := func(k string) uint64 {
				var n uint64
				if _, err := fmt.Sscan(fmt.Sprint(basic[k]), &n); err != nil {
					c.Failf("%s is %v", k, basic[k])
				}
				return n
			}
			memory(num("memory.objects.heap"), num("memory.summary.alloc"), num("memory.summary.system"), num("memory.heap.Idle"), num("memory.heap.InUse"), int64(num("goroutines.total")))
		}
		if info != nil {
			memory(info.HeapObjects, info.Alloc, info.HeapSystem, info.HeapIdle, info.HeapInUse, info.Goroutines)
			if m1.gc == m2.gc && uint64(info.GCPause) != m2.pause {
				c.Failf("the last pause is %v, want %v", info.GCPause, m2.pause)
			}
			if m1.gc == m2.gc && m1.last != 0 {
				// nothing is known when the wall clock has been set
				lo, hi := m1.at.UnixNano()-m1.last, m2.at.UnixNano()-m1.last
				tolerance := int64(time.Millisecond)
				if step := (m2.at.UnixNano() - p1.at.UnixNano()) - int64(m2.at.Sub(p1.at)); step > tolerance/4 || step < -tolerance/4 {
					tolerance = math.MaxInt64 / 4
				}
				if d := int64(info.GCLatency); d < lo-tolerance || d > hi+tolerance {
					c.Failf("the last collection was %v ago, want %v to %v", info.GCLatency, time.Duration(lo), time.Duration(hi))
				}
			}
			if info.Goroutines <= 0 || info.HeapObjects == 0 || info.Alloc == 0 || info.HeapSystem == 0 || info.HeapInUse == 0 || info.HeapInUse > info.HeapSystem || info.HeapIdle > info.HeapSystem {
				c.Failf("impossible values: %+v", info)
			}
			doc, err := info.MarshalDocument()
			if err != nil {
				c.Failf("%v", err)
			}
			compare(c, doc, info)
		}
		p1, p2 = m1, m2
	}
	c.Note("%q", log)
	if steps > 1 {
		c.NonTrivial(fmt.Sprint(log))
	}
}

// concurrent collects deltas in several goroutines: they add up to what
// happened, as every delta is counted once.
func concurrent(c *prop.C) {
	t := c.T
	p1 := measure()
	metrics.CollectGoStatsTotals()
	p2 := measure()
	workers, calls := rapid.IntRange(2, 6).Draw(t, "workers"), rapid.IntRange(1, 6).Draw(t, "calls")
	gc := rapid.Bool().Draw(t, "gc")
	c.Note("%d goroutines, %d calls, gc: %v", workers, calls, gc)
	c.Journal()
	infos := make([][]*metrics.GoRuntimeInfo, workers)
	var wg sync.WaitGroup
	for w := range infos {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < calls; i++ {
				if gc && (w+i)%3 == 0 {
					runtime.GC()
				}
				infos[w] = append(infos[w], metrics.CollectGoStatsDeltas())
			}
		}()
	}
	wg.Wait()
	m1 := measure()
	last := metrics.CollectGoStatsDeltas()
	m2 := measure()
	mallocs, frees, gcs, cgo := last.Mallocs, last.Frees, last.GC, last.CgoCalls
	for _, l := range infos {
		for _, i := range l {
			if i.Mallocs < 0 || i.Frees < 0 || i.GC < 0 || i.CgoCalls < 0 {
				c.Failf("a negative delta: %+v", i)
			}
			mallocs += i.Mallocs
			frees += i.Frees
			gcs += i.GC
			cgo += i.CgoCalls
		}
	}
	within := func(what string, got, lo, hi int64) {
		if got < lo || got > hi {
			c.Failf("the deltas of %s add up to %d, want %d to %d", what, got, lo, hi)
		}
	}
	within("mallocs", mallocs, m1.mallocs-p2.mallocs, m2.mallocs-p1.mallocs)
	within("frees", frees, m1.frees-p2.frees, m2.frees-p1.frees)
	within("collections", gcs, m1.gc-p2.gc, m2.gc-p1.gc)
	within("cgo calls", cgo, m1.cgo-p2.cgo, m2.cgo-p1.cgo)
	c.NonTrivial(fmt.Sprint(workers, calls, gc, mallocs))
}

// system collects from a fake /proc, whose values are known.
func system(c *prop.C) {
	t := c.T
	dir, err := os.MkdirTemp("", "verif-x03-")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	// what the kernel does not offer is missing from the snapshot, and nothing else
	missing := map[string]bool{}
	for _, f := range []string{"stat", "meminfo", "diskstats", "net/dev"} {
		if rapid.IntRange(0, 12).Draw(t, "missing "+f) == 0 {
			missing[f] = true
		}
	}
	write := func(name, content string) {
		if missing[name] {
			return
		}
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			panic(err)
		}
	}
	num := func(label string) uint64 {
		return rapid.OneOf(rapid.Uint64Range(0, 9), rapid.Uint64Range(0, 1<<40)).Draw(t, label)
	}
	var cpu [10]uint64
	for i := range cpu {
		cpu[i] = num("cpu")
	}
	write("stat", "cpu "+strings.Trim(fmt.Sprint(cpu), "[]")+"\ncpu0 "+strings.Trim(fmt.Sprint(cpu), "[]")+"\nbtime 1\n")
	total, free, buffers, cached := num("total")>>3, num("free")>>3, num("buffers")>>3, num("cached")>>3
	write("meminfo", fmt.Sprintf("MemTotal: %d kB\nMemFree: %d kB\nMemAvailable: %d kB\nBuffers: %d kB\nCached: %d kB\nDirty: %d kB\n", total, free, free, buffers, cached, free+1))
	names := rapid.Permutation([]string{"sda", "sdb", "nvme0n1", "loop0", "vda1", "dm-3"}).Draw(t, "disks")[:rapid.IntRange(0, 6).Draw(t, "disk count")]
	var disks []disk.IOCountersStat
	var text string
	for i, n := range names {
		var f [11]uint64
		for j := range f {
			f[j] = num("disk") >> 10
		}
		f[0]++ // disks without any use are left out
		text += fmt.Sprintf("%d %d %s %s\n", 8, i, n, strings.Trim(fmt.Sprint(f), "[]"))
		disks = append(disks, disk.IOCountersStat{Name: n, ReadCount: f[0], MergedReadCount: f[1], ReadBytes: f[2] * 512, ReadTime: f[3],
			WriteCount: f[4], MergedWriteCount: f[5], WriteBytes: f[6] * 512, WriteTime: f[7], IopsInProgress: f[8], IoTime: f[9], WeightedIO: f[10]})
	}
	write("diskstats", text)
	sort.Slice(disks, func(i, j int) bool { return disks[i].Name < disks[j].Name })
	ifaces := rapid.IntRange(1, 3).Draw(t, "interfaces")
	sum := net.IOCountersStat{Name: "all"}
	text = "Inter-|   Receive                                                |  Transmit\n face |bytes    packets errs drop fifo frame compressed multicast|bytes    packets errs drop fifo colls carrier compressed\n"
	for i := 0; i < ifaces; i++ {
		var f [16]uint64
		for j := range f {
			f[j] = num("net")
		}
		// the library does not add these up in every version
		f[4], f[12] = 0, 0
		text += fmt.Sprintf(" eth%d: %s\n", i, strings.Trim(fmt.Sprint(f), "[]"))
		sum.BytesRecv += f[0]
		sum.PacketsRecv += f[1]
		sum.Errin += f[2]
		sum.Dropin += f[3]
		sum.BytesSent += f[8]
		sum.PacketsSent += f[9]
		sum.Errout += f[10]
		sum.Dropout += f[11]
	}
	write("net/dev", text)
	root := filepath.Join(dir, "mnt")
	write("mnt/file", "x")
	mounts := rapid.IntRange(0, 3).Draw(t, "mounts")
	text = ""
	for i := 0; i < mounts; i++ {
		p := root
		if i == 1 {
			p = filepath.Join(dir, "missing")
		}
		text += fmt.Sprintf("%d 1 0:%d / %s rw,relatime shared:1 - ext4 dev%d rw\n", 20+i, 30+i, p, i)
	}
	write("self/mountinfo", text)
	write("1/mountinfo", text)
	write("filesystems", "\text4\n")
	defer inKernel(dir, map[string]string{})()
	c.Note("missing %v", missing)
	c.Note("cpu %v, disks %q, %d interfaces, %d mounts", cpu, names, ifaces, mounts)
	// the use of processors is measured between collections
	metrics.CollectSystemInfo()
	s := metrics.MakeSystemInfo("a message")
	if rapid.Bool().Draw(t, "plain") {
		s = metrics.CollectSystemInfo()
	}
	if s.NumCPU != runtime.NumCPU() {
		c.Failf("%d CPUs", s.NumCPU)
	}
	if missing["meminfo"] {
		if s.VMStat.Total != 0 || s.VMStat.Free != 0 {
			c.Failf("memory %+v from a missing file", s.VMStat)
		}
	} else if s.VMStat.Total != total*1024 || s.VMStat.Free != free*1024 || s.VMStat.Dirty != (free+1)*1024 || s.VMStat.UsedPercent != 0 {
		c.Failf("memory %+v, want %d total, %d free kB", s.VMStat, total, free)
	}
	if missing["net/dev"] {
		sum = net.IOCountersStat{}
	}
	if missing["diskstats"] {
		disks = nil
	}
	if missing["stat"] {
		cpu = [10]uint64{}
	}
	if s.NetStat != sum {
		c.Failf("network %+v\n want %+v", s.NetStat, sum)
	}
	if fmt.Sprint(s.IOStat) != fmt.Sprint(disks) {
		c.Failf("disks %+v\n want %+v", s.IOStat, disks)
	}
	// times come in ticks of a hundredth of a second
	got := []int64{s.CPU.User, s.CPU.Nice, s.CPU.System, s.CPU.Idle, s.CPU.Iowait, s.CPU.Irq, s.CPU.Softirq, s.CPU.Steal, s.CPU.Guest, s.CPU.GuestNice}
	for i, g := range got {
		if d := g - int64(cpu[i]); d < -1 || d > 1 {
			c.Failf("CPU times %v, want %v", got, cpu)
		}
	}
	if len(s.Partitions) != mounts {
		c.Failf("%d partitions, want %d: %+v %q", len(s.Partitions), mounts, s.Partitions, s.Errors)
	}
	usable := 0
	for i, p := range s.Partitions {
		if p.Device != fmt.Sprintf("dev%d", i) {
			c.Failf("partition %d is %+v", i, p)
		}
		if p.Mountpoint == root {
			usable++
		}
	}
	if len(s.Usage) != usable {
		c.Failf("the usage of %d file systems, want %d", len(s.Usage), usable)
	}
	for _, u := range s.Usage {
		if u.Path != root || u.Total == 0 || u.UsedPercent != 0 || u.InodesUsedPercent != 0 {
			c.Failf("usage %+v", u)
		}
	}
	reported := 0
	for f := range missing {
		if f == "stat" || f == "meminfo" {
			// the library does not say so
			continue
		}
		reported++
		if !strings.Contains(strings.Join(s.Errors, "\n"), filepath.Join(dir, f)) {
			c.Failf("the errors do not say that %s is missing: %q", f, s.Errors)
		}
	}
	if gone := mounts >= 2; (gone || reported > 0) != (len(s.Errors) > 0) || gone && !strings.Contains(strings.Join(s.Errors, "\n"), "no such file or directory") {
		c.Failf("%d mounts, one missing: %v, but the errors are %q", mounts, gone, s.Errors)
	}
	doc, err := s.MarshalDocument()
	if err != nil {
		c.Failf("%v", err)
	}
	compare(c, doc, s)
	c.NonTrivial(fmt.Sprint(cpu, names, sum))
}

func main() {
	prop.Main(prop.Spec{
		ID:   "X03",
		Rule: "gostats: two or more collections; processes: two or more; others: all",
		Assumptions: []string{
			"documents name fields by their tags, except for those listed in the check, whose names existing consumers may use",
			"rates are only bounded from the outside: the exact moment of a collection is not observable",
			"platform: Linux",
		},
		Subs: []prop.Sub{
			{Name: "marshal", Quick: 1500, Thorough: 40000, Fn: marshal},
			{Name: "gostats", Quick: 400, Thorough: 8000, Fn: gostats},
			{Name: "concurrent", Quick: 200, Thorough: 4000, Fn: concurrent, HangIsViolation: true},
			{Name: "system", Quick: 800, Thorough: 20000, Fn: system},
			{Name: "processes", Quick: 250, Thorough: 6000, Shards: 4, Fn: processes},
		},
	})
}
