// Package c27: built-in process metrics report what the operating system reported.
package c27

import (
	"errors"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"vh/hlp"
	"vh/sym"
)

const maxSec = 1 << 32

// usage is an arbitrary answer of getrusage. Sizes in KiB stay below 2^50.
func usage(n string) *syscall.Rusage {
	big := func(name string) int64 { return sym.Int64(n + name) }
	kib := func(name string) int64 { return sym.IntRange(n+name, 0, 1<<50) }
	return &syscall.Rusage{
		Utime:  syscall.Timeval{Sec: sym.IntRange(n+"usec", 0, maxSec), Usec: sym.IntRange(n+"uusec", 0, 999999)},
		Stime:  syscall.Timeval{Sec: sym.IntRange(n+"ssec", 0, maxSec), Usec: sym.IntRange(n+"susec", 0, 999999)},
		Maxrss: kib("maxrss"), Ixrss: kib("ixrss"), Idrss: kib("idrss"), Isrss: kib("isrss"),
		Minflt: big("minflt"), Majflt: big("majflt"), Nswap: big("nswap"),
		Inblock: big("inblock"), Oublock: big("oublock"),
		Msgsnd: big("msgsnd"), Msgrcv: big("msgrcv"), Nsignals: big("nsignals"),
		Nvcsw: big("nvcsw"), Nivcsw: big("nivcsw"),
	}
}

type figure struct {
	path string
	unit units.Unit
	want interface{}
}

func cpu(t syscall.Timeval) time.Duration {
	return time.Duration(t.Sec*1000000000 + t.Usec*1000)
}

func figures(u *syscall.Rusage) []figure {
	return []figure{
		{"/proc/cpu/user", units.Second, cpu(u.Utime)},
		{"/proc/cpu/sys", units.Second, cpu(u.Stime)},
		{"/proc/memory/max-resident-set-size", units.Byte, u.Maxrss * 1024},
		{"/proc/memory/shared", units.Byte, u.Ixrss * 1024},
		{"/proc/memory/unshared-data", units.Byte, u.Idrss * 1024},
		{"/proc/memory/unshared-stack", units.Byte, u.Isrss * 1024},
		{"/proc/memory/soft-page-fault", units.None, u.Minflt},
		{"/proc/memory/hard-page-fault", units.None, u.Majflt},
		{"/proc/memory/swaps", units.None, u.Nswap},
		{"/proc/io/input", units.None, u.Inblock},
		{"/proc/io/output", units.None, u.Oublock},
		{"/proc/ipc/sent", units.None, u.Msgsnd},
		{"/proc/ipc/received", units.None, u.Msgrcv},
		{"/proc/signals/received", units.None, u.Nsignals},
		{"/proc/scheduler/involuntary-switches", units.None, u.Nivcsw},
		{"/proc/scheduler/voluntary-switches", units.None, u.Nvcsw},
	}
}

// answers makes the operating system answer calls with the given usages in turn; nil is a failure.
// A failing call leaves garbage in the structure.
func answers(l ...*syscall.Rusage) *int {
	calls := 0
	sym.SetRusage(func(who int, ru *syscall.Rusage) error {
		sym.Assert(who == syscall.RUSAGE_SELF, "the figures asked for are those of the process")
		u := l[len(l)-1]
		if calls < len(l) {
			u = l[calls]
		}
		calls++
		if u == nil {
			ru.Maxrss, ru.Utime.Sec, ru.Nswap = 77, 77, 77
			return errors.New("failed")
		}
		*ru = *u
		return nil
	})
	return &calls
}

func find(l messages.MetricList, path string) *messages.Metric {
	for _, m := range l {
		if m.Path == path {
			return m
		}
	}
	sym.Assert(false, "the built-in metric is listed: "+path)
	return nil
}

func verify(l messages.MetricList, u *syscall.Rusage) {
	for _, f := range figures(u) {
		m := find(l, f.path)
		sym.Assert(m.Value == f.want, "the figure is the one the operating system reported: "+f.path)
		sym.Assert(m.Unit == f.unit, "the unit is that of the figure: "+f.path)
	}
}

func list(kind int, path string) (l messages.MetricList) {
	for _, s := range hlp.Ask(kind, path).Metrics {
		l = append(l, s.Metric)
	}
	return
}

// CheckFigures: one request for all of them, after an earlier one with other figures.
//
//sym:bound two successive requests with arbitrary answers (CPU seconds up to 2^32, KiB up to 2^50, every counter value), in process and RPC
func CheckFigures() {
	a, b := usage("a-"), usage("b-")
	calls := answers(a, b)
	verify(tricorder.ReadMyMetrics("/proc"), a)
	sym.Assert(*calls == 1, "one request asks the operating system once")
	kind := sym.Choose("kind", 2)
	verify(list(kind, "/proc"), b)
	sym.Assert(*calls == 2, "each request asks the operating system again")
	sym.Reach("done")
}

// CheckSingle: requests for a single metric.
//
//sym:bound each of the 16 metrics alone, arbitrary answers
func CheckSingle() {
	a, b := usage("a-"), usage("b-")
	answers(a, b)
	n := sym.Choose("metric", 16)
	f := figures(a)[n]
	sym.Assert(hlp.Read(f.path).Value == f.want, "the figure is the one the operating system reported: "+f.path)
	f = figures(b)[n]
	var m messages.Metric
	sym.Assert(sym.CallRPC("MetricsServer.GetMetric", f.path, &m) == nil, "the metric exists: "+f.path)
	want := f.want
	sym.Assert(m.Value == want, "the figure is the one the operating system reported: "+f.path)
	sym.Reach("done")
}

// CheckFailure: the operating system's call fails for the first, second or third request.
//
//sym:bound three successive requests, any of them failing, arbitrary answers otherwise
func CheckFailure() {
	us := []*syscall.Rusage{usage("a-"), usage("b-"), usage("c-")}
	last := &syscall.Rusage{}
	fails := 0
	for i := range us {
		if sym.Choose("fails"+hlp.Num(i), 2) == 1 {
			us[i] = nil
			fails++
		}
	}
	answers(us...)
	for _, u := range us {
		if u != nil {
			last = u
		}
		verify(tricorder.ReadMyMetrics("/proc"), last)
	}
	if fails > 0 {
		sym.Reach("failed")
	}
	if fails == 3 {
		sym.Reach("always failed")
	}
}

// CheckMemory: total memory.
//
//sym:bound two successive requests, every pair of figures with released <= obtained
func CheckMemory() {
	answers(&syscall.Rusage{})
	var sys, rel uint64
	calls := 0
	sym.SetMemStats(func(m *runtime.MemStats) {
		m.Sys, m.HeapReleased = sys, rel
		m.HeapSys, m.HeapInuse, m.HeapIdle, m.TotalAlloc, m.Alloc, m.HeapAlloc = 1, 2, 3, 4, 5, 6
		calls++
	})
	for i := 0; i < 2; i++ {
		sys, rel = sym.Uint64("sys"+hlp.Num(i)), sym.Uint64("rel"+hlp.Num(i))
		sym.Assume(rel <= sys)
		m := hlp.Read("/proc/memory/total")
		v, ok := m.Value.(uint64)
		sym.Assert(ok && v == sys-rel, "total memory is memory obtained minus memory released")
		sym.Assert(m.Unit == units.Byte, "memory is in bytes")
		sym.Assert(calls == i+1, "each request asks again")
	}
	sym.Reach("done")
}

// CheckProcess: name, arguments, Go version.
//
//sym:bound the process at hand
func CheckProcess() {
	sym.Assert(hlp.Read("/proc/name").Value == os.Args[0], "the name is the program's")
	sym.Assert(hlp.Read("/proc/args").Value == strings.Join(os.Args[1:], "|"), "the arguments are the program's")
	sym.Assert(hlp.Read("/proc/go/version").Value == runtime.Version(), "the version is that of the Go runtime")
	t, ok := hlp.Read("/proc/start-time").Value.(time.Time)
	sym.Assert(ok && !t.After(time.Now()), "the start time is in the past")
	n, ok := hlp.Read("/proc/io/num-open-file-descriptors").Value.(int64)
	sym.Assert(ok && n == int64(sym.OpenFds()), "open file descriptors are counted")
	g, ok := hlp.Read("/proc/go/num-goroutines").Value.(int64)
	sym.Assert(ok && g == int64(runtime.NumGoroutine()), "goroutines are counted")
	sym.Reach("done")
}
