// Package c26: health and readiness endpoints always show the latest state set.
package c26

import (
	"github.com/Symantec/tricorder/go/healthserver"
	"vh/sym"
)

func get(path string) (int, string) {
	r := sym.Serve(path, "")
	return r.Code, string(r.Body)
}

// expect checks one endpoint against the state "" (good) or a status text.
func expect(path, want string) {
	code, body := get(path)
	if want == "" {
		sym.Assert(code == 200, "good state answers 200: "+path)
		sym.Assert(body == "OK", "good state answers OK: "+path)
		return
	}
	sym.Assert(code == 503, "bad state answers 503: "+path)
	sym.Assert(body == want || body == want+"\n", "bad state answers the status text: "+path)
}

func status(name string) string {
	return sym.Str(name, sym.Choose(name+"-len", 4))
}

// set performs one arbitrary operation and returns the expected state.
func set(i int, health, ready string) (string, string) {
	n := string(rune('0' + i))
	switch sym.Choose("op"+n, 4) {
	case 0:
		healthserver.SetHealthy()
		return "", ready
	case 1:
		healthserver.SetReady()
		return health, ""
	case 2:
		s := status("h" + n)
		if s == "" || s == "OK" {
			sym.Assert(sym.Panics(func() { healthserver.SetNotHealthy(s) }), "SetNotHealthy of an OK status panics")
			sym.Reach("refused health status")
			return health, ready
		}
		healthserver.SetNotHealthy(s)
		return s, ready
	default:
		s := status("r" + n)
		if s == "" || s == "OK" {
			sym.Assert(sym.Panics(func() { healthserver.SetNotReady(s) }), "SetNotReady of an OK status panics")
			sym.Reach("refused readiness status")
			return health, ready
		}
		healthserver.SetNotReady(s)
		return health, s
	}
}

func history(n int) {
	health, ready := "", "not ready"
	expect("/healthz", health)
	expect("/readiness", ready)
	for i := 0; i < n; i++ {
		health, ready = set(i, health, ready)
		expect("/healthz", health)
		expect("/readiness", ready)
	}
	sym.Observe("health", health)
	sym.Observe("ready", ready)
	sym.Reach("history done")
}

// CheckHistory: every sequence of settings, status texts arbitrary.
//
//sym:opt samples=24
//sym:bound sequences of 2 operations; status texts of 0..3 arbitrary bytes
func CheckHistory() { history(2) }

// CheckHistoryLong is the same with longer sequences.
//
//sym:opt tier=thorough
//sym:bound sequences of 4 operations; status texts of 0..3 arbitrary bytes
func CheckHistoryLong() { history(4) }

// CheckConcurrent: setters of both states and requests under every schedule.
//
//sym:bound two setters per state and one client of two requests, every schedule
func CheckConcurrent() {
	var h1, h2, r1 string
	var hc, rc int
	sym.Concurrent(
		func() { healthserver.SetNotHealthy("sick"); healthserver.SetNotReady("busy") },
		func() { healthserver.SetHealthy(); healthserver.SetReady() },
		func() {
			hc, h1 = get("/healthz")
			rc, r1 = get("/readiness")
		},
	)
	sym.Assert(hc == 200 && h1 == "OK" || hc == 503 && (h1 == "sick" || h1 == "sick\n"), "health answered during updates is one that was set")
	sym.Assert(rc == 200 && r1 == "OK" || rc == 503 && (r1 == "busy" || r1 == "not ready" || r1 == "busy\n" || r1 == "not ready\n"), "readiness answered during updates is one that was set")
	_, h2 = get("/healthz")
	sym.Assert(h2 == "OK" || h2 == "sick" || h2 == "sick\n", "final health")
	sym.Reach("concurrent done")
}

// CheckLongTexts: long status texts.
//
//sym:bound status texts of 15..1000 arbitrary bytes, and of 30 bytes that start or end with OK
func CheckLongTexts() {
	lens := []int{15, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300, 512, 1000}
	k := sym.Choose("length", len(lens)+2)
	var s string
	switch {
	case k < len(lens):
		s = sym.Str("s", lens[k])
	case k == len(lens):
		s = "OK" + sym.Str("s", 28)
	default:
		s = sym.Str("s", 28) + "OK"
	}
	if sym.Choose("which", 2) == 0 {
		healthserver.SetNotHealthy(s)
		expect("/healthz", s)
		expect("/readiness", "not ready")
		healthserver.SetNotHealthy("other")
		expect("/healthz", "other")
	} else {
		healthserver.SetNotReady(s)
		expect("/readiness", s)
		expect("/healthz", "")
		healthserver.SetNotReady("other")
		expect("/readiness", "other")
	}
	sym.Reach("long texts")
}

// CheckMany: many settings in turn.
//
//sym:bound 40 settings of both states in a fixed scattered order with arbitrary texts of 2 bytes
func CheckMany() {
	health, ready := "", "not ready"
	a, b := sym.Str("a", 3), sym.Str("b", 3)
	for i := 0; i < 40; i++ {
		switch i * i * 7 % 11 % 6 {
		case 0:
			healthserver.SetHealthy()
			health = ""
		case 1:
			healthserver.SetReady()
			ready = ""
		case 2:
			healthserver.SetNotHealthy(a)
			health = a
		case 3:
			healthserver.SetNotReady(a)
			ready = a
		case 4:
			healthserver.SetNotHealthy(b)
			health = b
		default:
			healthserver.SetNotReady(b)
			ready = b
		}
		expect("/healthz", health)
		expect("/readiness", ready)
		if i%4 == 0 {
			expect("/healthz", health)
		}
	}
	sym.Reach("many")
}
