package hlp

import (
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"vh/sym"
)

// The ways to ask for metrics.
const (
	InProcess = iota
	RPCList
	RPCGet
	JSONList
	JSONOne
	Text
	HTML
	Kinds
)

// Seen is one metric in a response of any kind, as far as that kind tells.
type Seen struct {
	Path   string
	Metric *messages.Metric // in-process and RPC
	Node   *sym.Node        // JSON
	Text   string           // text
}

// Answer is a response of any kind.
type Answer struct {
	Kind    int
	Found   bool
	Metrics []Seen
	Body    string
}

// Ask sends one request.
func Ask(kind int, path string) *Answer {
	a := &Answer{Kind: kind, Found: true}
	switch kind {
	case InProcess, RPCList:
		var l messages.MetricList
		if kind == InProcess {
			l = tricorder.ReadMyMetrics(path)
		} else {
			sym.Assert(sym.CallRPC("MetricsServer.ListMetrics", path, &l) == nil, "an RPC list never fails")
		}
		for _, m := range l {
			a.Metrics = append(a.Metrics, Seen{Path: m.Path, Metric: m})
		}
	case RPCGet:
		var m messages.Metric
		err := sym.CallRPC("MetricsServer.GetMetric", path, &m)
		if err != nil {
			sym.Assert(err.Error() == messages.ErrMetricNotFound.Error(), "a failing RPC get says that there is no such metric")
			a.Found = false
		} else {
			a.Metrics = append(a.Metrics, Seen{Path: m.Path, Metric: &m})
		}
	case JSONList:
		r := sym.Serve("/metricsapi"+path, "")
		sym.Assert(r.Code == 200, "a JSON listing answers 200")
		n, err := sym.ParseJSON(r.Body)
		sym.Assert(err == nil && n.Kind == "array", "a JSON listing is an array")
		for _, k := range n.Kids {
			a.Metrics = append(a.Metrics, Seen{Path: k.Get("path").Text, Node: k})
		}
	case JSONOne:
		r := sym.Serve("/metricsapi"+path, "singleton=true")
		if r.Code == 404 {
			a.Found = false
			break
		}
		sym.Assert(r.Code == 200, "a single JSON metric answers 200 or 404")
		n, err := sym.ParseJSON(r.Body)
		sym.Assert(err == nil && n.Kind == "object", "a single JSON metric is an object")
		a.Metrics = append(a.Metrics, Seen{Path: n.Get("path").Text, Node: n})
	case Text, HTML:
		q := ""
		if kind == Text {
			q = "format=text"
		}
		r := sym.Serve("/metrics"+path, q)
		sym.Assert(r.Code == 200, "the metrics page answers 200")
		a.Body = string(r.Body)
		if kind == HTML {
			a.Found = a.Body != "Path does not exist."
			break
		}
		if a.Body == "*Path does not exist.*" {
			a.Found = false
			break
		}
		for _, l := range Lines(a.Body) {
			s := Seen{Path: path, Text: l}
			if i := strings.IndexByte(l, ' '); i > 0 && l[0] == '/' {
				s.Path, s.Text = l[:i], l[i+1:]
			}
			a.Metrics = append(a.Metrics, s)
		}
	}
	return a
}

// Lines splits a text that ends each line with a newline.
func Lines(s string) (r []string) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			r = append(r, s[start:i])
			start = i + 1
		}
	}
	sym.Assert(start == len(s), "the last line is complete")
	return
}

func digit(s string, i int) bool {
	return i >= 0 && i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.' || s[i] == ',')
}

// HasNumber reports whether the text shows the number.
func HasNumber(s, num string) bool {
	for from := 0; ; {
		i := strings.Index(s[from:], num)
		if i < 0 {
			return false
		}
		i += from
		if !digit(s, i-1) && !digit(s, i+len(num)) {
			return true
		}
		from = i + 1
	}
}

// IntValue requires that the metric is the given small number, at the given time.
func (s *Seen) IntValue(v int64, ts time.Time) {
	switch {
	case s.Metric != nil:
		var ok bool
		switch x := s.Metric.Value.(type) {
		case int64:
			ok = x == v
		case float64:
			ok = x == float64(v)
		}
		sym.Assert(ok, "the value reported is the current one")
		got, ok := s.Metric.TimeStamp.(time.Time)
		sym.Assert(ok && got.Equal(ts), "the timestamp reported is that of the value")
	case s.Node != nil:
		sym.Assert(s.Node.Get("value").Text == Num(int(v)), "the value reported is the current one")
		n := Num(int(ts.Nanosecond()) + 1000000000)
		sym.Assert(s.Node.Get("timestamp").Text == Num(int(ts.Unix()))+"."+n[1:], "the timestamp reported is that of the value")
	default:
		sym.Assert(s.Text == Num(int(v)), "the value reported is the current one")
	}
}

var _ types.Type
