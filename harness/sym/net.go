package sym

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"net/rpc"
	"net/url"
	"os"
	"runtime"
	"syscall"
)

// Response is what an HTTP client sees.
type Response struct {
	Code   int
	Header http.Header
	Body   []byte
}

type recorder struct {
	code int
	hdr  http.Header
	sent http.Header
	body []byte
	fail int // fail every write after this many (if > 0)
	n    int
}

func (r *recorder) Header() http.Header { return r.hdr }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
		r.sent = http.Header{}
		for k, v := range r.hdr {
			r.sent[k] = v
		}
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.WriteHeader(200)
	}
	r.n++
	if r.fail > 0 && r.n > r.fail {
		return 0, errors.New("connection lost")
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

// Serve sends a GET request to the handlers registered on http.DefaultServeMux.
func Serve(path, query string, hdr ...string) *Response {
	return serve(path, query, 0, hdr)
}

// ServeFailing is Serve with a client whose connection breaks after n writes.
func ServeFailing(path, query string, n int, hdr ...string) *Response {
	return serve(path, query, n, hdr)
}

func serve(path, query string, fail int, hdr []string) *Response {
	req := &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{}, Host: "localhost", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header[hdr[i]] = []string{hdr[i+1]}
	}
	rec := &recorder{hdr: http.Header{}, fail: fail}
	http.DefaultServeMux.ServeHTTP(rec, req)
	if rec.code == 0 {
		rec.WriteHeader(200)
	}
	return &Response{rec.code, rec.sent, rec.body}
}

// Gunzip decompresses (intercepted).
func Gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// Node is a parsed JSON value: Kind is one of null, bool, number, string, array, object.
type Node struct {
	Kind string
	Text string // bool, number: the literal; string: the decoded contents
	Keys []string
	Kids []*Node
}

// Get returns an object's member or nil.
func (n *Node) Get(key string) *Node {
	if n == nil || n.Kind != "object" {
		return nil
	}
	for i, k := range n.Keys {
		if k == key {
			return n.Kids[i]
		}
	}
	return nil
}

// ParseJSON parses one JSON document (intercepted).
func ParseJSON(b []byte) (*Node, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	n, err := parseNode(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return n, nil
}

func parseNode(d *json.Decoder) (*Node, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &Node{Kind: "null"}, nil
	case bool:
		if x {
			return &Node{Kind: "bool", Text: "true"}, nil
		}
		return &Node{Kind: "bool", Text: "false"}, nil
	case json.Number:
		return &Node{Kind: "number", Text: x.String()}, nil
	case string:
		return &Node{Kind: "string", Text: x}, nil
	case json.Delim:
		n := &Node{Kind: "array"}
		if x == '{' {
			n.Kind = "object"
		}
		for d.More() {
			if x == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.Keys = append(n.Keys, k.(string))
			}
			c, err := parseNode(d)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, c)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, errors.New("unknown token")
}

// CallRPC calls a method of the process's own net/rpc server (intercepted).
func CallRPC(method string, arg, reply interface{}) error {
	a, b := net.Pipe()
	go rpc.ServeConn(a)
	c := rpc.NewClient(b)
	defer c.Close()
	return c.Call(method, arg, reply)
}

// ---- the operating system, as the code under test sees it (intercepted) ----

var (
	onRusage   func(who int, ru *syscall.Rusage) error
	onMemStats func(m *runtime.MemStats)
)

// SetRusage makes syscall.Getrusage answer with f.
func SetRusage(f func(who int, ru *syscall.Rusage) error) {
	onRusage = f
	patch(syscall.Getrusage, fakeRusage)
}

// SetMemStats makes runtime.ReadMemStats answer with f.
func SetMemStats(f func(m *runtime.MemStats)) {
	onMemStats = f
	patch(runtime.ReadMemStats, fakeMemStats)
}

func fakeRusage(who int, ru *syscall.Rusage) error { return onRusage(who, ru) }
func fakeMemStats(m *runtime.MemStats)             { onMemStats(m) }

// OpenFds is the number of open file descriptors the process would count right now.
func OpenFds() int {
	f, err := os.Open("/proc/self/fd")
	if err != nil {
		return -1
	}
	defer f.Close()
	names, _ := f.Readdirnames(-1)
	return len(names)
}
