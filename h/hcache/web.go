package hcache

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/mc"
)

var errBoom = errors.New("boom")
var errLoad = errors.New("load failed")
var errStore = errors.New("store failed")
var errBody = errors.New("body failed")
var errClose = errors.New("close failed")

// body of an origin response.
type body struct {
	data   string
	pos    int
	chunk  int   // bytes per read, 0: as many as fit
	eof    bool  // deliver EOF together with the last bytes
	errAt  int   // fail after that many bytes, -1: never
	err    error // then with this error
	cerr   error
	closed int
	late   int // reads after close
	sawEOF bool
}

func newBody(s string) *body { return &body{data: s, errAt: -1} }

func (b *body) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.late++
		return 0, http.ErrBodyReadAfterClose
	}
	if b.errAt >= 0 && b.pos >= b.errAt {
		if b.err != nil {
			return 0, b.err
		}
		return 0, errBody
	}
	if b.pos >= len(b.data) {
		b.sawEOF = true
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	rest := b.data[b.pos:]
	if b.errAt >= 0 && b.errAt < len(b.data) {
		rest = b.data[b.pos:b.errAt]
	}
	n = copy(p[:n], rest)
	b.pos += n
	if b.eof && b.pos >= len(b.data) {
		b.sawEOF = true
		return n, io.EOF
	}
	return n, nil
}

func (b *body) Close() error { b.closed++; return b.cerr }

// oreq is a request seen by the origin.
type oreq struct {
	method, url, host string
	header            http.Header
	at                time.Time
	req               *http.Request
	resp              *http.Response
	body              *body
	ver               int
}

func (r *oreq) String() string {
	return fmt.Sprintf("%s %s %s", r.method, r.url, hstr(r.header))
}

func hstr(h http.Header) string {
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%s|", k, strings.Join(h[k], "+"))
	}
	return b.String()
}

// origin is the server behind the cache.
type origin struct {
	x     *mc.X
	reqs  []*oreq
	serve func(o *oreq, req *http.Request) (*http.Response, error)
}

func (o *origin) Do(req *http.Request) (*http.Response, error) {
	r := &oreq{method: req.Method, url: req.URL.String(), host: req.Host, header: req.Header.Clone(), at: time.Now(), req: req}
	o.reqs = append(o.reqs, r)
	if len(o.reqs) > 1000 {
		o.x.Fail("endless origin requests", "endless origin requests")
		return nil, errBoom
	}
	resp, err := o.serve(r, req)
	r.resp = resp
	if resp != nil {
		if resp.Request == nil {
			resp.Request = req
		}
		if b, ok := resp.Body.(*body); ok {
			r.body = b
		}
	}
	return resp, err
}

func (o *origin) take() []*oreq {
	r := o.reqs
	o.reqs = nil
	return r
}

// sop is a storage operation.
type sop struct {
	store bool
	key   uint64
	val   string
}

// storage is an observable Storage.
type storage struct {
	m           map[uint64]string
	ops         []sop
	loadErr     error
	storeErr    error
	storePoints func(string)
}

func newStorage() *storage { return &storage{m: map[uint64]string{}} }

func (s *storage) Store(ctx context.Context, key uint64, v []byte) error {
	s.ops = append(s.ops, sop{true, key, string(v)})
	if s.storeErr != nil {
		return s.storeErr
	}
	s.m[key] = string(v)
	return nil
}

func (s *storage) Load(ctx context.Context, key uint64) ([]byte, error) {
	s.ops = append(s.ops, sop{key: key})
	if s.loadErr != nil {
		return nil, s.loadErr
	}
	if v, ok := s.m[key]; ok {
		return []byte(v), nil
	}
	return nil, nil
}

func (s *storage) stores() (n int) {
	for _, o := range s.ops {
		if o.store {
			n++
		}
	}
	return n
}

func (s *storage) takeStores() int {
	n := s.stores()
	s.ops = nil
	return n
}

// policies of the cache.
type policy struct {
	name string
	aggr bool
	age  time.Duration
}

var std = policy{name: "standard"}
var aggr = policy{name: "aggressive", aggr: true}

func newCache(x *mc.X, p policy, o *origin, s antcache.Storage) *antcache.Cache {
	var opts []antcache.Option
	if s != nil {
		opts = append(opts, antcache.WithStorage(s))
	}
	if p.aggr {
		opts = append(opts, antcache.Aggressive(p.age))
	}
	c, err := antcache.New(o, opts...)
	if err != nil {
		x.Fail("new", "New: %v", err)
		return nil
	}
	return c
}

func hdr(kv ...string) http.Header {
	h := http.Header{}
	for i := 0; i+1 < len(kv); i += 2 {
		h.Add(kv[i], kv[i+1])
	}
	return h
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func newReq(method, u string, h http.Header) *http.Request {
	req, err := http.NewRequest(method, u, nil)
	if err != nil {
		panic(err)
	}
	for k, v := range h {
		req.Header[k] = append([]string(nil), v...)
	}
	return req
}

func httpDate(t time.Time) string { return t.UTC().Format(http.TimeFormat) }

// response builds an origin response with a Content-Length.
func response(req *http.Request, status int, h http.Header, data string) *http.Response {
	b := newBody(data)
	r := &http.Response{
		StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: int64(len(data)), Request: req,
	}
	if bodyless(req.Method, status) {
		b.data = ""
		if req.Method != "HEAD" {
			r.ContentLength = 0
		}
	}
	return r
}

func bodyless(method string, status int) bool {
	return method == "HEAD" || status < 200 || status == 204 || status == 304
}

// readAll reads a body to its end; it gives up on endless bodies.
func readAll(x *mc.X, r io.Reader) (string, error) {
	b, err := io.ReadAll(io.LimitReader(r, 64<<20))
	return string(b), err
}

// sameHeader compares headers, ignoring the given ones.
func sameHeader(a, b http.Header, ignore ...string) bool {
	a, b = a.Clone(), b.Clone()
	for _, k := range ignore {
		delete(a, k)
		delete(b, k)
	}
	return hstr(a) == hstr(b)
}

// fetched is what a caller got.
type fetched struct {
	status  int
	header  http.Header
	trailer http.Header
	body    string
	url     string
	err     error // of Do
	rerr    error
	cerr    error
	cached  bool
}

func (f *fetched) String() string {
	if f.err != nil {
		return "error " + f.err.Error()
	}
	return fmt.Sprintf("%d %q cached=%v %s", f.status, f.body, f.cached, hstr(f.header))
}

// get performs a request and reads the response to its end.
func get(x *mc.X, c *antcache.Cache, req *http.Request) *fetched {
	resp, err := c.Do(req)
	f := &fetched{err: err}
	if err != nil {
		return f
	}
	if resp == nil {
		x.Fail("no response", "Do returned no response and no error")
		return f
	}
	f.status, f.header = resp.StatusCode, resp.Header.Clone()
	if resp.Request != nil {
		f.url = resp.Request.URL.String()
	}
	f.cached = resp.Header.Get("X-From-Cache") != ""
	f.body, f.rerr = readAll(x, resp.Body)
	f.trailer = resp.Trailer.Clone()
	f.cerr = resp.Body.Close()
	return f
}
