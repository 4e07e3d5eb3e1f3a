package hcdp

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/mafredri/cdp/devtool"
	"github.com/mafredri/cdp/rpcc"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vsched"
)

// doc is a document of the simulated web.
type doc struct {
	status    int
	header    map[string]string
	proto     string
	html      string
	redirects []string // URLs the browser goes through before the document
	subs      []sub
	setCookie string // cookies scripts of the page set, with their attributes
	errText   string // the navigation fails
}

// sub is a subresource or a frame of a document.
type sub struct {
	frame bool
	done  bool // the response arrives
	early bool // requested ahead of the document's response
	typ   string
}

// msg is a message of the browser, sent after the messages it depends on.
type msg struct {
	name   string
	data   map[string]any
	after  []*msg
	event  string // domain of an event
	onSend func()
	sent   bool
	slow   bool
	stop   bool // the loading of the page, ends when it is stopped
}

// tab is a target.
type tab struct {
	b        *browser
	id       string
	frame    string
	uses     int // open connections
	html     string
	loading  bool   // the document is not complete
	nodes    int    // identity of the document
	old      []*msg // what is left of the page
	lastUser int
	idle     int // at this time its last request returned, 0: in use
}

// conn is a connection of the protocol.
type conn struct {
	b       *browser
	t       *tab
	user    int
	out     []*msg
	buf     []byte
	signal  int32
	seen    int          // calls
	silent  bool         // no events any more
	late    map[*msg]int // messages of the previous page: sent after that many calls
	closed  bool
	dropped bool
	enabled map[string]bool
	url     string
}

// browser is the environment of a client.
type browser struct {
	x       *mc.X
	docs    map[string]*doc
	tabs    map[string]*tab
	order   []*tab
	conns   []*conn
	cookies []map[string]any
	calls   []call
	orders  string // of the messages: all, "deviate" or "fixed"
	clock   int
	started map[int]int // requests: clock of their start
	loaders int

	onCall   func(c *conn, n int, method string) string // "", "error", "drop"
	calln    int
	onSend   func(c *conn, n int, m *msg) bool // false: drop the connection instead
	sendn    int
	onDial   func(n int) error
	dialn    int
	onDialed func(user int)
	onNew    func(n int) (int, error)
	silent   func(what string, n int) bool // never answers
	newn     int
	pending  map[int]bool // requests that may have taken an idle target
	lost     int          // idle targets that need not be kept
}

type call struct {
	user   int
	method string
	params map[string]any
}

type userKey struct{}

func newBrowser(x *mc.X) *browser {
	b := &browser{x: x, docs: map[string]*doc{}, tabs: map[string]*tab{}, started: map[int]int{}, clock: 1, pending: map[int]bool{}}
	rpcc.VerifDial = b.dial
	devtool.VerifTransport = b
	return b
}

func userOf(ctx context.Context) int {
	u, _ := ctx.Value(userKey{}).(int)
	return u
}

// start marks the start of a request and returns its context.
func (b *browser) start(ctx context.Context, user int) context.Context {
	b.clock++
	b.started[user] = b.clock
	b.pending[user] = true
	return context.WithValue(ctx, userKey{}, user)
}

// end marks the end of a request, whose connections must be closed.
func (b *browser) end(user int) {
	b.clock++
	for _, c := range b.conns {
		if c.user == user {
			b.x.Check(c.closed, "connection left open", "the request to %s ended, its connection is open", c.url)
		}
	}
	delete(b.pending, user)
	for _, t := range b.order {
		if t.lastUser == user && t.uses == 0 && t.idle == 0 {
			if b.idle(b.clock)-b.lost >= 10 {
				b.lost++
			}
			t.idle = b.clock
		}
	}
}

// idle targets since before the time.
func (b *browser) idle(s int) (n int) {
	for _, t := range b.order {
		if t.idle != 0 && t.idle < s {
			n++
		}
	}
	return n
}

// RoundTrip is the HTTP side of the browser.
func (b *browser) RoundTrip(req *http.Request) (*http.Response, error) {
	vsched.P("devtools " + req.URL.Path)
	acquire()
	defer release()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	reply := func(st int, v any) (*http.Response, error) {
		buf, _ := json.Marshal(v)
		return &http.Response{StatusCode: st, Status: fmt.Sprint(st), ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(buf)), Request: req}, nil
	}
	switch p := req.URL.Path; {
	case p == "/json/version":
		return reply(200, map[string]string{"Browser": "x", "webSocketDebuggerUrl": "ws://x"})
	case p == "/json/new":
		b.newn++
		if b.silent != nil && b.silent("new", b.newn) {
			release()
			<-req.Context().Done()
			vsched.Post("gives up")
			acquire()
			return nil, req.Context().Err()
		}
		if b.onNew != nil {
			if st, err := b.onNew(b.newn); err != nil || st >= 400 {
				if err != nil {
					return nil, err
				}
				return reply(st, "no")
			}
		}
		user := userOf(req.Context())
		delete(b.pending, user)
		if s := b.started[user]; s > 0 {
			k := b.idle(s) - b.lost - len(b.pending)
			b.x.Check(k <= 0, "not reused", "request %d creates a target though %d were idle", user, k)
		}
		id := fmt.Sprintf("T%d", len(b.order)+1)
		t := &tab{b: b, id: id, frame: "F" + id, html: "<html><head></head><body></body></html>"}
		b.tabs[id] = t
		b.order = append(b.order, t)
		return reply(200, map[string]string{"id": id, "type": "page", "url": "about:blank", "webSocketDebuggerUrl": "ws://browser.test/devtools/page/" + id})
	case strings.HasPrefix(p, "/json/close/"):
		id := strings.TrimPrefix(p, "/json/close/")
		if t := b.tabs[id]; t != nil {
			delete(b.tabs, id)
			for i := range b.order {
				if b.order[i] == t {
					b.order = append(b.order[:i:i], b.order[i+1:]...)
					break
				}
			}
		}
		return reply(200, "closed")
	}
	return reply(404, "not found")
}

var errDial = errors.New("dial failed")

// dial opens a connection.
func (b *browser) dial(ctx context.Context, addr string) (io.ReadWriteCloser, error) {
	vsched.P("dial")
	acquire()
	defer release()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	id := addr[strings.LastIndexByte(addr, '/')+1:]
	t := b.tabs[id]
	if t == nil {
		return nil, fmt.Errorf("no target %q", addr)
	}
	user := userOf(ctx)
	t.lastUser, t.idle = user, 0
	delete(b.pending, user)
	b.dialn++
	if b.silent != nil && b.silent("dial", b.dialn) {
		release()
		<-ctx.Done()
		vsched.Post("gives up")
		acquire()
		return nil, ctx.Err()
	}
	if b.onDial != nil {
		if err := b.onDial(b.dialn); err != nil {
			return nil, err
		}
	}
	b.x.Check(t.uses == 0, "shared target", "target %s is used by two requests at once", id)
	t.uses++
	if t.loading && len(t.old) > 0 && b.x.Flag("old page completes") {
		t.finish()
	}
	c := &conn{b: b, t: t, user: user, late: map[*msg]int{}, enabled: map[string]bool{}}
	if len(t.old) > 0 && b.orders == "" {
		n := b.x.Choose(9, "previous page after call")
		for _, m := range t.old {
			c.late[m] = n
		}
	}
	c.out = append(c.out, t.old...)
	b.conns = append(b.conns, c)
	if b.onDialed != nil {
		b.onDialed(user)
	}
	c.update()
	return c, nil
}

// finish completes the loading of the page.
func (t *tab) finish() {
	var rest []*msg
	for _, m := range t.old {
		if m.stop {
			m.sent = true
			if m.onSend != nil {
				m.onSend()
			}
		} else {
			rest = append(rest, m)
		}
	}
	t.old = rest
}

// available messages of the browser.
func (c *conn) available() (ret []*msg) {
next:
	for _, m := range c.out {
		if m.slow || c.seen < c.late[m] || c.silent && m.event != "" {
			continue
		}
		for _, d := range m.after {
			if !d.sent {
				continue next
			}
		}
		ret = append(ret, m)
	}
	return ret
}

func (c *conn) update() {
	c.signal = 0
	if c.closed || c.dropped || len(c.buf) > 0 {
		c.signal = 1
		return
	}
	if len(c.available()) > 0 {
		c.signal = 1
	}
}

// Read sends what the browser has to say, in any order it may choose.
func (c *conn) Read(p []byte) (int, error) {
	defer release()
	for {
		release()
		vsched.Point("browser says", vsched.KNonZero, &c.signal)
		acquire()
		if vsched.Aborting() {
			return 0, io.EOF
		}
		if c.closed {
			return 0, errors.New("use of closed connection")
		}
		if len(c.buf) > 0 {
			n := copy(p, c.buf)
			c.buf = c.buf[n:]
			c.update()
			return n, nil
		}
		if c.dropped {
			return 0, io.EOF
		}
		av := c.available()
		if len(av) == 0 {
			c.update()
			continue
		}
		k := 0
		if n := len(av); n > 1 {
			switch c.b.orders {
			case "":
				k = c.b.x.Choose(n, "message")
			case "deviate":
				k = c.b.x.Deviate(n, "message")
			}
		}
		m := av[k]
		c.b.sendn++
		if c.b.onSend != nil && !c.b.onSend(c, c.b.sendn, m) {
			c.drop()
			continue
		}
		c.send(m)
		c.update()
	}
}

func (c *conn) send(m *msg) {
	m.sent = true
	for i := range c.out {
		if c.out[i] == m {
			c.out = append(c.out[:i:i], c.out[i+1:]...)
			break
		}
	}
	for i := range c.t.old {
		if c.t.old[i] == m {
			c.t.old = append(c.t.old[:i:i], c.t.old[i+1:]...)
			break
		}
	}
	if m.onSend != nil {
		m.onSend()
	}
	if m.event != "" && !c.enabled[m.event] {
		return
	}
	c.b.x.Logf("browser says %s", m.name)
	buf, err := json.Marshal(m.data)
	if err != nil {
		panic(err)
	}
	c.buf = append(c.buf, buf...)
}

func (c *conn) drop() {
	if !c.dropped {
		c.dropped = true
		c.t.uses--
	}
	c.update()
}

// Close closes the connection.
func (c *conn) Close() error {
	vsched.P("hang up")
	acquire()
	defer release()
	if !c.closed {
		c.closed = true
		if !c.dropped {
			c.t.uses--
		}
	}
	c.update()
	return nil
}

// Write is a call of the client.
func (c *conn) Write(p []byte) (int, error) {
	vsched.P("call browser")
	acquire()
	defer release()
	if c.closed || c.dropped {
		return 0, errors.New("write on closed connection")
	}
	var req struct {
		ID     uint64         `json:"id"`
		Method string         `json:"method"`
		Params map[string]any `json:"params"`
	}
	if err := json.Unmarshal(p, &req); err != nil {
		c.b.x.Fail("malformed call", "the client sent %q", p)
		return len(p), nil
	}
	b := c.b
	b.x.Logf("call %s %v", req.Method, req.Params)
	b.calls = append(b.calls, call{c.user, req.Method, req.Params})
	b.calln++
	c.seen++
	reply := &msg{name: "reply to " + req.Method, data: map[string]any{"id": req.ID, "result": map[string]any{}}}
	if b.onCall != nil {
		switch b.onCall(c, b.calln, req.Method) {
		case "drop":
			c.drop()
			return len(p), nil
		case "hang":
			return len(p), nil
		case "error":
			reply.data = map[string]any{"id": req.ID, "error": map[string]any{"code": -32000, "message": "browser says no"}}
			c.out = append(c.out, reply)
			c.update()
			return len(p), nil
		}
	}
	c.handle(req.Method, req.Params, reply)
	c.out = append(c.out, reply)
	c.update()
	return len(p), nil
}

func str(v any) string { s, _ := v.(string); return s }

func (c *conn) handle(method string, params map[string]any, reply *msg) {
	b, t := c.b, c.t
	result := map[string]any{}
	reply.data["result"] = result
	switch method {
	case "Page.enable":
		c.enabled["Page"] = true
	case "Network.enable":
		c.enabled["Network"] = true
	case "Page.disable":
		c.enabled["Page"] = false
	case "Network.disable":
		c.enabled["Network"] = false
	case "Page.stopLoading":
		reply.after = append(reply.after, c.stopped()...)
	case "Page.navigate":
		c.navigate(str(params["url"]), reply, result)
	case "DOM.getDocument":
		t.nodes++
		result["root"] = map[string]any{"nodeId": t.nodes, "backendNodeId": 1, "nodeType": 9, "nodeName": "#document", "localName": "", "nodeValue": ""}
	case "DOM.getOuterHTML":
		if n, _ := params["nodeId"].(float64); int(n) != t.nodes {
			delete(reply.data, "result")
			reply.data["error"] = map[string]any{"code": -32000, "message": "Could not find node with given id"}
			return
		}
		if t.loading {
			// Only a part of the document has been parsed.
			result["outerHTML"] = "<html><head></head><body>part"
		} else {
			result["outerHTML"] = t.html
		}
	case "Storage.setCookies":
		cs, _ := params["cookies"].([]any)
		for _, v := range cs {
			if m, ok := v.(map[string]any); ok {
				b.setCookie(str(m["name"]), str(m["value"]), "site.test")
			}
		}
	case "Network.setCookie":
		b.setCookie(str(params["name"]), str(params["value"]), "site.test")
	case "Storage.getCookies", "Network.getCookies", "Network.getAllCookies":
		result["cookies"] = append([]map[string]any{}, b.cookies...)
	}
}

// stopped ends the loading of the page: nothing of it is said any more.
func (c *conn) stopped() []*msg {
	var out []*msg
	for _, m := range c.out {
		if !m.stop {
			out = append(out, m)
		}
	}
	c.out = out
	out = nil
	for _, m := range c.t.old {
		if !m.stop {
			out = append(out, m)
		}
	}
	c.t.old = out
	return nil
}

func (b *browser) setCookie(name, value, domain string, attrs ...string) {
	n := map[string]any{"name": name, "value": value, "domain": domain, "path": "/", "expires": -1, "size": 1, "httpOnly": false, "secure": false, "session": true}
	for _, a := range attrs {
		k, v, _ := strings.Cut(a, "=")
		switch k {
		case "domain", "path":
			n[k] = v
		case "httpOnly", "secure":
			n[k] = true
		}
	}
	for i, c := range b.cookies {
		if c["name"] == name && c["path"] == n["path"] && c["domain"] == n["domain"] {
			b.cookies[i] = n
			return
		}
	}
	b.cookies = append(b.cookies, n)
}

var subDoc = &doc{status: 206, header: map[string]string{"X-Sub": "1", "X-Page": "sub"}, proto: "sub/9.9"}

// navigate starts a navigation: whatever the old page had left ends when the
// new document is received, its load ends at once.
func (c *conn) navigate(u string, reply *msg, result map[string]any) {
	b, t := c.b, c.t
	c.url = u
	b.loaders++
	loader := fmt.Sprintf("L%d", b.loaders)
	d := b.docs[u]
	if d == nil {
		d = &doc{status: 404, html: "<html><head></head><body>not found</body></html>"}
	}
	result["frameId"] = t.frame
	result["loaderId"] = loader
	old := append([]*msg(nil), t.old...)
	// The document of a page that is still to be received is not received any more.
	for _, m := range old {
		if m.stop && m.event == "Network" {
			c.forget(m)
		}
	}
	if d.errText != "" {
		result["errorText"] = d.errText
		return
	}
	var msgs []*msg
	event := func(domain, name string, stop bool, params map[string]any, after ...*msg) *msg {
		m := &msg{name: name, event: domain, data: map[string]any{"method": name, "params": params}, after: after, stop: stop}
		msgs = append(msgs, m)
		return m
	}
	request := func(id, loader, frame, typ, url string, stop bool, after ...*msg) *msg {
		return event("Network", "Network.requestWillBeSent", stop, map[string]any{
			"requestId": id, "loaderId": loader, "documentURL": u, "type": typ, "frameId": frame,
			"request": map[string]any{"url": url, "method": "GET", "headers": map[string]string{}},
		}, after...)
	}
	response := func(id, loader, frame, typ, url string, d *doc, stop bool, after ...*msg) *msg {
		r := map[string]any{"url": url, "status": d.status, "statusText": "", "headers": d.header, "mimeType": "text/html"}
		if d.header == nil {
			r["headers"] = map[string]string{}
		}
		if d.proto != "" {
			r["protocol"] = d.proto
		}
		return event("Network", "Network.responseReceived", stop, map[string]any{
			"requestId": id, "loaderId": loader, "type": typ, "frameId": frame, "response": r,
		}, after...)
	}
	final, _, _ := strings.Cut(u, "#")
	last := request(loader, loader, t.frame, "Document", u, true)
	for _, r := range d.redirects {
		final = r
		last = request(loader, loader, t.frame, "Document", r, true, last)
	}
	for i, s := range d.subs {
		if s.early {
			id := fmt.Sprintf("%s.%d", loader, i+1)
			q := request(id, loader, t.frame, s.typ, fmt.Sprintf("http://sub.test/%d", i), true, last)
			if s.done {
				response(id, loader, t.frame, s.typ, fmt.Sprintf("http://sub.test/%d", i), subDoc, true, q)
			}
		}
	}
	main := response(loader, loader, t.frame, "Document", final, d, true, last)
	main.onSend = func() {
		for _, m := range old {
			c.forget(m)
		}
		t.html, t.loading = d.html, true
		t.nodes++
	}
	ready := event("Page", "Page.domContentEventFired", true, map[string]any{"timestamp": 1}, main)
	if b.orders == "" && b.x.Flag("slow page") {
		// The page takes its time to load, a client that does not wait goes on.
		ready.slow = true
		vsched.Go(func() {
			time.Sleep(time.Millisecond)
			release()
			vsched.P("loaded")
			acquire()
			ready.slow = false
			c.update()
		})
	}
	ready.onSend = func() {
		t.loading = false
		for _, c := range strings.Fields(d.setCookie) {
			attrs := strings.Split(c, ";")
			k, v, _ := strings.Cut(attrs[0], "=")
			b.setCookie(k, v, "site.test", attrs[1:]...)
		}
	}
	for i, s := range d.subs {
		if s.early {
			continue
		}
		id := fmt.Sprintf("%s.%d", loader, i+1)
		frame, sl := t.frame, loader
		if s.frame {
			// A frame is a document of its own.
			frame, sl = fmt.Sprintf("%s.%d", t.frame, i), id
		}
		q := request(id, sl, frame, s.typ, fmt.Sprintf("http://sub.test/%d", i), false, main)
		if s.done {
			response(id, sl, frame, s.typ, fmt.Sprintf("http://sub.test/%d", i), subDoc, false, q)
		}
	}
	t.old = append(t.old, msgs...)
	c.out = append(c.out, msgs...)
}

func (c *conn) forget(m *msg) {
	for i := range c.out {
		if c.out[i] == m {
			c.out = append(c.out[:i:i], c.out[i+1:]...)
			break
		}
	}
	for i := range c.t.old {
		if c.t.old[i] == m {
			c.t.old = append(c.t.old[:i:i], c.t.old[i+1:]...)
			break
		}
	}
}
