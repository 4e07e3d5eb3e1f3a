package hcache

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/yields/ant/antcache"
	"github.com/yields/ant/zverif/mc"
	"github.com/yields/ant/zverif/vos"
)

// How a caller uses a response.
const (
	useFull = iota
	usePartial
	useClose
	useAbandon
)

var useNames = []string{"full", "partial", "close", "abandon"}

// C21: validation.
func init() {
	lm := func(v int) string { return httpDate(time.Date(1999, 6, 1, v, 0, 0, 0, time.UTC)) }
	et := func(v int) string { return fmt.Sprintf("\"e%d\"", v) }
	type kind struct {
		name string
		h    http.Header
		// What the caller sets.
		inm, ims        string
		noCache, sifErr bool
	}
	kinds := []kind{
		{name: "plain"},
		{name: "no-cache", h: hdr("Cache-Control", "no-cache"), noCache: true},
		{name: "stale-if-error", h: hdr("Cache-Control", "max-age=0, stale-if-error"), noCache: true, sifErr: true},
		{name: "own etag", h: hdr("If-None-Match", et(2)), inm: et(2)},
		{name: "own date", h: hdr("If-Modified-Since", lm(2)), ims: lm(2)},
		{name: "same etag", h: hdr("If-None-Match", et(1)), inm: et(1)},
		{name: "etags", h: hdr("If-None-Match", et(1)+", "+et(2)), inm: et(1) + ", " + et(2)},
	}
	modes := []string{"normal", "500", "403", "no-store", "error", "599"}
	type entry struct {
		header http.Header
		body   string
		date   time.Time
		inm    string
		ims    string
	}
	run := func(x *mc.X, steps, nk, nm int, uses []int, elapsed []time.Duration) {
		vals := mc.Pick(x, "validators", "both", "etag", "date", "none")
		o := &origin{x: x}
		ver := 1
		mode := "normal"
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			h := hdr("Date", httpDate(time.Now()), "X-At", fmt.Sprint(time.Now().Unix()))
			if vals == "both" || vals == "etag" {
				h.Set("ETag", et(ver))
			}
			if vals == "both" || vals == "date" {
				h.Set("Last-Modified", lm(ver))
			}
			switch mode {
			case "500", "403", "599":
				var st int
				fmt.Sscan(mode, &st)
				h.Set("Cache-Control", "max-age=10")
				return response(req, st, h, mode+" page"), nil
			case "error":
				return nil, fmt.Errorf("network: %w", errBoom)
			}
			inm, ims := q.header.Get("If-None-Match"), q.header.Get("If-Modified-Since")
			match := false
			if inm != "" {
				match = h.Get("ETag") != "" && strings.Contains(inm, h.Get("ETag"))
			} else if ims != "" && h.Get("Last-Modified") != "" {
				a, _ := http.ParseTime(ims)
				b, _ := http.ParseTime(h.Get("Last-Modified"))
				match = !a.Before(b)
			}
			if match && mode == "normal" {
				h.Set("X-New", fmt.Sprintf("validated at %d", time.Now().Unix()))
				h.Set("Cache-Control", "max-age=10")
				h.Set("Keep-Alive", "timeout=5")
				h.Set("Proxy-Authenticate", "Basic")
				h.Set("Upgrade", "x")
				return response(req, 304, h, ""), nil
			}
			h.Set("Cache-Control", "max-age=10")
			if mode == "no-store" {
				h.Set("Cache-Control", "no-store")
			}
			h.Set("X-Ver", fmt.Sprint(ver))
			return response(req, 200, h, fmt.Sprintf("page v%d %d", ver, len(o.reqs))), nil
		}
		s := newStorage()
		c := newCache(x, std, o, s)
		var ent *entry
		var hist []string
		x.NonTrivial()
		for i := 0; i <= steps+1; i++ {
			k, el, use := kinds[0], time.Duration(0), useFull
			mode = "normal"
			if i > 0 && i <= steps {
				el = elapsed[x.Choose(len(elapsed), "elapsed")]
				k = kinds[x.Choose(nk, "request")]
				ver += x.Choose(2, "new version")
				if k.name == "etags" && ent != nil && ent.inm == et(ver) {
					// What is stored is valid for some of them, it may be updated or not.
					k = kinds[0]
				}
			}
			if i == steps+1 {
				// The probe: what was left behind?
				el = mc.Pick(x, "probe after", 0, 20*time.Second)
			}
			time.Sleep(el)
			now := time.Now()
			req := newReq("GET", "http://h/a", k.h)
			// The mode matters only if the origin is contacted.
			fresh := ent != nil && now.Sub(ent.date) < 10*time.Second
			contact := ent == nil || !fresh || k.noCache
			if i > 0 && i <= steps {
				if contact {
					mode = modes[x.Choose(nm, "origin")]
				}
				use = uses[x.Choose(len(uses), "use")]
			}
			step := fmt.Sprintf("%v:%s/v%d/%s/%s", el, k.name, ver, mode, useNames[use])
			hist = append(hist, step)
			desc := vals + " " + strings.Join(hist, " ")
			s.ops = nil
			o.take()
			resp, err := c.Do(req)
			reqs := o.take()
			x.Step(1)
			x.Check(sameHeader(req.Header, newReq("GET", "http://h/a", k.h).Header), "request modified", "%s: %s", desc, hstr(req.Header))
			// What must happen.
			if !contact {
				if !x.Check(len(reqs) == 0, "fresh but origin contacted", "%s", desc) {
					return
				}
			} else if !x.Check(len(reqs) == 1, "origin requests", "%s: %d origin requests", desc, len(reqs)) {
				return
			}
			var got *oreq
			result := "stored" // stored, forward, validated, error
			if contact {
				got = reqs[0]
				inm, ims := k.inm, k.ims
				if ent != nil {
					if inm == "" {
						inm = ent.inm
					}
					if ims == "" {
						ims = ent.ims
					}
				}
				h := got.header
				x.Check(h.Get("If-None-Match") == inm || (k.h.Get("If-Modified-Since") != "" && h.Get("If-None-Match") == ""), "If-None-Match", "%s: sent %q want %q", desc, h.Get("If-None-Match"), inm)
				x.Check(h.Get("If-Modified-Since") == ims || (k.h.Get("If-None-Match") != "" && h.Get("If-Modified-Since") == ""), "If-Modified-Since", "%s: sent %q want %q", desc, h.Get("If-Modified-Since"), ims)
				x.Check(sameHeader(h, k.h, "If-None-Match", "If-Modified-Since"), "request header", "%s: sent %s", desc, hstr(h))
				switch {
				case mode == "error":
					result = "error"
				case got.resp.StatusCode == 304 && ent != nil:
					// Does it say that the stored response is valid?
					if sent := h.Get("If-None-Match"); sent != "" {
						if sent == ent.inm {
							result = "validated"
						} else {
							result = "forward"
						}
					} else if h.Get("If-Modified-Since") == ent.ims {
						result = "validated"
					} else {
						result = "forward"
					}
				case got.resp.StatusCode >= 500 && ent != nil && k.sifErr:
					result = "stored"
				default:
					result = "forward"
				}
			}
			x.State(fmt.Sprint(vals, hist, result))
			if result == "error" {
				if x.Check(err != nil && resp == nil, "error swallowed", "%s: no error", desc) {
					x.Check(errors.Is(err, errBoom), "other error", "%s: %v", desc, err)
				}
				x.Obs("error")
				if x.Failed() {
					return
				}
				continue
			}
			if !x.Check(err == nil && resp != nil, "error", "%s: %v", desc, err) {
				return
			}
			var wantStatus int
			var wantHeader http.Header
			var wantBody string
			switch result {
			case "forward":
				wantStatus, wantHeader, wantBody = got.resp.StatusCode, got.resp.Header.Clone(), got.body.data
				wantHeader.Del("X-From-Cache")
			case "stored":
				wantStatus, wantHeader, wantBody = 200, ent.header.Clone(), ent.body
			case "validated":
				wantStatus, wantHeader, wantBody = 200, ent.header.Clone(), ent.body
				for n, v := range got.resp.Header {
					switch n {
					case "Keep-Alive", "Proxy-Authenticate", "Upgrade":
					default:
						wantHeader[n] = v
					}
				}
			}
			cached := resp.Header.Get("X-From-Cache") != ""
			x.Check(cached == (result != "forward"), "X-From-Cache", "%s: X-From-Cache %v, %s", desc, cached, result)
			x.Check(resp.StatusCode == wantStatus, "status", "%s: status %d want %d", desc, resp.StatusCode, wantStatus)
			x.Check(sameHeader(resp.Header, wantHeader, "X-From-Cache", "Content-Length", "Connection"), "header", "%s: %s: header %s want %s", desc, result, hstr(resp.Header), hstr(wantHeader))
			if got != nil && result != "forward" {
				x.Check(got.body.closed > 0, "body not closed", "%s: the body of the origin's %d was not closed", desc, got.resp.StatusCode)
			}
			complete := true
			switch use {
			case useFull:
				b, err := readAll(x, resp.Body)
				cerr := resp.Body.Close()
				x.Check(err == nil && cerr == nil && b == wantBody, "body", "%s: %s: body %q %v %v want %q", desc, result, b, err, cerr, wantBody)
			case usePartial:
				var p [1]byte
				resp.Body.Read(p[:])
				resp.Body.Close()
				complete = len(wantBody) == 0
			case useClose:
				resp.Body.Close()
				complete = len(wantBody) == 0
			case useAbandon:
				complete = false
			}
			if got != nil && result == "forward" && use != useAbandon {
				x.Check(got.body.closed > 0, "close not passed on", "%s", desc)
			}
			nst := s.stores()
			stored := false
			switch result {
			case "forward":
				stored = got.resp.StatusCode == 200 && mode != "no-store" && complete
			case "validated":
				stored = complete
			}
			if stored {
				x.Check(nst == 1, "not stored", "%s: %s: stored %d times", desc, result, nst)
				ent = &entry{header: wantHeader, body: wantBody, date: now, inm: wantHeader.Get("ETag"), ims: wantHeader.Get("Last-Modified")}
			} else {
				x.Check(nst == 0, "stored", "%s: %s: stored %d times", desc, result, nst)
			}
			x.Obs("%s %s %q", step, result, wantBody)
			if x.Failed() {
				return
			}
		}
	}
	add(&mc.Scenario{Name: "validate/2", Prop: "C21", Tree: true, Bubble: true, Run: func(x *mc.X) {
		run(x, 2, len(kinds), len(modes), []int{useFull, usePartial, useClose, useAbandon}, []time.Duration{20 * time.Second, time.Second})
	}})
	add(&mc.Scenario{Name: "validate/3", Prop: "C21", Tree: true, Bubble: true, Quick: mc.Bound{Skip: true}, Thorough: mc.Bound{Dev: 1}, Run: func(x *mc.X) {
		run(x, 3, 4, 5, []int{useFull, usePartial}, []time.Duration{20 * time.Second, time.Second})
	}})
}

// The fields of a 304 replace those of the stored response, one by one.
func init() {
	values := [][]string{nil, {"a"}, {"b"}, {""}, {"a", "b"}, {"b", "a", "b"}}
	fields := []struct {
		name string
		hop  bool
	}{
		{"X-A", false}, {"Set-Cookie", false}, {"Content-Type", false}, {"Warning", false}, {"Link", false}, {"Content-Language", false}, {"Content-Location", false},
		{"Keep-Alive", true}, {"Proxy-Authenticate", true}, {"Proxy-Authorization", true}, {"Te", true}, {"Upgrade", true},
	}
	add(&mc.Scenario{Name: "validate/fields", Prop: "C21", Tree: true, Bubble: true, Run: func(x *mc.X) {
		f := fields[x.Choose(len(fields), "field")]
		was, is := values[x.Choose(len(values), "stored")], values[x.Choose(len(values), "updated")]
		other := mc.Pick(x, "another field", "", "stored", "updated")
		how := mc.Pick(x, "request", "", "no-cache")
		// A 304 need not repeat what did not change.
		without := mc.Pick(x, "304 without", "", "Date", "ETag", "Cache-Control", "ETag Cache-Control", "Date ETag Cache-Control")
		o := &origin{x: x}
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			h := hdr("Date", httpDate(time.Now()), "ETag", "\"e\"", "Cache-Control", "max-age=10")
			v := was
			if q.header.Get("If-None-Match") != "" {
				v = is
				for _, k := range strings.Fields(without) {
					h.Del(k)
				}
			}
			if v != nil {
				h[f.name] = append([]string(nil), v...)
			}
			if q.header.Get("If-None-Match") != "" {
				if other == "updated" {
					h["X-Other"] = []string{"2"}
				}
				return response(req, 304, h, ""), nil
			}
			if other != "" {
				h["X-Other"] = []string{"1", "1"}
			}
			return response(req, 200, h, "page"), nil
		}
		c := newCache(x, std, o, newStorage())
		g := get(x, c, newReq("GET", "http://h/a", nil))
		x.Check(g.err == nil && g.cerr == nil && len(o.take()) == 1, "fill", "%v", g)
		var h http.Header
		filled := time.Now()
		time.Sleep(5 * time.Second)
		if how == "" {
			time.Sleep(10 * time.Second)
		} else {
			h = hdr("Cache-Control", how)
		}
		want := hdr("Date", httpDate(time.Now()), "ETag", "\"e\"", "Cache-Control", "max-age=10")
		renewed := !strings.Contains(without, "Date")
		if !renewed {
			want.Set("Date", httpDate(filled))
		}
		v := was
		if is != nil && !f.hop {
			v = is
		}
		if v != nil {
			want[f.name] = v
		}
		switch other {
		case "stored":
			want["X-Other"] = []string{"1", "1"}
		case "updated":
			want["X-Other"] = []string{"2"}
		}
		x.NonTrivial()
		desc := fmt.Sprintf("%s stored %q updated %q, other %s, %s, 304 without %s", f.name, was, is, other, how, without)
		for i := 0; i < 3; i++ {
			g := get(x, c, newReq("GET", "http://h/a", h))
			n := len(o.take())
			h = nil
			if !x.Check(g.err == nil && g.rerr == nil && g.cerr == nil, "error", "%s: %v", desc, g) {
				return
			}
			asks := i == 0 || !renewed && how == ""
			x.Check(n == map[bool]int{true: 1}[asks] && g.cached && g.status == 200 && g.body == "page", "validated response", "%s: request %d: %d origin requests, %v", desc, i, n, g)
			x.Check(sameHeader(g.header, want, "X-From-Cache", "Content-Length", "Connection"), "header", "%s: request %d: %s want %s", desc, i, hstr(g.header), hstr(want))
			x.Obs("%s %s", desc, g)
		}
	}})
}

var fillers = map[int]string{}

// filler returns n bytes without a short period.
func filler(n int) string {
	if _, ok := fillers[n]; !ok {
		b := make([]byte, n)
		v := uint32(1)
		for i := range b {
			v = v*1664525 + 1013904223
			b[i] = byte(v >> 24)
		}
		fillers[n] = string(b)
	}
	return fillers[n]
}

// C22: complete bodies only.
func init() {
	add(&mc.Scenario{Name: "complete/reads", Prop: "C22", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		size := mc.Pick(x, "size", 5, 1, 0, 3000)
		fr := mc.Pick(x, "framing", "length", "chunked", "close", "http/2", "gunzipped")
		chunk := mc.Pick(x, "chunk", 0, 2)
		eof := x.Flag("EOF with the last bytes")
		kind := mc.Pick(x, "reading", "all", "some", "fail", "exact")
		at := 0
		if kind == "some" || kind == "fail" {
			at = mc.Pick(x, "position", 0, 1, size/2, size-1, size)
		}
		berr := errBody
		if kind == "fail" {
			berr = mc.Pick(x, "error", errBody, io.ErrUnexpectedEOF, fmt.Errorf("body: %w", io.EOF), context.Canceled)
		}
		if at < 0 || at > size || (kind == "some" && at >= size && size > 0) || (kind == "some" && size == 0 && at > 0) || (size == 3000 && chunk == 2) {
			x.Discard()
			return
		}
		closes := x.Choose(4, "closes")
		pre := mc.Pick(x, "before", "empty", "older entry", "stale entry")
		method := "GET"
		data := strings.Repeat("z", size)
		if size == 5 {
			data = "ab\r\nc"
		}
		o := &origin{x: x}
		ver := 0
		var use bool
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			ver++
			r := response(req, 200, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=10", "X-Ver", fmt.Sprint(ver)), data)
			b := r.Body.(*body)
			if use {
				b.chunk, b.eof = chunk, eof
				if kind == "fail" {
					b.errAt, b.err = at, berr
				}
				switch fr {
				case "chunked":
					r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
				case "close":
					r.ContentLength, r.Close = -1, true
				case "http/2":
					r.Proto, r.ProtoMajor, r.ProtoMinor, r.ContentLength = "HTTP/2.0", 2, 0, -1
				case "gunzipped":
					r.ContentLength, r.Uncompressed = -1, true
				}
			}
			return r, nil
		}
		s := newStorage()
		c := newCache(x, p, o, s)
		if pre != "empty" {
			f := get(x, c, newReq(method, "http://h/a", nil))
			x.Check(f.cerr == nil && s.stores() == 1, "fill", "%v", f)
			if pre == "stale entry" {
				time.Sleep(25 * time.Hour)
			}
		}
		before := ver
		use = true
		s.ops = nil
		var rh http.Header
		if pre == "older entry" {
			rh = hdr("Cache-Control", "no-cache")
		}
		o.take()
		resp, err := c.Do(newReq(method, "http://h/a", rh))
		desc := fmt.Sprintf("%s size %d %s chunk %d eof %v, %s %d, close %d times, %s", p.name, size, fr, chunk, eof, kind, at, closes, pre)
		if !x.Check(err == nil, "error", "%s: %v", desc, err) {
			return
		}
		rq := o.take()
		if !x.Check(len(rq) == 1, "origin requests", "%s: %d origin requests", desc, len(rq)) {
			return
		}
		b := rq[0].body
		x.NonTrivial()
		got := ""
		complete, judged := false, true
		switch kind {
		case "all", "fail":
			var rerr error
			got, rerr = readAll(x, resp.Body)
			if kind == "fail" && eof && at == size && size > 0 {
				// The end was delivered before the failure.
				complete = true
			} else if kind == "fail" {
				x.Check(rerr == berr, "read error lost", "%s: %v", desc, rerr)
			} else {
				x.Check(rerr == nil, "read", "%s: %v", desc, rerr)
				complete = true
			}
		case "some":
			buf := make([]byte, at)
			n, _ := io.ReadFull(resp.Body, buf)
			got = string(buf[:n])
			// Nothing to read is nothing missed.
			judged = size > 0
		case "exact":
			buf := make([]byte, size)
			n, _ := io.ReadFull(resp.Body, buf)
			got = string(buf[:n])
			complete = true
			judged = b.sawEOF
		}
		if kind == "fail" && at == size && (!eof || size == 0) {
			// All bytes are there, the end is not unless the length says so.
			judged = fr != "length"
			complete = fr == "length"
		}
		x.Check(strings.HasPrefix(data, got) && (!complete || got == data), "wrong bytes", "%s: %q", desc, got)
		x.Check(s.stores() == 0, "stored before close", "%s", desc)
		for i := 0; i < closes; i++ {
			cerr := resp.Body.Close()
			x.Check(cerr == nil, "close", "%s: %v", desc, cerr)
		}
		x.Check((b.closed > 0) == (closes > 0), "close not passed on", "%s: closed %d times", desc, b.closed)
		n := s.stores()
		x.Obs("%s: %d", desc, n)
		x.State(desc)
		if judged {
			if complete && closes > 0 {
				x.Check(n == 1, "not stored once", "%s: stored %d times", desc, n)
			} else {
				x.Check(n == 0, "incomplete response stored", "%s: stored %d times", desc, n)
			}
		} else {
			x.Check(n <= 1 && (closes > 0 || n == 0), "not stored once", "%s: stored %d times", desc, n)
		}
		use = false
		o.take()
		f := get(x, c, newReq(method, "http://h/a", hdr("Cache-Control", "max-stale")))
		reqs := o.take()
		x.Check(f.err == nil && f.rerr == nil && f.cerr == nil, "error", "%s: next: %v %v %v", desc, f.err, f.rerr, f.cerr)
		x.Check(f.body == data, "damaged body served", "%s: next: %q", desc, f.body)
		v := f.header.Get("X-Ver")
		switch {
		case n == 1:
			x.Check(len(reqs) == 0 && v == fmt.Sprint(before+1), "not served", "%s: next: %d requests, version %s", desc, len(reqs), v)
		case pre == "older entry" || (pre == "stale entry" && !p.aggr):
			x.Check(len(reqs) == 0 && v == fmt.Sprint(before), "older entry lost", "%s: next: %d requests, version %s", desc, len(reqs), v)
		default:
			x.Check(len(reqs) == 1, "served", "%s: next: %d requests, version %s", desc, len(reqs), v)
		}
	}})

	// Whatever the size.
	add(&mc.Scenario{Name: "complete/large", Prop: "C22", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		size := mc.Pick(x, "size", 511, 512, 513, 4095, 4096, 4097, 32<<10, 32<<10+1, 64<<10, 64<<10+1, 512<<10, 512<<10+1, 1<<20, 1<<20+1, 4<<20+1, 11<<20, 17<<20)
		if x.Thorough() {
			size += mc.Pick(x, "more", 0, 1, 10<<20, 16<<20)
		}
		chunk := mc.Pick(x, "chunk", 0, 1000)
		known := x.Flag("content length")
		first := mc.Pick(x, "read", size, size-1, size/2)
		data := filler(size)
		o := &origin{x: x}
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			r := response(req, 200, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=10"), data)
			r.Body.(*body).chunk = chunk
			if !known {
				r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
			}
			return r, nil
		}
		s := newStorage()
		c := newCache(x, p, o, s)
		desc := fmt.Sprintf("%s size %d chunk %d known %v, read %d", p.name, size, chunk, known, first)
		x.NonTrivial()
		x.Obs("%s", desc)
		x.State(desc)
		resp, err := c.Do(newReq("GET", "http://h/a", nil))
		if !x.Check(err == nil, "error", "%s: %v", desc, err) {
			return
		}
		if first == size {
			got, err := readAll(x, resp.Body)
			x.Check(err == nil && got == data, "wrong bytes", "%s: %d bytes, %v", desc, len(got), err)
		} else {
			n, err := io.CopyN(io.Discard, resp.Body, int64(first))
			x.Check(err == nil && n == int64(first), "wrong bytes", "%s: %d bytes, %v", desc, n, err)
		}
		x.Check(resp.Body.Close() == nil, "close", "%s", desc)
		if first == size {
			x.Check(s.stores() == 1, "not stored once", "%s: stored %d times", desc, s.stores())
		} else {
			x.Check(s.stores() == 0, "incomplete response stored", "%s: stored %d times", desc, s.stores())
		}
		o.take()
		f := get(x, c, newReq("GET", "http://h/a", nil))
		n := len(o.take())
		x.Check(f.err == nil && f.rerr == nil && f.cerr == nil && f.body == data, "damaged body served", "%s: next: %d bytes, %v %v %v", desc, len(f.body), f.err, f.rerr, f.cerr)
		x.Check((n == 0) == (first == size), "next request", "%s: next: %d requests", desc, n)
	}})

	// A caller may change the response it got.
	add(&mc.Scenario{Name: "complete/mutate", Prop: "C22", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		hit := mc.Pick(x, "change", "header", "status", "body", "del header", "length", "request", "bytes")
		when := mc.Pick(x, "when", "before reading", "before close")
		valid := x.Flag("validated")
		o := &origin{x: x}
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			h := hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=10", "X-Ver", "1", "Etag", "\"e\"")
			if q.header.Get("If-None-Match") != "" {
				return response(req, 304, h, ""), nil
			}
			return response(req, 200, h, "hello"), nil
		}
		s := newStorage()
		c := newCache(x, p, o, s)
		if valid {
			get(x, c, newReq("GET", "http://h/a", nil))
			time.Sleep(20 * time.Second)
			if p.aggr {
				x.Discard()
				return
			}
		}
		resp, err := c.Do(newReq("GET", "http://h/a", nil))
		if !x.Check(err == nil, "error", "%v", err) {
			return
		}
		rc := resp.Body
		mutate := func() {
			switch hit {
			case "header":
				resp.Header.Set("X-Ver", "changed")
				resp.Header["Etag"][0] = "\"changed\""
			case "status":
				resp.StatusCode, resp.Status = 500, "500 Internal Server Error"
			case "body":
				resp.Body = io.NopCloser(strings.NewReader("changed"))
			case "del header":
				resp.Header.Del("X-Ver")
			case "length":
				resp.ContentLength = 2
			case "request":
				resp.Request = nil
			}
		}
		if when == "before reading" {
			mutate()
		}
		b, _ := io.ReadAll(rc)
		if hit == "bytes" {
			for i := range b {
				b[i] = '#'
			}
		}
		if when == "before close" {
			mutate()
		}
		cerr := rc.Close()
		x.NonTrivial()
		desc := fmt.Sprintf("%s %s %s %v", p.name, hit, when, valid)
		x.Obs("%s", desc)
		x.Check(cerr == nil, "close", "%s: %v", desc, cerr)
		o.take()
		f := get(x, c, newReq("GET", "http://h/a", nil))
		x.Check(f.err == nil && len(o.take()) == 0, "not served", "%s: %v", desc, f.err)
		x.Check(f.status == 200 && f.body == "hello" && f.header.Get("X-Ver") == "1" && f.header.Get("Etag") == "\"e\"", "caller's change stored", "%s: %v", desc, f)
		// And of what is served later.
		g := get(x, c, newReq("GET", "http://h/a", nil))
		x.Check(g.body == "hello", "entry damaged", "%s: %v", desc, g)
	}})

	// Storage faults.
	add(&mc.Scenario{Name: "complete/faults", Prop: "C22", Tree: true, Bubble: true, Run: func(x *mc.X) {
		p := mc.Pick(x, "policy", std, aggr)
		m := mc.Pick(x, "method", "GET", "HEAD")
		fill := x.Flag("filled")
		lerr := x.Flag("load fails")
		serr := x.Flag("store fails")
		cerr := x.Flag("close fails")
		stale := x.Flag("stale")
		data := mc.Pick(x, "body", "hello", "")
		closes := 1 + x.Choose(2, "closes")
		o := &origin{x: x}
		var ce error
		ver := 0
		o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
			ver++
			r := response(req, 200, hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=10", "X-Ver", fmt.Sprint(ver)), data)
			r.Body.(*body).cerr = ce
			return r, nil
		}
		s := newStorage()
		c := newCache(x, p, o, s)
		if fill {
			get(x, c, newReq(m, "http://h/a", nil))
		}
		if stale {
			time.Sleep(25 * time.Hour)
		}
		o.take()
		s.ops = nil
		if lerr {
			s.loadErr = errLoad
		}
		if serr {
			s.storeErr = errStore
		}
		if cerr {
			ce = errClose
		}
		desc := fmt.Sprintf("%s %s filled %v load %v store %v close %v stale %v %q", p.name, m, fill, lerr, serr, cerr, stale, data)
		x.NonTrivial()
		x.Obs("%s", desc)
		resp, err := c.Do(newReq(m, "http://h/a", nil))
		reqs := o.take()
		if lerr {
			x.Check(err != nil && resp == nil, "load error lost", "%s: no error", desc)
			x.Check(errors.Is(err, errLoad), "load error lost", "%s: %v", desc, err)
			x.Check(len(reqs) == 0, "origin contacted", "%s: origin contacted after a load error", desc)
			return
		}
		if !x.Check(err == nil, "error", "%s: %v", desc, err) {
			return
		}
		contact := !fill || stale
		x.Check(len(reqs) == map[bool]int{true: 1, false: 0}[contact], "origin requests", "%s: %d", desc, len(reqs))
		b, rerr := readAll(x, resp.Body)
		x.Check(rerr == nil && (b == data || m == "HEAD"), "body", "%s: %q %v", desc, b, rerr)
		first := resp.Body.Close()
		if contact {
			x.Check((first != nil) == (serr || cerr), "close error", "%s: Close returned %v", desc, first)
			if serr {
				x.Check(errors.Is(first, errStore), "store error lost", "%s: Close returned %v", desc, first)
			}
			if cerr {
				x.Check(errors.Is(first, errClose), "close error lost", "%s: Close returned %v", desc, first)
			}
			for i := 1; i < closes; i++ {
				resp.Body.Close()
			}
			x.Check(s.stores() == 1, "not stored once", "%s: %d", desc, s.stores())
		} else {
			x.Check(first == nil && s.stores() == 0, "close error", "%s: %v", desc, first)
		}
		// The failure leaves the entry as it was.
		s.storeErr, ce = nil, nil
		o.take()
		f := get(x, c, newReq(m, "http://h/a", nil))
		n := len(o.take())
		x.Check(f.err == nil && f.cerr == nil, "error", "%s: next: %v", desc, f)
		stored := (fill && !stale) || !serr
		x.Check((n == 0) == stored, "next request", "%s: next: %d requests", desc, n)
	}})
}

// The lines of a long body, that do not fit in one buffer.
const longBody = 700

// C23: concurrent use.
func init() {
	type cfg struct {
		name   string
		store  string
		procs  [][]string // per goroutine: kind:url
		bumps  bool
		p      policy
		quick  mc.Bound
		thor   mc.Bound
		fine   bool
		warmup bool
		long   bool
	}
	cfgs := []cfg{
		{name: "same url", store: "memory", procs: [][]string{{"plain:a", "plain:a"}, {"plain:a"}, {"no-cache:a"}}, bumps: true, quick: mc.Bound{Dev: 2, Policies: 3}, thor: mc.Bound{Dev: 3, Policies: 3}},
		{name: "two urls", store: "memory", procs: [][]string{{"plain:a", "plain:b"}, {"no-cache:b", "plain:a"}}, bumps: true, quick: mc.Bound{Dev: 2, Policies: 3}, thor: mc.Bound{Dev: 4, Policies: 3}},
		{name: "validation", store: "memory", procs: [][]string{{"no-cache:a"}, {"no-cache:a"}, {"plain:a"}}, bumps: true, warmup: true, quick: mc.Bound{Dev: 2, Policies: 3}, thor: mc.Bound{Dev: 3, Policies: 3}},
		{name: "head and get", store: "memory", procs: [][]string{{"HEAD:a", "plain:a"}, {"plain:a", "HEAD:a"}}, quick: mc.Bound{Dev: 2, Policies: 3}, thor: mc.Bound{Dev: 4, Policies: 3}},
		{name: "aggressive", store: "memory", p: aggr, procs: [][]string{{"plain:a", "no-cache:a"}, {"plain:b"}, {"no-cache:a"}}, bumps: true, quick: mc.Bound{Dev: 2, Policies: 3}, thor: mc.Bound{Dev: 3, Policies: 3}},
		{name: "disk", store: "disk", procs: [][]string{{"no-cache:a"}, {"plain:a"}}, warmup: true, bumps: true, quick: mc.Bound{Dev: 2, Policies: 3}, thor: mc.Bound{Dev: 3, Policies: 3}},
		{name: "disk, two urls", store: "disk", procs: [][]string{{"plain:a", "plain:b"}, {"plain:b", "plain:a"}}, quick: mc.Bound{Dev: 1, Policies: 3}, thor: mc.Bound{Dev: 3, Policies: 3}},
		{name: "expiring", store: "memory", procs: [][]string{{"plain:a", "sleep", "plain:a"}, {"sleep", "plain:a", "plain:a"}, {"sleep", "plain:a"}}, bumps: true, warmup: true, quick: mc.Bound{Dev: 2, Policies: 3}, thor: mc.Bound{Dev: 3, Policies: 3}},
		{name: "long bodies", store: "memory", procs: [][]string{{"no-cache:a"}, {"plain:a"}}, bumps: true, warmup: true, long: true, quick: mc.Bound{Dev: 2, Policies: 2}, thor: mc.Bound{Dev: 3, Policies: 3}},
		{name: "long bodies, disk", store: "disk", procs: [][]string{{"no-cache:a"}, {"plain:a"}}, bumps: true, warmup: true, long: true, quick: mc.Bound{Dev: 1, Policies: 2}, thor: mc.Bound{Dev: 2, Policies: 3}},
		{name: "statements", store: "memory", procs: [][]string{{"no-cache:a"}, {"no-cache:a"}}, bumps: true, warmup: true, fine: true, quick: mc.Bound{Dev: 1, Policies: 2}, thor: mc.Bound{Dev: 2, Policies: 3}},
	}
	for _, c := range cfgs {
		c := c
		add(&mc.Scenario{Name: "concurrent/" + c.name, Prop: "C23", Quick: c.quick, Thorough: c.thor, Fine: c.fine, FineFiles: []string{"httpcache.go", "cachereader.go", "memstore.go", "rfc7234.go", "utils.go"}, Run: func(x *mc.X) {
			vers := map[string]int{}
			o := &origin{x: x}
			o.serve = func(q *oreq, req *http.Request) (*http.Response, error) {
				x.Point("origin")
				k := q.url
				if vers[k] == 0 {
					vers[k] = 1
				} else if c.bumps && q.method == "GET" {
					vers[k] += x.Choose(2, "new version")
				}
				v := vers[k]
				h := hdr("Date", httpDate(time.Now()), "Cache-Control", "max-age=10", "X-Is", fmt.Sprintf("%s %s v%d", q.method, k, v), "Etag", fmt.Sprintf("\"%s v%d\"", k, v))
				if q.header.Get("If-None-Match") == h.Get("Etag") {
					return response(req, 304, h, ""), nil
				}
				data := fmt.Sprintf("%s v%d", k, v)
				if c.long {
					data = strings.Repeat(data+"\n", longBody)
				}
				return response(req, 200, h, data), nil
			}
			var st antcache.Storage
			if c.store == "disk" {
				f := vos.New()
				f.AddDir("/d")
				vos.Use(f)
				d, err := antcache.Open("/d", antcache.SweepEvery(0))
				if err != nil {
					x.Fail("open", "%v", err)
					return
				}
				st = d
			}
			ca := newCache(x, c.p, o, st)
			one := func(what string) {
				if what == "sleep" {
					x.Point("sleep")
					time.Sleep(11 * time.Second)
					x.Point("awake")
					return
				}
				kind, u, _ := strings.Cut(what, ":")
				u = "http://h/" + u
				m := "GET"
				var h http.Header
				if kind == "no-cache" {
					h = hdr("Cache-Control", "no-cache")
				}
				if kind == "HEAD" {
					m = "HEAD"
				}
				resp, err := ca.Do(newReq(m, u, h))
				if !x.Check(err == nil, "error", "%s: %v", what, err) {
					return
				}
				is := resp.Header.Get("X-Is")
				var b []byte
				buf := make([]byte, 6)
				if c.long {
					buf = make([]byte, 4000)
				}
				for {
					n, err := resp.Body.Read(buf)
					b = append(b, buf[:n]...)
					if err == io.EOF {
						break
					}
					if !x.Check(err == nil, "read", "%s: %v", what, err) {
						return
					}
					x.Point("read")
				}
				cerr := resp.Body.Close()
				x.Check(cerr == nil, "close", "%s: %v", what, cerr)
				is2 := resp.Header.Get("X-Is")
				if c.long {
					// All lines must be the same, one stands for them.
					line, _, _ := strings.Cut(string(b), "\n")
					x.Check(string(b) == strings.Repeat(line+"\n", longBody), "mixed up", "%s: a body of several versions", what)
					b = []byte(line)
				}
				x.Obs("%s %s %q %v", what, is, b, resp.Header.Get("X-From-Cache"))
				x.Check(is == is2, "header changed", "%s: header changed from %s to %s", what, is, is2)
				if m == "HEAD" {
					x.Check(strings.HasPrefix(is, "HEAD "+u+" v") && len(b) == 0, "mixed up", "%s: got %s %q", what, is, b)
				} else {
					x.Check(is == "GET "+string(b) && strings.HasPrefix(string(b), u+" v"), "mixed up", "%s: got %s with body %q", what, is, b)
					x.Check(resp.Header.Get("Etag") == "\""+string(b)+"\"", "mixed up", "%s: etag %s with body %q", what, resp.Header.Get("Etag"), b)
				}
				x.Check(resp.StatusCode == 200, "mixed up", "%s: status %d", what, resp.StatusCode)
				var v int
				fmt.Sscanf(is[strings.LastIndex(is, "v"):], "v%d", &v)
				x.Check(v >= 1 && v <= vers[u], "mixed up", "%s: version %d of %d", what, v, vers[u])
			}
			x.NonTrivial()
			if c.warmup {
				x.Go("fill", func() { one("plain:a") })
				if !x.Finish() {
					return
				}
			}
			for i, p := range c.procs {
				p := p
				x.Go(fmt.Sprint("caller", i), func() {
					for _, w := range p {
						one(w)
					}
				})
			}
			if !x.Finish() {
				return
			}
			x.Go("after", func() {
				one("plain:a")
				one("no-cache:a")
				one("plain:a")
			})
			x.Finish()
		}})
	}
}
