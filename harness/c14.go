package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"

	"verif/harness/ref"
)

// The default fetcher against servers which follow HTTP or do not.

// script is what a server does with one connection.
type script struct {
	f    func(conn net.Conn, br *bufio.Reader, s *script)
	line string // request line seen
	sent int64  // body bytes handed to the kernel
	done chan struct{}
}

// tcpServer serves scripts by the token in the request path.
type tcpServer struct {
	ln      net.Listener
	addr    string
	mu      sync.Mutex
	scripts map[string]*script
	n       int64
}

func newTCPServer() *tcpServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &tcpServer{ln: ln, addr: ln.Addr().String(), scripts: map[string]*script{}}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(conn)
		}
	}()
	return s
}

func (s *tcpServer) serve(conn net.Conn) {
	defer conn.Close()
	defer func() { recover() }()
	conn.(*net.TCPConn).SetWriteBuffer(32 << 10)
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(conn)
	line, err := br.ReadString('\n')
	if err != nil {
		return
	}
	for {
		h, err := br.ReadString('\n')
		if err != nil {
			return
		}
		if strings.TrimSpace(h) == "" {
			break
		}
	}
	line = strings.TrimSpace(line)
	tok := ""
	if p := strings.Split(line, " "); len(p) > 1 {
		tok = p[1]
		if i := strings.Index(tok[1:], "/"); i >= 0 {
			tok = tok[:i+1]
		}
	}
	s.mu.Lock()
	sc := s.scripts[tok]
	s.mu.Unlock()
	if sc == nil {
		io.WriteString(conn, "HTTP/1.1 410 Gone\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
		return
	}
	sc.line = line
	sc.f(conn, br, sc)
	conn.Close()
	select {
	case <-sc.done:
	default:
		close(sc.done)
	}
}

// add registers a script and returns its URL.
func (s *tcpServer) add(f func(conn net.Conn, br *bufio.Reader, sc *script), path string) (string, *script) {
	tok := fmt.Sprintf("/t%d", atomic.AddInt64(&s.n, 1))
	sc := &script{f: f, done: make(chan struct{})}
	s.mu.Lock()
	s.scripts[tok] = sc
	s.mu.Unlock()
	return "http://" + s.addr + tok + path, sc
}

func chunked(r *rand.Rand, b []byte) string {
	var s strings.Builder
	for len(b) > 0 {
		n := 1 + r.Intn(len(b))
		fmt.Fprintf(&s, "%x\r\n%s\r\n", n, b[:n])
		b = b[n:]
	}
	return s.String()
}

func sendAll(conn net.Conn, r *rand.Rand, parts ...string) {
	for _, p := range parts {
		for len(p) > 0 {
			n := len(p)
			if r != nil && r.Intn(3) == 0 && n > 1 {
				n = 1 + r.Intn(n)
			}
			if _, err := io.WriteString(conn, p[:n]); err != nil {
				return
			}
			p = p[n:]
		}
	}
}

const slowSlack = 20 * time.Second

type fetchRes struct {
	data []byte
	err  error
	took time.Duration
}

func fetchTimed(f fetcher.Fetcher, u string, max int64, to time.Duration) fetchRes {
	t := time.Now()
	d, err := f.DownloadFile(u, max, to)
	return fetchRes{d, err, time.Since(t)}
}

func isDL(err error) (length, http bool, status int) {
	k := classify(err)
	return k.DLLength, k.DLHTTP, k.Status
}

// limitFor draws a limit around the body size.
func limitFor(r *rand.Rand, n int64) int64 {
	switch r.Intn(9) {
	case 0:
		return n
	case 1:
		return n + 1
	case 2:
		if n > 0 {
			return n - 1
		}
	case 3:
		return math.MaxInt64
	case 4:
		return math.MaxInt64 - 1
	case 5:
		return 0
	case 6:
		return n / 2
	case 7:
		return n + 1 + r.Int63n(100000)
	}
	return n
}

// fetchCase: one well-formed or malformed finite response.
func fetchCase(c *Case, srv *tcpServer, f fetcher.Fetcher) {
	r := c.Rng
	body := make([]byte, pick(r, []int{0, 1, 2, 100, 511, 512, 513, 4096, 32768, 70000, 300000}))
	r.Read(body)
	seed := r.Int63()
	kind := pick(r, []string{"length", "length", "length", "chunked", "chunked", "close", "status", "status", "redirect", "short", "short chunked", "bad chunk", "excess", "two lengths", "bad length", "declared", "garbage", "drop", "late", "continue", "long headers", "odd 200"})
	limit := limitFor(r, int64(len(body)))
	status := 200
	n := len(body)
	expect := "body" // body, http, error, prefix
	var f2 func(conn net.Conn, br *bufio.Reader, sc *script)
	hdr := func(code int, h ...string) string {
		return fmt.Sprintf("HTTP/1.1 %d Thing\r\n%s\r\n\r\n", code, strings.Join(append(h, "Connection: close", "Content-Type: x"), "\r\n"))
	}
	send := func(parts ...string) func(conn net.Conn, br *bufio.Reader, sc *script) {
		return func(conn net.Conn, br *bufio.Reader, sc *script) {
			sendAll(conn, rand.New(rand.NewSource(seed)), parts...)
		}
	}
	cl := func(n int) string { return fmt.Sprintf("Content-Length: %d", n) }
	te := "Transfer-Encoding: chunked"
	switch kind {
	case "length":
		f2 = send(hdr(200, cl(n)), string(body))
	case "chunked":
		f2 = send(hdr(200, te), chunked(r, body), "0\r\n\r\n")
	case "close":
		f2 = send(hdr(200), string(body))
	case "status":
		status = pick(r, []int{201, 202, 203, 205, 206, 300, 304, 305, 400, 401, 402, 403, 404, 404, 405, 406, 408, 409, 410, 412, 413, 416, 418, 422, 426, 429, 451, 500, 501, 502, 503, 504, 505, 507, 511, 599, 600, 999, 204})
		expect = "http"
		if status == 204 || status == 304 {
			f2 = send(hdr(status))
		} else if r.Intn(2) == 0 {
			f2 = send(hdr(status, cl(n)), string(body))
		} else {
			f2 = send(hdr(status, te), chunked(r, body), "0\r\n\r\n")
		}
	case "redirect":
		code := pick(r, []int{301, 302, 303, 307, 308})
		u2, _ := srv.add(send(hdr(200, cl(n)), string(body)), "/x")
		if r.Intn(3) == 0 {
			status, expect = 404, "http"
			u2, _ = srv.add(send(hdr(404, cl(0))), "/x")
		}
		f2 = send(hdr(code, "Location: "+u2, cl(0)))
	case "short":
		m := n + 1 + r.Intn(5000)
		expect = "error"
		f2 = send(hdr(200, cl(m)), string(body))
	case "short chunked":
		expect = "error"
		f2 = send(hdr(200, te), pick(r, []string{chunked(r, body), chunked(r, body) + "5\r\nab", chunked(r, body) + "5", chunked(r, body) + "0\r\n"}))
		if r.Intn(2) == 0 && n > 2 {
			s := fmt.Sprintf("%x\r\n%s", n, body[:r.Intn(n-1)])
			f2 = send(hdr(200, te), s)
		}
	case "bad chunk":
		expect = "error"
		f2 = send(hdr(200, te), chunked(r, body), pick(r, []string{"zz\r\n", "-1\r\n", "fffffffffffffffff\r\n", "\r\n\r\n", "0x5\r\nabcde\r\n", "ffffffffffffffff\r\nabc"}), "junk")
	case "excess":
		f2 = send(hdr(200, cl(n)), string(body), "more than declared")
	case "two lengths":
		expect = "error"
		f2 = send(hdr(200, cl(n), cl(n+1)), string(body))
	case "bad length":
		expect = "error"
		f2 = send(hdr(200, pick(r, []string{"Content-Length: -5", "Content-Length: abc", "Content-Length: 99999999999999999999", "Content-Length: 1e3", "Content-Length: 0x10", "Content-Length: 5 5"})), string(body))
	case "declared": // declares far too much, sends little or nothing, keeps silent
		m := int64(1) << uint(20+r.Intn(42))
		limit = r.Int63n(1 << 20)
		expect = "error"
		f2 = send(hdr(200, fmt.Sprintf("Content-Length: %d", m)), string(body))
	case "garbage":
		expect = "error"
		g := make([]byte, 200)
		r.Read(g)
		f2 = send(pick(r, []string{"", "\r\n\r\n", "HTTP/1.1", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\nBroken header\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/1.1 20 OK\r\n\r\n", "HTTP/1.1 -200 OK\r\n\r\n", "ICY 200 OK\r\n\r\nabc", "SSH-2.0-x\r\n", string(g), "\x16\x03\x01\x02\x00"}))
	case "drop":
		expect = "error"
		f2 = func(conn net.Conn, br *bufio.Reader, sc *script) {
			conn.(*net.TCPConn).SetLinger(0)
			if r := rand.New(rand.NewSource(seed)); r.Intn(2) == 0 {
				io.WriteString(conn, hdr(200, cl(n+10)))
				conn.Write(body)
			}
		}
	case "late":
		d := time.Duration(r.Intn(120)) * time.Millisecond
		f2 = func(conn net.Conn, br *bufio.Reader, sc *script) {
			time.Sleep(d)
			io.WriteString(conn, hdr(200, cl(n)))
			time.Sleep(d)
			conn.Write(body)
		}
	case "continue":
		f2 = send("HTTP/1.1 100 Continue\r\n\r\n", pick(r, []string{"", "HTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\n"}), hdr(200, cl(n)), string(body))
	case "long headers":
		expect = "any"
		f2 = send("HTTP/1.1 200 OK\r\n", "X-Long: "+strings.Repeat("a", pick(r, []int{1000, 100000, 3000000}))+"\r\n", cl(n)+"\r\n\r\n", string(body))
	case "odd 200":
		f2 = send(pick(r, []string{"HTTP/1.0 200 OK\r\n", "HTTP/1.1 200 Not Found\r\n", "HTTP/1.1 200 \r\n"})+cl(n)+"\r\nConnection: close\r\n\r\n", string(body))
	}
	path := pick(r, []string{"", "/", "/1.root.json", "/a/b/c.txt", "/q?x=1&y=%20", "/%2e%2e/x", "/sp%20ace", "/x+y"})
	u, sc := srv.add(f2, path)
	res := fetchTimed(f, u, limit, 30*time.Second)
	c.Eval()
	c.Count("fetches: " + expect)
	over := int64(n) > limit
	desc := fmt.Sprintf("%s response, %d bytes of body, status %d, limit %d: %d bytes, %v", kind, n, status, limit, len(res.data), res.err)
	c.Logf("%s", desc)
	c.Distinct("fetch", kind, status, expect, over, limit-int64(n) == 0, limit == 0)
	c.Sample(desc)
	if int64(len(res.data)) > limit && limit >= 0 {
		c.Fail("over-limit:"+kind, "more than the limit: %s", desc)
	}
	if res.err != nil && len(res.data) > 0 {
		c.Fail("data-with-error:"+kind, "data along with an error: %s", desc)
	}
	if res.took > slowSlack {
		c.Fail("slow:"+kind, "%v for: %s", res.took, desc)
	}
	if expect == "any" {
		if res.err == nil && !bytes.Equal(res.data, body) {
			c.Fail("other-body:"+kind, "other body: %s", desc)
		}
		return
	}
	switch expect {
	case "http":
		_, h, st := isDL(res.err)
		if res.err == nil {
			c.Fail("status-accepted", "accepted: %s", desc)
		} else if !h || st != status {
			c.FailTags(Tags{"C14", "C26"}, "status-kind", "the status is not reported: %s", desc)
		}
	case "error":
		if res.err == nil {
			c.Fail("accepted:"+kind, "accepted: %s", desc)
		} else if l, h, _ := isDL(res.err); h || (l && !over && kind != "declared" && kind != "short" && kind != "two lengths" && kind != "bad length" && kind != "bad chunk" && kind != "short chunked" && kind != "drop") {
			c.FailTags(Tags{"C26"}, "kind:"+kind, "wrong kind of error: %s", desc)
		}
	case "body":
		if over {
			if res.err == nil {
				c.Fail("accepted-over:"+kind, "accepted: %s", desc)
			} else if l, _, _ := isDL(res.err); !l {
				c.FailTags(Tags{"C14", "C26"}, "over-kind", "the length is not reported: %s", desc)
			}
			break
		}
		if res.err != nil {
			c.Fail("refused:"+kind, "refused: %s", desc)
		} else if !bytes.Equal(res.data, body) {
			c.Fail("other-body:"+kind, "other body: %s", desc)
		}
	}
	if pu, err := url.Parse(u); err == nil && sc.line != "" {
		if f := strings.Fields(sc.line); len(f) != 3 || f[0] != "GET" || f[1] != pu.RequestURI() {
			c.FailTags(Tags{"C14", "C24"}, "request-line", "request for %s is %q", u, sc.line)
		}
	}
}

// endlessCase: servers which never stop sending.
func endlessCase(c *Case, srv *tcpServer, f fetcher.Fetcher) {
	r := c.Rng
	const most = 96 << 20
	kind := pick(r, []string{"length", "chunked", "close", "headers", "gzip", "redirects", "chunk header", "chunk extension", "trailers", "informational"})
	limit := pick(r, []int64{0, 1, 1000, 100000, 1 << 20})
	piece := bytes.Repeat([]byte("0123456789abcdef"), 4096)
	pump := func(conn net.Conn, sc *script, wrap func([]byte) []byte) {
		for atomic.LoadInt64(&sc.sent) < most {
			b := piece
			if wrap != nil {
				b = wrap(piece)
			}
			k, err := conn.Write(b)
			atomic.AddInt64(&sc.sent, int64(k))
			if err != nil {
				return
			}
		}
	}
	base := ""
	f2 := func(conn net.Conn, br *bufio.Reader, sc *script) {
		switch kind {
		case "length":
			// within the limit according to the header is impossible for longer bodies;
			// the header promises as much as is allowed and the server goes on
			fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", limit)
			pump(conn, sc, nil)
		case "chunked":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
			pump(conn, sc, func(b []byte) []byte { return []byte(fmt.Sprintf("%x\r\n%s\r\n", len(b), b)) })
		case "close":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n")
			pump(conn, sc, nil)
		case "headers":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\n")
			pump(conn, sc, func(b []byte) []byte { return append([]byte("X-H: "), append(b[:1000:1000], "\r\n"...)...) })
		case "gzip":
			var z bytes.Buffer
			w, _ := gzip.NewWriterLevel(&z, 9)
			zero := make([]byte, 1<<20)
			for i := 0; i < 64; i++ {
				w.Write(zero)
			}
			w.Close()
			fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nConnection: close\r\n\r\n")
			conn.Write(z.Bytes())
		case "redirects":
			fmt.Fprintf(conn, "HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", base)
		case "chunk header":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
			pump(conn, sc, func(b []byte) []byte { return bytes.Repeat([]byte("0"), 4096) })
		case "chunk extension":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1;")
			pump(conn, sc, nil)
		case "trailers":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n")
			pump(conn, sc, func(b []byte) []byte { return append([]byte("X-T: "), append(b[:1000:1000], "\r\n"...)...) })
		case "informational":
			for i := 0; i < 200000; i++ {
				if _, err := io.WriteString(conn, "HTTP/1.1 103 Early Hints\r\nX: "+string(piece[:200])+"\r\n\r\n"); err != nil {
					return
				}
				atomic.AddInt64(&sc.sent, 230)
			}
		}
	}
	u, sc := srv.add(f2, "/x")
	base = u
	res := fetchTimed(f, u, limit, 30*time.Second)
	// what the server could still send after the call returned is bounded by buffers
	select {
	case <-sc.done:
	case <-time.After(5 * time.Second):
	}
	sent := atomic.LoadInt64(&sc.sent)
	c.Eval()
	c.Count("endless transfers")
	desc := fmt.Sprintf("endless %s, limit %d: %d bytes returned, %d bytes sent, %v: %v", kind, limit, len(res.data), sent, res.took.Round(time.Millisecond), res.err)
	c.Logf("%s", desc)
	c.Sample(desc)
	c.Distinct("endless", kind, limit)
	if int64(len(res.data)) > limit {
		c.Fail("endless-over:"+kind, "more than the limit: %s", desc)
	}
	if sent >= most || sent > limit+48<<20 {
		c.Fail("endless-read:"+kind, "the transfer is not stopped: %s", desc)
	}
	if res.err == nil && kind != "length" {
		c.Fail("endless-accepted:"+kind, "accepted: %s", desc)
	}
	if l, _, _ := isDL(res.err); !l && (kind == "chunked" || kind == "close") {
		c.FailTags(Tags{"C14", "C26"}, "endless-kind:"+kind, "the length is not reported: %s", desc)
	}
	if res.took > slowSlack {
		c.Fail("endless-slow:"+kind, "%s", desc)
	}
}

// stallsSeen counts the transfers which outlived their timeout.
var stallsSeen atomic.Int32

// stallCase: servers which stop talking.
func stallCase(c *Case, srv *tcpServer, f fetcher.Fetcher) {
	if stallsSeen.Load() > 3 {
		return // reported often enough: each further one would only take time
	}
	r := c.Rng
	to := time.Duration(150+r.Intn(250)) * time.Millisecond
	kind := pick(r, []string{"silent", "half status", "half headers", "no body", "half body", "half chunk", "trickle", "trickle headers", "no end", "trickle close"})
	body := strings.Repeat("b", 1000)
	stop := make(chan struct{})
	hold := func() {
		select {
		case <-stop:
		case <-time.After(to + slowSlack + 3*time.Second):
		}
	}
	begun := time.Now()
	drip := func(conn net.Conn, s string) {
		for i := 0; i < len(s) && time.Since(begun) < to+slowSlack+2*time.Second; i++ {
			if _, err := conn.Write([]byte{s[i]}); err != nil {
				return
			}
			select {
			case <-stop:
				return
			case <-time.After(60 * time.Millisecond):
			}
		}
	}
	f2 := func(conn net.Conn, br *bufio.Reader, sc *script) {
		switch kind {
		case "silent":
		case "half status":
			io.WriteString(conn, "HTTP/1.1 2")
		case "half headers":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Le")
		case "no body":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n")
		case "half body":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n"+body[:500])
		case "half chunk":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3e8\r\n"+body[:500])
		case "trickle":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n")
			drip(conn, body)
		case "trickle close":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n")
			drip(conn, body)
		case "trickle headers":
			drip(conn, "HTTP/1.1 200 OK\r\nX-Long: "+body+"\r\nContent-Length: 0\r\n\r\n")
		case "no end":
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3e8\r\n"+body+"\r\n")
		}
		hold()
	}
	u, _ := srv.add(f2, "/x")
	limit := []int64{100000, 1000, 5000000, 1 << 34, 100000, 1 << 62}[c.Idx%6]
	res := fetchTimed(f, u, limit, to)
	close(stop)
	c.Eval()
	c.Count("stalled transfers")
	desc := fmt.Sprintf("stalled transfer (%s), timeout %v, limit %d: %v after %v", kind, to, limit, res.err, res.took.Round(time.Millisecond))
	c.Logf("%s", desc)
	c.Sample(desc)
	c.Distinct("stall", kind)
	if res.err == nil {
		c.Fail("stall-accepted:"+kind, "accepted: %s", desc)
	}
	if len(res.data) > 0 {
		c.Fail("stall-data:"+kind, "data: %s", desc)
	}
	if res.took > to+slowSlack {
		stallsSeen.Add(1)
		c.Fail("stall-slow:"+kind, "%s", desc)
	}
	if l, h, _ := isDL(res.err); l || h {
		c.FailTags(Tags{"C26"}, "stall-kind:"+kind, "wrong kind: %s", desc)
	}
}

// unreachableCase: nobody there, or no address at all.
func unreachableCase(c *Case, f fetcher.Fetcher) {
	r := c.Rng
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	dead := ln.Addr().String()
	ln.Close()
	u := pick(r, []string{"http://" + dead + "/x", "http://" + dead + "/x", "", "x", "://", "http://", "http://[::1", "file:///etc/hostname", "ftp://127.0.0.1/x", "/etc/hostname", "http://127.0.0.1:99999/x", "http://\x7f/", "http://a b/", "data:,hello", "http:///x", "gopher://x"})
	res := fetchTimed(f, u, 1000, 5*time.Second)
	c.Eval()
	c.Count("unreachable servers")
	c.Distinct("unreachable", strings.Replace(u, dead, "dead", 1))
	if res.err == nil || len(res.data) > 0 {
		c.Fail("unreachable-accepted", "download from %q yields %d bytes, %v", u, len(res.data), res.err)
	}
	if res.took > 5*time.Second+slowSlack {
		c.Fail("unreachable-slow", "download from %q takes %v", u, res.took)
	}
	if l, h, _ := isDL(res.err); l || h {
		c.FailTags(Tags{"C26"}, "unreachable-kind", "download from %q: %v", u, res.err)
	}
}

// httpFetcher carries a client's requests over real HTTP.
type httpFetcher struct {
	inner fetcher.Fetcher
	srv   *tcpServer
	resp  func(u string) *ref.Resp
	seed  int64
}

// DownloadFile maps the response of the simulated repository to a real one.
func (h *httpFetcher) DownloadFile(u string, max int64, to time.Duration) ([]byte, error) {
	r := h.resp(u)
	if r == nil {
		r = &ref.Resp{Status: 404}
	}
	h.seed++
	rr := rand.New(rand.NewSource(h.seed))
	mode := rr.Intn(3)
	f := func(conn net.Conn, br *bufio.Reader, sc *script) {
		b := r.Data
		if r.Status == 0 { // the transfer breaks
			switch mode {
			case 0:
				conn.(*net.TCPConn).SetLinger(0)
			case 1:
				io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Length: 100\r\nConnection: close\r\n\r\n{\"signed\"")
			case 2:
				io.WriteString(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n5\r\n{")
			}
			return
		}
		if r.Status == 204 || r.Status == 304 {
			fmt.Fprintf(conn, "HTTP/1.1 %d X\r\nConnection: close\r\n\r\n", r.Status)
			return
		}
		switch mode {
		case 0:
			sendAll(conn, rr, fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", r.Status, len(b)), string(b))
		case 1:
			sendAll(conn, rr, fmt.Sprintf("HTTP/1.1 %d X\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", r.Status), chunked(rr, b), "0\r\n\r\n")
		case 2:
			sendAll(conn, rr, fmt.Sprintf("HTTP/1.1 %d X\r\nConnection: close\r\n\r\n", r.Status), string(b))
		}
	}
	ru, _ := h.srv.add(f, "/f")
	d, err := h.inner.DownloadFile(ru, max, 30*time.Second)
	if err != nil && r.Status == 0 && max >= 100 {
		// tell the oracle that this error is the broken transfer
		if l, ht, _ := isDL(err); !l && !ht {
			return d, fmt.Errorf("%w: %v", errNet, err)
		}
	} else if err != nil && r.Status == 0 {
		return d, fmt.Errorf("%w: %v", errNet, err)
	}
	if r.Status == 0 && err == nil {
		return d, nil
	}
	return d, err
}

func init() {
	registry["C14"] = &Prop{Level: "exploration", Asm: append([]string{"Go's HTTP client library is trusted to detect truncated transfers", "responses encoded with gzip are only checked for the limit"}, asmCommon...),
		Rule: "the default fetcher against loopback servers sending finite, endless, stalling, truncated and malformed responses around the limit, and " + ruleU + "requests and limits included, partly over real HTTP; non-trivial cases are distinct combinations of response kind, limit relation and outcome",
		F: func(r *Run) {
			// so that many connections do not run out of ports or files
			var lim syscall.Rlimit
			if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
				lim.Cur = lim.Max
				syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
			}
			srv := newTCPServer()
			defer srv.ln.Close()
			f := &fetcher.DefaultFetcher{}
			r.Cases("fetch", r.N(3000, 60000), func(c *Case) { fetchCase(c, srv, f) })
			r.Cases("endless", r.N(60, 1000), func(c *Case) { endlessCase(c, srv, f) })
			r.casesN("stall", r.N(80, 800), 24, func(c *Case) { stallCase(c, srv, f) })
			r.Cases("unreachable", r.N(60, 500), func(c *Case) { unreachableCase(c, f) })
			prof := uNet
			prof.fetcher = func(m *memSrv, seed int64) fetcher.Fetcher {
				return &httpFetcher{inner: f, srv: srv, resp: m.f, seed: seed}
			}
			uRun(r, "u-net", r.N(400, 10000), uNet)
			uRun(r, "u-http", r.N(120, 3000), prof)
			r.Need("fetches: body", 500)
			r.Need("fetches: error", 500)
			r.Need("fetches: http", 150)
			r.Need("endless transfers", 30)
			r.Need("stalled transfers", 30)
			r.Need("operations: refresh", 200)
			r.Need("requests compared", 1000)
			r.Need("refused: http", 50)
		}}
}

var _ = errors.Is
var _ = metadata.ErrDownload{}
