package host

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"zksim/engine"
)

// Net is the simulated network between the code under test and one server. Requests take a time that depends on what
// they ask for, so that their order is a function of the tape alone; faults hit the n-th request to arrive.
type Net struct {
	w       *World
	seed    uint64
	spread  time.Duration
	mu      sync.Mutex
	tries   map[string]int
	seq     int
	faults  map[int]string
	outage  [2]int // requests from the first to before the second number fail
	outKind string
	serve   func(r *http.Request, body []byte) *reply
	At      map[int]func() // what others do before the n-th request is served
	open    int            // response bodies handed out and not closed
	Forever bool           // a stalled response never comes
	bodies  []*netBody
}

type reply struct {
	status int
	header http.Header
	body   []byte
}

var netKinds = []string{"reset-before", "reset-after", "503", "500", "truncated", "slow", "stall"}

func newNet(w *World, serve func(*http.Request, []byte) *reply) *Net {
	n := &Net{w: w, seed: w.S.U64(), spread: []time.Duration{time.Millisecond, 200 * time.Millisecond, 5 * time.Second}[w.S.Int(3)],
		tries: map[string]int{}, faults: map[int]string{}, At: map[int]func(){}, serve: serve}
	http.SimRoundTrip = n.roundTrip
	return n
}

// trouble plans faults for the first requests.
func (n *Net) trouble(max, reach int, kinds []string) {
	for i := n.w.S.Int(max + 1); i > 0; i-- {
		n.faults[1+n.w.S.Int(reach)] = kinds[n.w.S.Int(len(kinds))]
	}
	if n.w.S.Chance(1, 6) {
		a := 1 + n.w.S.Int(reach)
		n.outage = [2]int{a, a + 1 + n.w.S.Int(12)}
		n.outKind = []string{"reset-before", "503", "500", "reset-after"}[n.w.S.Int(4)]
	}
}

func (n *Net) delay(id string, salt uint64) time.Duration {
	r := engine.NewRNG(n.seed, engine.HashStr(id), salt)
	return time.Microsecond + time.Duration(r.Next()%uint64(n.spread))
}

var errReset = errors.New("connection reset by peer")

func wait(r *http.Request, d time.Duration) error {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-r.Context().Done():
		return r.Context().Err()
	}
}

func (n *Net) roundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	n.mu.Lock()
	id := fmt.Sprintf("%s %s %s %x", r.Method, r.URL.Path, r.URL.RawQuery, engine.HashStr(r.Header.Get("Range")+string(body[:min(len(body), 64)])))
	n.tries[id]++
	id = fmt.Sprintf("%s #%d", id, n.tries[id])
	n.mu.Unlock()
	if err := wait(r, n.delay(id, 1)); err != nil {
		return nil, err
	}
	n.mu.Lock()
	n.seq++
	seq := n.seq
	if f := n.At[seq]; f != nil {
		delete(n.At, seq)
		f()
	}
	kind := n.faults[seq]
	if seq >= n.outage[0] && seq < n.outage[1] {
		kind = n.outKind
	}
	if kind != "" {
		n.w.Fault("net-" + kind)
	}
	n.w.Log("%dms request %d %s %s %s%s %s", time.Since(n.w.start).Milliseconds(), seq, r.Method, r.URL.Host, r.URL.RequestURI(), tag(" range ", r.Header.Get("Range")), kind)
	var rep *reply
	switch kind {
	case "reset-before":
		n.mu.Unlock()
		return nil, errReset
	case "503":
		rep = &reply{status: 503, body: []byte("<Error><Code>SlowDown</Code><Message>slow down</Message></Error>")}
	case "500":
		rep = &reply{status: 500, body: []byte("<Error><Code>InternalError</Code><Message>oops</Message></Error>")}
	default:
		rep = n.serve(r, body)
	}
	n.mu.Unlock()
	d := n.delay(id, 2)
	switch kind {
	case "slow":
		d += 20*time.Second + n.delay(id, 3)
	case "stall":
		d += 10*time.Minute + n.delay(id, 3)
		if n.Forever {
			d = 1e6 * time.Hour
		}
	}
	if err := wait(r, d); err != nil {
		return nil, err
	}
	if kind == "reset-after" {
		return nil, errReset
	}
	if rep.header == nil {
		rep.header = http.Header{}
	}
	b := &netBody{n: n, req: r, r: bytes.NewReader(rep.body)}
	length := int64(len(rep.body))
	if r.Method == "HEAD" {
		b.r = bytes.NewReader(nil)
	} else if kind == "truncated" {
		cut := int(engine.NewRNG(n.seed, engine.HashStr(id), 4).Next() % uint64(len(rep.body)+1))
		b.r, b.fail = bytes.NewReader(rep.body[:cut]), io.ErrUnexpectedEOF
	} else if kind == "drip" {
		b.pause, b.drip = 10*time.Minute, true
		if n.Forever {
			b.pause = 1e6 * time.Hour
		}
	}
	n.mu.Lock()
	n.open++
	n.bodies = append(n.bodies, b)
	n.mu.Unlock()
	if rep.header.Get("Content-Length") == "" {
		rep.header.Set("Content-Length", fmt.Sprint(length))
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", rep.status, http.StatusText(rep.status)), StatusCode: rep.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: rep.header, Body: b, ContentLength: length, Request: r}, nil
}

func tag(a, b string) string {
	if b == "" {
		return ""
	}
	return a + b
}

// netBody is the body of a response on its way.
type netBody struct {
	n      *Net
	req    *http.Request
	r      *bytes.Reader
	fail   error
	pause  time.Duration
	drip   bool
	closed bool
}

func (b *netBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if err := b.req.Context().Err(); err != nil {
		return 0, err
	}
	if b.drip {
		b.drip = false
		if err := wait(b.req, b.pause); err != nil {
			return 0, err
		}
	}
	k, err := b.r.Read(p)
	if err == io.EOF && b.fail != nil {
		err = b.fail
	}
	return k, err
}

func (b *netBody) Close() error {
	if !b.closed {
		b.closed = true
		b.n.mu.Lock()
		b.n.open--
		b.n.mu.Unlock()
	}
	return nil
}

// Open bodies that nobody closed.
func (n *Net) Open() int { n.mu.Lock(); defer n.mu.Unlock(); return n.open }

func xmlEscape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}
