package host

import (
	"bytes"
	"crypto/md5"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/brevis-network/zk-utils/common/s3api"

	"zksim/engine"
)

// s3server is an S3 bucket: strongly consistent, multipart uploads appear when they are completed.
type s3server struct {
	objects map[string]*s3object
	uploads map[string]*s3upload
	next    int
	page    int
}

type s3object struct {
	data []byte
	etag string
}

type s3upload struct {
	key   string
	parts map[int][]byte
}

func newS3() *s3server {
	return &s3server{objects: map[string]*s3object{}, uploads: map[string]*s3upload{}, page: 1000}
}

func etag(b []byte) string { return fmt.Sprintf("\"%x\"", md5.Sum(b)) }

func s3err(status int, code string) *reply {
	return &reply{status: status, body: []byte("<Error><Code>" + code + "</Code><Message>" + code + "</Message></Error>")}
}

func (s *s3server) put(key string, b []byte) {
	s.objects[key] = &s3object{append([]byte{}, b...), etag(b)}
}

func (s *s3server) serve(r *http.Request, body []byte) *reply {
	q := r.URL.Query()
	key := strings.TrimPrefix(r.URL.Path, "/")
	key = strings.TrimPrefix(key, "bucket/")
	_, isUploads := q["uploads"]
	switch {
	case r.Method == "GET" && (key == "" || key == "bucket"):
		return s.list(q)
	case r.Method == "GET" || r.Method == "HEAD":
		o, ok := s.objects[key]
		if !ok {
			if r.Method == "HEAD" {
				return &reply{status: 404}
			}
			return s3err(404, "NoSuchKey")
		}
		if m := r.Header.Get("If-Match"); m != "" && m != o.etag && m != "*" {
			return s3err(412, "PreconditionFailed")
		}
		h := http.Header{"Etag": {o.etag}, "Last-Modified": {"Thu, 01 Jan 2026 00:00:00 GMT"}}
		if rg := r.Header.Get("Range"); rg != "" {
			var a, b int
			if k, _ := fmt.Sscanf(rg, "bytes=%d-%d", &a, &b); k == 1 {
				b = len(o.data) - 1
			}
			if a >= len(o.data) {
				return s3err(416, "InvalidRange")
			}
			if b >= len(o.data) {
				b = len(o.data) - 1
			}
			h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b, len(o.data)))
			return &reply{status: 206, header: h, body: o.data[a : b+1]}
		}
		if r.Method == "HEAD" {
			h.Set("Content-Length", fmt.Sprint(len(o.data)))
			return &reply{status: 200, header: h}
		}
		return &reply{status: 200, header: h, body: o.data}
	case r.Method == "PUT" && q.Get("uploadId") != "":
		u, ok := s.uploads[q.Get("uploadId")]
		if !ok {
			return s3err(404, "NoSuchUpload")
		}
		n, _ := strconv.Atoi(q.Get("partNumber"))
		u.parts[n] = append([]byte{}, body...)
		return &reply{status: 200, header: http.Header{"Etag": {etag(body)}}}
	case r.Method == "PUT":
		s.put(key, body)
		return &reply{status: 200, header: http.Header{"Etag": {etag(body)}}}
	case r.Method == "POST" && isUploads:
		s.next++
		id := fmt.Sprintf("upload-%d", s.next)
		s.uploads[id] = &s3upload{key, map[int][]byte{}}
		return &reply{status: 200, body: []byte("<InitiateMultipartUploadResult><UploadId>" + id + "</UploadId></InitiateMultipartUploadResult>")}
	case r.Method == "POST" && q.Get("uploadId") != "":
		u, ok := s.uploads[q.Get("uploadId")]
		if !ok {
			return s3err(404, "NoSuchUpload")
		}
		var req struct {
			Part []struct {
				ETag       string
				PartNumber int
			}
		}
		if xml.Unmarshal(body, &req) != nil {
			return s3err(400, "MalformedXML")
		}
		var all []byte
		last := 0
		for _, p := range req.Part {
			b, ok := u.parts[p.PartNumber]
			if !ok || etag(b) != p.ETag {
				return s3err(400, "InvalidPart")
			}
			if p.PartNumber <= last {
				return s3err(400, "InvalidPartOrder")
			}
			last = p.PartNumber
			all = append(all, b...)
		}
		delete(s.uploads, q.Get("uploadId"))
		s.put(u.key, all)
		return &reply{status: 200, body: []byte("<CompleteMultipartUploadResult><ETag>" + etag(all) + "</ETag></CompleteMultipartUploadResult>")}
	case r.Method == "DELETE" && q.Get("uploadId") != "":
		delete(s.uploads, q.Get("uploadId"))
		return &reply{status: 204}
	case r.Method == "DELETE":
		delete(s.objects, key)
		return &reply{status: 204}
	}
	return s3err(405, "MethodNotAllowed")
}

func (s *s3server) list(q url.Values) *reply {
	var keys []string
	after := q.Get("marker")
	v2 := q.Get("list-type") == "2"
	if v2 {
		after = q.Get("start-after")
		if t := q.Get("continuation-token"); t != "" {
			after = strings.TrimPrefix(t, "t-")
		}
	}
	for k := range s.objects {
		if strings.HasPrefix(k, q.Get("prefix")) && k > after {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	n := s.page
	if m, err := strconv.Atoi(q.Get("max-keys")); err == nil && m < n {
		n = m
	}
	more := len(keys) > n
	if more {
		keys = keys[:n]
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "<ListBucketResult><Name>bucket</Name><Prefix>%s</Prefix><MaxKeys>%d</MaxKeys><IsTruncated>%v</IsTruncated>", xmlEscape(q.Get("prefix")), n, more)
	if v2 {
		fmt.Fprintf(&b, "<KeyCount>%d</KeyCount>", len(keys))
		if more {
			fmt.Fprintf(&b, "<NextContinuationToken>t-%s</NextContinuationToken>", xmlEscape(keys[len(keys)-1]))
		}
	} else {
		fmt.Fprintf(&b, "<Marker>%s</Marker>", xmlEscape(after))
	}
	for _, k := range keys {
		fmt.Fprintf(&b, "<Contents><Key>%s</Key><ETag>%s</ETag><Size>%d</Size></Contents>", xmlEscape(k), s.objects[k].etag, len(s.objects[k].data))
	}
	b.WriteString("</ListBucketResult>")
	return &reply{status: 200, body: b.Bytes()}
}

func s3client(w *World) *s3api.Client {
	os.Setenv("AWS_ACCESS_KEY_ID", "id")
	os.Setenv("AWS_SECRET_ACCESS_KEY", "secret")
	c, err := s3api.NewClient("bucket")
	must(err)
	return c
}

func s3Listing(w *World) {
	srv := newS3()
	prefix := []string{"", "slots", "slots/", "a"}[w.S.Int(4)]
	n := []int{w.S.Int(30), 999 + w.S.Int(4), 1000 * w.S.Range(1, 3), w.S.Int(4000)}[w.S.Int(4)]
	if w.S.Bool() {
		srv.page = w.S.Range(1, 1000)
		if n > 100 && srv.page < 50 {
			srv.page = 50
		}
	}
	want := map[string]bool{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%s/%d.json", []string{"slots", "slot", "a", "slots"}[w.S.Int(4)], i*7919%100003)
		if k[0] == 's' && i%13 == 0 {
			k = s3api.ObjectKey("slots", uint64(i))
		}
		srv.put(k, []byte{byte(i)})
		if strings.HasPrefix(k, prefix) {
			want[k] = true
		}
	}
	w.Class = "one page"
	if len(want) > srv.page {
		w.Class = "many pages"
	}
	c := s3client(w)
	net := newNet(w, srv.serve)
	net.trouble(3, 6, netKinds)
	// others change the bucket while it is listed
	moving := map[string]bool{}
	for i := w.S.Int(3); i > 0; i-- {
		k := fmt.Sprintf("slots/%d.json", w.S.Int(100003))
		del := w.S.Bool()
		moving[k] = true
		net.At[1+w.S.Int(4)] = func() {
			w.Fault("concurrent-change")
			if del {
				delete(srv.objects, k)
			} else {
				srv.put(k, nil)
			}
		}
	}
	begin := time.Now()
	var got []string
	var err error
	w.Try("ListObjects", func() {
		os, e := c.ListObjects(prefix)
		err = e
		for _, o := range os {
			got = append(got, *o.Key)
		}
	})
	w.Log("ListObjects: %d of %d, %v", len(got), len(want), err)
	if d := time.Since(begin); d > time.Hour*3 {
		w.Fail("slow", "ListObjects took %v", d)
	}
	if err != nil {
		if !w.Faulted() {
			w.Fail("refused", "ListObjects failed without a fault: %v", err)
		}
		return
	}
	seen := map[string]bool{}
	for _, k := range got {
		if seen[k] {
			w.Fail("duplicate", "ListObjects lists %s twice", k)
		}
		seen[k] = true
		if !want[k] && !moving[k] {
			w.Fail("extra", "ListObjects lists %s, which the bucket does not hold under prefix %q", k, prefix)
		}
	}
	miss := 0
	for k := range want {
		if !seen[k] && !moving[k] {
			miss++
		}
	}
	if miss > 0 {
		w.Fail("incomplete", "ListObjects succeeds without %d of the %d objects below %q (page size of the server %d)", miss, len(want), prefix, srv.page)
	}
	if k := net.Open(); k != 0 {
		w.Fail("leak", "%d response bodies left open", k)
	}
}

// regOp is one operation on a key in the history of a run.
type regOp struct {
	kind       string
	key        string
	val        int // 0 is absent, -1 unknown
	err        error
	begin, end time.Duration
	who        int
}

// memFile receives a download; disk errors are the tape's.
type memFile struct {
	mu   sync.Mutex
	b    []byte
	fail int // the n-th write fails
	n    int
	hit  bool
}

var errDisk = errors.New("no space left on device")

func (m *memFile) WriteAt(p []byte, off int64) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.n++
	if m.fail > 0 && m.n >= m.fail {
		m.hit = true
		return 0, errDisk
	}
	if need := int(off) + len(p); need > len(m.b) {
		m.b = append(m.b, make([]byte, need-len(m.b))...)
	}
	copy(m.b[off:], p)
	return len(p), nil
}

// source is the body of an upload.
type source struct {
	r    *bytes.Reader
	left int // fails after this many bytes when not negative
}

func (s *source) Read(p []byte) (int, error) {
	if s.left >= 0 {
		if s.left == 0 {
			return 0, errDisk
		}
		if len(p) > s.left {
			p = p[:s.left]
		}
	}
	n, err := s.r.Read(p)
	if s.left >= 0 {
		s.left -= n
	}
	return n, err
}

// content makes the bytes of version v.
func content(v, size int) []byte {
	b := make([]byte, size)
	r := engine.NewRNG(uint64(v), 77)
	for i := 0; i < len(b); i += 4096 {
		x := r.Next()
		for k := 0; k < 8 && i+k < len(b); k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	return b
}

func s3Register(big bool) func(*World) {
	return func(w *World) {
		srv := newS3()
		c := s3client(w)
		net := newNet(w, srv.serve)
		kinds := append([]string{"slow"}, netKinds...)
		net.trouble(6, 30, kinds)
		versions := map[string]int{}
		var mu sync.Mutex
		var hist []*regOp
		nextV := 0
		mint := func(size int) (int, []byte) {
			nextV++
			b := content(nextV, size)
			if size < 8 { // too short to tell apart: make it longer
				b = append(b, []byte(fmt.Sprintf("v%d", nextV))...)
			}
			versions[string(etag(b))] = nextV
			return nextV, b
		}
		sizes := []int{1, 8, 100, 5000}
		if big {
			sizes = []int{100, 5<<20 - 1, 5 << 20, 5<<20 + 1, 10<<20 + 5, 11 << 20, 16 << 20}
		}
		keys := []string{"a", "dir/b c"}
		// something is there already
		for _, k := range keys {
			if w.S.Bool() {
				v, b := mint(sizes[w.S.Int(len(sizes))])
				srv.put(k, b)
				hist = append(hist, &regOp{kind: "upload", key: k, val: v, begin: -2, end: -1})
			}
		}
		type step struct {
			op     *regOp
			pause  time.Duration
			body   []byte
			fail   int
			stream bool
			same   bool
		}
		plans := make([][]*step, w.S.Range(1, 3))
		for i := range plans {
			for n := w.S.Range(1, map[bool]int{true: 2, false: 5}[big]); n > 0; n-- {
				st := &step{op: &regOp{who: i, key: keys[w.S.Int(2)], kind: []string{"download", "upload", "delete", "head", "upload", "download"}[w.S.Int(6)]}, fail: -1}
				st.pause = time.Duration(w.S.Int(1000*1000)) * time.Duration(1+w.S.Int(2000))
				switch st.op.kind {
				case "upload":
					st.op.val, st.body = mint(sizes[w.S.Int(len(sizes))])
					st.stream = w.S.Bool()
					if st.stream && w.S.Chance(1, 6) {
						st.fail = w.S.Int(len(st.body))
					}
				case "download":
					if w.S.Chance(1, 8) {
						st.fail = 1 + w.S.Int(4)
					}
				}
				plans[i] = append(plans[i], st)
			}
		}
		w.Class = "register"
		if len(plans) > 1 {
			w.Class = "shared register"
		}
		var wg sync.WaitGroup
		var bad *failure
		for i, p := range plans {
			wg.Add(1)
			go func(i int, p []*step) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						if v, ok := r.(failure); ok {
							bad = &v
						} else {
							bad = &failure{"panic", fmt.Sprintf("%v\n%s", r, stack())}
						}
						mu.Unlock()
					}
				}()
				for _, st := range p {
					time.Sleep(st.pause + time.Duration(i+1))
					o := st.op
					o.begin = time.Since(w.start)
					mu.Lock()
					hist = append(hist, o)
					mu.Unlock()
					o.end = 1 << 62
					switch o.kind {
					case "upload":
						var body io.Reader = bytes.NewReader(st.body)
						if st.stream {
							body = &source{bytes.NewReader(st.body), st.fail}
							if st.fail >= 0 {
								w.Fault("source-error")
							}
						}
						o.err = c.Upload(o.key, body)
						if st.fail >= 0 && o.err == nil {
							w.Fail("hidden-error", "Upload of %d bytes succeeds although reading its source failed after %d", len(st.body), st.fail)
						}
					case "download":
						m := &memFile{fail: st.fail}
						o.err = c.Download(o.key, m)
						if m.hit {
							w.Fault("target-error")
						}
						if o.err == nil {
							if m.hit {
								w.Fail("hidden-error", "Download succeeds although writing its target failed")
							}
							mu.Lock()
							v, ok := versions[etag(m.b)]
							mu.Unlock()
							if !ok {
								w.Fail("torn", "Download of %s gives %d bytes that are no version ever uploaded", o.key, len(m.b))
							}
							o.val = v
						} else if strings.Contains(o.err.Error(), "NoSuchKey") {
							o.err = nil
						} else {
							o.val = -1
						}
					case "delete":
						o.err = c.Delete(o.key)
					case "head":
						o.val = -1
						o.err = c.HeadObject(o.key)
						if o.err == nil {
							o.val = -2 // present
						} else if strings.Contains(o.err.Error(), "NotFound") {
							o.err, o.val = nil, 0
						}
					}
					o.end = time.Since(w.start)
					w.Log("%d: %s %s %d: %v [%d,%d]ms", o.who, o.kind, o.key, o.val, o.err, o.begin.Milliseconds(), o.end.Milliseconds())
					if o.end-o.begin > 4*time.Hour {
						w.Fail("slow", "%s took %v", o.kind, o.end-o.begin)
					}
				}
			}(i, p)
		}
		wg.Wait()
		if bad != nil {
			panic(*bad)
		}
		for _, o := range hist {
			if o.err != nil && !w.Faulted() {
				if o.kind == "download" && len(plans) > 1 && (strings.Contains(o.err.Error(), "PreconditionFailed") || strings.Contains(o.err.Error(), "InvalidRange")) {
					continue // overwritten meanwhile
				}
				w.Fail("refused", "%s of %s failed without a fault: %v", o.kind, o.key, o.err)
			}
		}
		checkRegister(w, hist)
		if k := net.Open(); k != 0 {
			w.Fail("leak", "%d response bodies left open", k)
		}
	}
}

// checkRegister: a successful read sees a write it may see: one that began before the read ended and was not
// overwritten by another one that succeeded entirely in between. Operations that are retried may take effect more than
// once while they last.
func checkRegister(w *World, hist []*regOp) {
	for _, r := range hist {
		if (r.kind != "download" && r.kind != "head") || r.err != nil || r.val == -1 {
			continue
		}
		ok := false
		why := "nothing wrote it"
		writes := []*regOp{{kind: "delete", key: r.key, val: 0, begin: -4, end: -3}}
		for _, o := range hist {
			if o.key == r.key && (o.kind == "upload" || o.kind == "delete") {
				writes = append(writes, o)
			}
		}
		for _, u := range writes {
			if u.begin >= r.end {
				continue
			}
			if r.kind == "head" {
				if (u.val != 0) != (r.val == -2) {
					continue
				}
			} else if u.val != r.val {
				continue
			}
			over := false
			for _, x := range writes {
				if x != u && x.err == nil && x.begin > u.end && x.end < r.begin {
					over = true
					why = fmt.Sprintf("the %s of version %d had replaced it", x.kind, x.val)
				}
			}
			if !over {
				ok = true
				break
			}
		}
		if !ok {
			w.Fail("stale", "%s of %s gives version %d, but %s", r.kind, r.key, r.val, why)
		}
	}
}

func init() {
	registry = append(registry,
		&Scen{Prop: "C25", Name: "s3-listing", Runs: 3000, Bubble: true, Fn: s3Listing},
		&Scen{Prop: "C26", Name: "s3-register", Runs: 20000, Bubble: true, Fn: s3Register(false)},
		&Scen{Prop: "C26", Name: "s3-multipart", Runs: 300, Bubble: true, Fn: s3Register(true)},
	)
	assumptions["C25"] = []string{"the bucket is strongly consistent and lists keys in order, as S3 does"}
	assumptions["C26"] = []string{"the bucket is strongly consistent; requests do not take effect after their client gave up on them"}
}
