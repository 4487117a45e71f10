package netc

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/brevis-network/zk-utils/common/s3api"
	"pgregory.net/rapid"

	"vharness/vh"
)

// store is an S3 server for one bucket: objects, multipart uploads, ranges and listings in pages.
type store struct {
	bucket  string
	page    int
	sparse  bool // some pages of a listing are empty, with more to come
	objects map[string][]byte
	parts   map[string]map[int][]byte
	uploads int
	deny    bool // the next requests are refused
	after   int  // after that many more
	refused int
	served  int
	odd     []string
	mu      sync.Mutex // parts come and go at the same time
}

// next begins an operation, of which all requests from the after-th on are refused if deny is set.
func (s *store) next(deny bool, after int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.deny, s.after, s.refused, s.served = deny, after, 0, 0
}

func (s *store) RoundTrip(r *http.Request) (*http.Response, error) {
	body := []byte{}
	if r.Body != nil {
		var err error
		if body, err = io.ReadAll(r.Body); err != nil {
			return nil, err
		}
		r.Body.Close()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	reply := func(code int, out string, hdr ...string) (*http.Response, error) {
		a := answer(code, strings.NewReader(out))
		a.Request = r
		a.ContentLength = int64(len(out))
		for i := 0; i+1 < len(hdr); i += 2 {
			a.Header.Set(hdr[i], hdr[i+1])
		}
		if r.Method == "HEAD" {
			a.Body = io.NopCloser(strings.NewReader(""))
		}
		return a, nil
	}
	path := r.URL.Path
	switch {
	case strings.HasPrefix(r.URL.Host, s.bucket+".s3"):
	case strings.HasPrefix(path, "/"+s.bucket):
		path = strings.TrimPrefix(path, "/"+s.bucket)
	default:
		s.odd = append(s.odd, r.Method+" "+r.URL.String())
		return reply(404, "")
	}
	if s.deny && s.served >= s.after {
		s.refused++
		return reply(403, "<Error><Code>AccessDenied</Code><Message>no</Message></Error>")
	}
	s.served++
	key := strings.TrimPrefix(path, "/")
	q := r.URL.Query()
	has := func(k string) bool { _, ok := q[k]; return ok }
	switch {
	case r.Method == "GET" && key == "":
		var keys []string
		for k := range s.objects {
			if strings.HasPrefix(k, q.Get("prefix")) && k > q.Get("marker") && k > q.Get("start-after") && k > q.Get("continuation-token") {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		more := len(keys) > s.page
		next := ""
		if more {
			keys = keys[:s.page]
			next = keys[len(keys)-1]
		}
		if from := max(q.Get("marker"), q.Get("start-after"), q.Get("continuation-token")); s.sparse && len(keys) > 0 {
			if before := keys[0][:len(keys[0])-1]; before > from {
				more, next, keys = true, before, nil
			}
		}
		out := fmt.Sprintf("<ListBucketResult><Name>%s</Name><IsTruncated>%v</IsTruncated><KeyCount>%d</KeyCount>", s.bucket, more, len(keys))
		if more && q.Get("list-type") == "2" {
			out += "<NextContinuationToken>" + esc(next) + "</NextContinuationToken>"
		} else if more && s.sparse {
			out += "<NextMarker>" + esc(next) + "</NextMarker>"
		}
		for _, k := range keys {
			name := k
			if q.Get("encoding-type") == "url" {
				name = strings.ReplaceAll(k, " ", "+")
			}
			out += fmt.Sprintf("<Contents><Key>%s</Key><Size>%d</Size></Contents>", esc(name), len(s.objects[k]))
		}
		return reply(200, out+"</ListBucketResult>", "Content-Type", "application/xml")
	case r.Method == "POST" && has("uploads"):
		s.uploads++
		id := fmt.Sprintf("u%d", s.uploads)
		s.parts[id] = map[int][]byte{}
		return reply(200, "<InitiateMultipartUploadResult><UploadId>"+id+"</UploadId></InitiateMultipartUploadResult>")
	case r.Method == "PUT" && has("partNumber"):
		n, _ := strconv.Atoi(q.Get("partNumber"))
		s.parts[q.Get("uploadId")][n] = body
		return reply(200, "", "ETag", fmt.Sprintf("\"%d\"", n))
	case r.Method == "POST" && has("uploadId"):
		var list struct {
			Part []struct{ PartNumber int }
		}
		if err := xml.Unmarshal(body, &list); err != nil {
			return reply(400, "<Error><Code>MalformedXML</Code></Error>")
		}
		var all []byte
		for _, p := range list.Part {
			all = append(all, s.parts[q.Get("uploadId")][p.PartNumber]...)
		}
		s.objects[key] = all
		return reply(200, "<CompleteMultipartUploadResult><ETag>\"x\"</ETag></CompleteMultipartUploadResult>")
	case r.Method == "PUT":
		s.objects[key] = body
		return reply(200, "", "ETag", "\"x\"")
	case r.Method == "DELETE" && has("uploadId"):
		delete(s.parts, q.Get("uploadId"))
		return reply(204, "")
	case r.Method == "DELETE":
		delete(s.objects, key)
		return reply(204, "")
	case r.Method == "HEAD" || r.Method == "GET":
		b, ok := s.objects[key]
		if !ok {
			return reply(404, "<Error><Code>NoSuchKey</Code><Message>none</Message></Error>")
		}
		if rg := r.Header.Get("Range"); rg != "" && r.Method == "GET" {
			var from, to int
			if _, err := fmt.Sscanf(rg, "bytes=%d-%d", &from, &to); err != nil || from >= len(b) {
				return reply(416, "<Error><Code>InvalidRange</Code></Error>")
			}
			if to >= len(b) {
				to = len(b) - 1
			}
			return reply(206, string(b[from:to+1]), "Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, to, len(b)))
		}
		return reply(200, string(b))
	}
	s.odd = append(s.odd, r.Method+" "+r.URL.String())
	return reply(501, "")
}

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func nothingFromOutside() {
	for _, kv := range os.Environ() { // nothing from outside
		if k, _, _ := strings.Cut(kv, "="); strings.HasPrefix(k, "AWS_") {
			os.Unsetenv(k)
		}
	}
	http.DefaultClient.Transport = nil
	for k, v := range map[string]string{"AWS_ACCESS_KEY_ID": "AKIDEXAMPLE", "AWS_SECRET_ACCESS_KEY": "secret", "AWS_CONFIG_FILE": "/nonexistent",
		"AWS_SHARED_CREDENTIALS_FILE": "/nonexistent", "AWS_EC2_METADATA_DISABLED": "true"} {
		os.Setenv(k, v)
	}
}

// One client used from several goroutines, each with keys of its own.
func TestC43_together(t *testing.T) {
	nothingFromOutside()
	vh.Check(t, 40, 1000, func(rt *rapid.T, c *vh.Case) {
		s := &store{bucket: "proofs", page: 3, objects: map[string][]byte{}, parts: map[string]map[int][]byte{}}
		old := http.DefaultTransport
		http.DefaultTransport = s
		defer func() { http.DefaultTransport = old }()
		var cl *s3api.Client
		var err error
		vh.Quietly(func() { cl, err = s3api.NewClient(s.bucket) })
		if err != nil {
			rt.Fatalf("no client for a valid bucket: %v", err)
		}
		type op struct {
			what string
			key  int
			body []byte
		}
		plans := make([][]op, rapid.IntRange(2, 8).Draw(rt, "goroutines"))
		for i := range plans {
			for n := rapid.IntRange(1, 8).Draw(rt, "ops"); n > 0; n-- {
				plans[i] = append(plans[i], op{vh.OneOf([]string{"upload", "upload", "download", "head", "delete", "list"}).Draw(rt, "op"),
					rapid.IntRange(0, 2).Draw(rt, "key"), vh.Expand(rapid.Uint64().Draw(rt, "content"), rapid.IntRange(0, 3000).Draw(rt, "size"))})
			}
		}
		c.Nontrivial(plans)
		c.Label("%d goroutines", len(plans))
		bad := make([]string, len(plans))
		var wg sync.WaitGroup
		vh.Quietly(func() {
			for i, plan := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					model := map[string][]byte{}
					for n, o := range plan {
						k := fmt.Sprintf("%d/%d", i, o.key)
						want, there := model[k]
						right := false
						switch o.what {
						case "upload":
							right = cl.Upload(k, bytes.NewReader(o.body)) == nil
							model[k] = o.body
						case "download":
							w := aws.NewWriteAtBuffer(nil)
							err := cl.Download(k, w)
							right = (err == nil) == there && (!there || bytes.Equal(w.Bytes(), want))
						case "head":
							right = (cl.HeadObject(k) == nil) == there
						case "delete":
							right = cl.Delete(k) == nil
							delete(model, k)
						case "list":
							l, err := cl.ListObjects(fmt.Sprintf("%d/", i))
							right = err == nil && len(l) == len(model)
						}
						if !right && bad[i] == "" {
							bad[i] = fmt.Sprintf("operation %d, %s %s", n, o.what, k)
						}
					}
				}()
			}
			wg.Wait()
		})
		for i, b := range bad {
			if b != "" {
				rt.Fatalf("goroutine %d of %d: %s has an invalid outcome", i, len(plans), b)
			}
		}
	})
}

func TestC43_store(t *testing.T) {
	nothingFromOutside()
	vh.Check(t, 250, 6000, func(rt *rapid.T, c *vh.Case) {
		s := &store{bucket: vh.OneOf([]string{"proofs", "zk-bucket"}).Draw(rt, "bucket"), page: vh.OneOf([]int{1000, 2, 3}).Draw(rt, "page"), sparse: rapid.IntRange(0, 2).Draw(rt, "sparse") == 0,
			objects: map[string][]byte{}, parts: map[string]map[int][]byte{}}
		old := http.DefaultTransport
		http.DefaultTransport = s
		defer func() { http.DefaultTransport = old }()
		var cl *s3api.Client
		var err error
		vh.Quietly(func() { cl, err = s3api.NewClient(s.bucket) })
		if err != nil {
			rt.Fatalf("no client for a valid bucket: %v", err)
		}
		model := map[string][]byte{}
		key := func() string {
			return vh.OneOf([]string{"a", "ab", "a/c", "b"}).Draw(rt, "folder") + vh.OneOf([]string{"", "/1.json", "/2.json", "/x y", "/é&<", "/10.json"}).Draw(rt, "name")
		}
		var ops []string
		vh.Quietly(func() {
			for i := rapid.IntRange(1, 14).Draw(rt, "ops"); i > 0; i-- {
				op := vh.OneOf([]string{"upload", "upload", "upload", "download", "head", "delete", "list", "list"}).Draw(rt, "op")
				deny, after := rapid.IntRange(0, 5).Draw(rt, "deny") == 0, 0
				if deny {
					after = vh.OneOf([]int{0, 0, 1, 2, 3}).Draw(rt, "after")
				}
				s.next(deny, after)
				k := key()
				ops = append(ops, fmt.Sprintf("%s %s denied=%v after %d", op, k, deny, after))
				_, there := model[k]
				// some of the requests refused: it may still succeed, but then with the right outcome
				check := func(err error, want bool) bool {
					if err == nil && (!want || s.refused > 0 && s.served == 0) || err != nil && want && s.refused == 0 {
						rt.Fatalf("after %q: %v is an invalid outcome", ops, err)
					}
					return err == nil
				}
				switch op {
				case "upload":
					n := vh.Edge(rt, "size", 0, 3000, 0, 1)
					rare := 60
					if deny && after > 0 {
						rare = 2
					}
					if rapid.IntRange(0, rare).Draw(rt, "large") == 0 { // several parts
						n = vh.OneOf([]int{5 << 20, 5<<20 + 1, 11 << 20}).Draw(rt, "large size")
					}
					b := vh.Expand(rapid.Uint64().Draw(rt, "content"), n)
					var r io.Reader = bytes.NewReader(b)
					if rapid.Bool().Draw(rt, "stream") {
						r = io.MultiReader(bytes.NewReader(b[:n/2]), bytes.NewReader(b[n/2:]))
					}
					if check(cl.Upload(k, r), true) {
						model[k] = b
					}
				case "download":
					w := aws.NewWriteAtBuffer(nil)
					if check(cl.Download(k, w), there) && !bytes.Equal(w.Bytes(), model[k]) {
						rt.Fatalf("after %q: %d invalid bytes were read, want %d", ops, len(w.Bytes()), len(model[k]))
					}
				case "head":
					check(cl.HeadObject(k), there)
				case "delete":
					if check(cl.Delete(k), true) {
						delete(model, k)
					}
				case "list":
					p := vh.OneOf([]string{"", "a", "a/", "ab", "b/1", "c"}).Draw(rt, "prefix")
					got, err := cl.ListObjects(p)
					listed := check(err, true)
					var want []string
					for k, b := range model {
						if strings.HasPrefix(k, p) {
							want = append(want, fmt.Sprintf("%s %d", k, len(b)))
						}
					}
					var names []string
					for _, o := range got {
						names = append(names, fmt.Sprintf("%s %d", aws.StringValue(o.Key), aws.Int64Value(o.Size)))
					}
					sort.Strings(want)
					sort.Strings(names)
					if listed && strings.Join(names, "|") != strings.Join(want, "|") {
						rt.Fatalf("after %q: the listing of %q is the invalid %q, want %q", ops, p, names, want)
					}
				}
				if len(s.objects) != len(model) {
					rt.Fatalf("after %q: %d objects are stored, invalid, want %d", ops, len(s.objects), len(model))
				}
				for k, b := range model {
					if !bytes.Equal(s.objects[k], b) {
						rt.Fatalf("after %q: the stored %s is invalid", ops, k)
					}
				}
			}
		})
		c.Nontrivial(ops, s.page, s.sparse)
		c.Label("%d objects at the end, pages of %d, empty ones %v", len(model), s.page, s.sparse)
		c.Sample("%q", ops)
		if len(s.odd) > 0 {
			rt.Fatalf("invalid requests %v", s.odd)
		}
	})
}
