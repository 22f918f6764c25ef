package rest

import (
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
)

// a service that answers what the case says and records what it was asked
func TestVerifService(t *testing.T) {
	h := vstart(t, "a local service answering with random statuses (200 to 599), whole, torn, empty and vectorless bodies, slow headers and aborted connections; random queries")
	var mu sync.Mutex
	health, status, body, abort := 200, 200, "", 0
	var gotPath, gotMethod, gotBody string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		p := r.URL.Path
		for strings.Contains(p, "//") {
			p = strings.ReplaceAll(p, "//", "/")
		}
		if p == "/health" {
			w.WriteHeader(health)
			return
		}
		b, _ := io.ReadAll(r.Body)
		gotPath, gotMethod, gotBody = p, r.Method, string(b)
		if abort == 1 {
			panic(http.ErrAbortHandler)
		}
		if abort == 2 {
			w.Header().Set("Content-Length", "100000")
		}
		w.WriteHeader(status)
		io.WriteString(w, body)
		if abort == 2 {
			panic(http.ErrAbortHandler)
		}
	}))
	defer srv.Close()
	statuses := []int{200, 200, 200, 200, 200, 200, 200, 200, 200, 200, 201, 202, 204, 206, 400, 401, 403, 404, 429, 500, 502, 503}
	for i := 0; i < h.n(400) && h.more(); i++ {
		r := h.rng
		vec := make([]float32, r.Intn(20))
		for j := range vec {
			vec[j] = float32(r.NormFloat64())
		}
		vb, _ := json.Marshal(map[string]any{"vector": vec})
		whole := string(vb)
		mu.Lock()
		health, status, body, abort = statuses[r.Intn(len(statuses))], statuses[r.Intn(len(statuses))], whole, 0
		kind := r.Intn(15)
		switch kind {
		case 0:
			body = ""
		case 1:
			body = whole[:r.Intn(len(whole))]
		case 2:
			body = `{"other":[1,2,3]}`
		case 3:
			body = `{"vector":"x"}`
		case 4:
			body = `null`
		case 5:
			abort = 1
		case 6:
			abort = 2
			body = whole[:r.Intn(len(whole))]
		}
		switch kind {
		case 9:
			body = `{"vector":[]}`
		case 10:
			body = `{"vector":null}`
		case 11:
			body = `{"vector":[0.5,"x",3]}`
		case 12:
			body = `{"vector":[0.5,1e99,3]}`
		case 13:
			body = `{"vector":[0.5,[1],3],"other":[1]}`
		case 14:
			body = `[0.5,1]`
		}
		good := (kind == 7 || kind == 8) && status == 200 && len(vec) > 0
		text := make([]string, 1+r.Intn(4))
		for j := range text {
			text[j] = []string{"plain", "with \"quotes\"", "ünïcode 漢字", "", "line\nbreak", "a&b=<c>"}[r.Intn(6)]
		}
		in := map[string]any{"health": health, "status": status, "body": body, "abort": abort, "query": text}
		healthy := health == 200
		mu.Unlock()
		h.eval(in, true)
		h.try("service", in, func() {
			v, err := NewVectorizer(srv.URL)
			if (err == nil) != healthy {
				h.fail("health", in, "NewVectorizer: %v", err)
			}
			if err == nil && v == nil {
				h.fail("health", in, "neither vectorizer nor error")
			}
			if v == nil {
				v = &Vectorizer{url: srv.URL}
			}
			out, err := v.Corpi(text)
			if (err == nil) != good {
				h.fail("reply", in, "Corpi error %v on a reply that should be accepted: %v", err, good)
				return
			}
			if err != nil {
				return
			}
			if out == nil || out.Len() != len(vec) {
				h.fail("vector", in, "got %v, want %v", out, vec)
				return
			}
			for j, x := range out.ToArray() {
				if x != vec[j] {
					h.fail("vector", in, "component %d: %v, want %v", j, x, vec[j])
				}
			}
			var q struct{ Query []string }
			if e := json.Unmarshal([]byte(gotBody), &q); e != nil || gotPath != "/vectorize" || gotMethod != "POST" || strings.Join(q.Query, "\x00") != strings.Join(text, "\x00") {
				h.fail("request", in, "%s %s %q", gotMethod, gotPath, gotBody)
			}
		})
	}
	// nobody listens
	dead := httptest.NewServer(http.NotFoundHandler())
	url := dead.URL
	dead.Close()
	h.try("unreachable", url, func() {
		if _, err := NewVectorizer(url); err == nil {
			h.fail("unreachable", url, "a service nobody runs is healthy")
		}
		if _, err := (&Vectorizer{url: url}).Corpi([]string{"x"}); err == nil {
			h.fail("unreachable", url, "a service nobody runs answered")
		}
	})
}
