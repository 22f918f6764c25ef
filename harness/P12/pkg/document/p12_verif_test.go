package document

//use: mem dfssup docsup

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"
)

// within lists the distances of the documents of m at most maxDist away, nearest first.
func within(m *mcoll, q []float32, maxDist float64) (out []float64) {
	for _, d := range m.docs {
		if d.vec != nil {
			if x := cosDist(q, d.vec); x <= maxDist {
				out = append(out, x)
			}
		}
	}
	sort.Float64s(out)
	return
}

func TestVerifSearch(t *testing.T) {
	h := vstart(t, "collections of 0 to 45 documents (some without vector), searched by vector and by text with limits from -3 to beyond the collection and distances from -1 to 3, before and after a restart: soundness of every answer, and completeness of answers without a limit or by vector")
	for i := 0; i < h.n(14) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("search", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c := w.client("pod")
				if err := c.CreateCollection(docCol("a")); err != nil {
					h.fail("create", in, "%v", err)
					return
				}
				m := &mcoll{docs: map[string]*mdoc{}}
				n := []int{0, 1, 2, 5, 20, 45}[r.Intn(6)]
				for len(m.docs) < n {
					b := 1 + r.Intn(n-len(m.docs))
					if err := addBatch(r, c, "a", m, "d", b); err != nil {
						h.fail("add", in, "%v", err)
						return
					}
				}
				if r.Intn(4) == 0 && n > 0 {
					// only documents without a vector in a second collection
					if err := c.CreateCollection(docCol("b")); err != nil {
						h.fail("create", in, "%v", err)
						return
					}
					if err := c.AddDocuments("b", []string{"text"}, &Document{ID: "x", Properties: map[string]interface{}{"name": "x", "size": 1.0}}); err != nil {
						h.fail("add", in, "%v", err)
						return
					}
					if docs, dists, err := c.GetNearDocumentsByVector("b", rndVec(r), 2, 0); err != nil || len(docs) != 0 || len(dists) != 0 {
						h.fail("vectorless", in, "a collection without vectors: %d documents, error %v", len(docs), err)
					}
				}
				for k := 0; k < 24; k++ {
					if k == 12 {
						c = w.client("pod")
					}
					limit := []int{-3, -1, 0, 1, 2, 3, 7, 20, 60, 1000}[r.Intn(10)]
					dist := []float32{-1, 0, 1e-4, 0.3, 0.8, 1, 1.5, 2, 3}[r.Intn(9)]
					byText := r.Intn(2) == 0
					text := fmt.Sprintf("query %d", r.Intn(1000))
					q := rndVec(r)
					if byText {
						q = vecOfText(text)
					} else if len(m.docs) > 0 && r.Intn(3) == 0 {
						if d := m.sorted()[r.Intn(len(m.docs))]; d.vec != nil {
							q = append([]float32{}, d.vec...)
						}
					}
					in["query"] = map[string]any{"byText": byText, "limit": limit, "distance": dist, "text": text, "vector": q, "documents": n}
					var docs [][]byte
					var dists []float32
					var err error
					given := append([]float32{}, q...)
					if byText {
						docs, dists, err = c.GetNearDocuments("a", text, dist, limit)
					} else {
						docs, dists, err = c.GetNearDocumentsByVector("a", q, dist, limit)
					}
					if err != nil {
						h.fail("error", in, "%v", err)
						return
					}
					for j := range q {
						if q[j] != given[j] {
							h.fail("query-changed", in, "the query vector %v became %v", given, q)
							return
						}
					}
					if msg := checkAnswer(m, q, dist, limit, docs, dists); msg != "" {
						h.fail("unsound", in, "%s", msg)
						return
					}
					// at most 45 documents are all linked without any link being dropped: a search that may
					// hold all of them finds all of them (documents within rounding of the bound may be missing)
					if !byText || limit <= 0 {
						want := within(m, q, float64(dist)-1e-4)
						if limit > 0 && len(want) > limit {
							want = want[:limit]
						}
						if len(docs) < len(want) {
							h.fail("missing", in, "%d documents found, %d are within %v: %v", len(docs), len(want), dist, want)
							return
						}
						for j := range want {
							if math.Abs(float64(dists[j])-want[j]) > 2e-4 {
								h.fail("missing", in, "distances %v, nearest documents at %v", dists, want)
								return
							}
						}
					}
				}
				delete(in, "query")
				h.eval(in, n > 0)
			})
		})
	}
}
