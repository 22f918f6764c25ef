package document

//use: mem dfssup docsup

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"testing"
)

func TestVerifHistories(t *testing.T) {
	h := vstart(t, "random histories of 3 to 9 batches of 1 to 8 documents (vectors as float32 or mixed JSON numbers, texts, neither) on two collections with restarts in between; every document then looked up by id and by its own vector")
	for i := 0; i < h.n(25) && h.more(); i++ {
		r := h.rng
		in := map[string]any{"seed": r.Int63()}
		var steps []string
		r = rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("history", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c := w.client("pod")
				ms := map[string]*mcoll{"a": {docs: map[string]*mdoc{}, fields: someFields(r)}, "ab": {docs: map[string]*mdoc{}, fields: someFields(r)}}
				for k := range ms {
					if err := c.CreateCollection(docCol(k)); err != nil {
						h.fail("create", in, "%v", err)
						return
					}
				}
				for b := 3 + r.Intn(7); b > 0; b-- {
					name := []string{"a", "ab"}[r.Intn(2)]
					n := 1 + r.Intn(8)
					steps = append(steps, fmt.Sprint("add ", n, " to ", name))
					in["steps"] = steps
					if err := addBatch(r, c, name, ms[name], "d", n); err != nil {
						h.fail("add", in, "%v", err)
					}
					if r.Intn(4) == 0 {
						steps = append(steps, "restart")
						c = w.client("pod")
					}
					if r.Intn(4) == 0 {
						checkColl(h, in, c, name, ms[name])
					}
				}
				h.eval(steps, true)
				in["steps"] = steps
				for _, k := range []string{"a", "ab"} {
					checkColl(h, in, c, k, ms[k])
				}
			})
		})
	}
}

func TestVerifFaults(t *testing.T) {
	h := vstart(t, "random histories in which uploads fail from a random point of a batch on, or the vectorizer fails, or a vector of the wrong length or kind or a property that cannot be stored is among the documents; storage works again afterwards; nothing found may be wrong and nothing acknowledged may be lost, now and after a restart")
	for i := 0; i < h.n(40) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		var steps []string
		h.try("faults", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c := w.client("pod")
				m := &mcoll{docs: map[string]*mdoc{}, fields: someFields(r)}
				if err := c.CreateCollection(docCol("a")); err != nil {
					h.fail("create", in, "%v", err)
					return
				}
				for b := 2 + r.Intn(6); b > 0; b-- {
					n := 1 + r.Intn(6)
					tv := &textVec{}
					c.lookup = tv
					kind := r.Intn(5)
					switch kind {
					case 0:
						k := 1 + r.Intn(12*n)
						steps = append(steps, fmt.Sprint("add ", n, ", uploads fail after ", k))
						w.mc.blobsOnly.Store(true)
						w.mc.failUpAfter.Store(int64(k))
					case 1:
						steps = append(steps, fmt.Sprint("add ", n, ", vectorizer fails"))
						tv.fail = true
					default:
						steps = append(steps, fmt.Sprint("add ", n))
					}
					in["steps"] = steps
					if kind == 2 && m.n > 0 {
						// one document cannot be indexed
						docs, ms := rndDocs(r, m, "d", n)
						k := r.Intn(n)
						switch r.Intn(4) {
						case 3:
							docs[k].Properties["size"] = math.NaN()
						case 0:
							docs[k].Properties["vector"] = []float32{1, 2}
						case 1:
							docs[k].Properties["vector"] = []interface{}{1.0, "x"}
						default:
							docs[k].Properties["vector"] = []float32{}
						}
						steps = append(steps, fmt.Sprint("  with vector ", docs[k].Properties["vector"], ", size ", docs[k].Properties["size"]))
						in["steps"] = steps
						err := c.AddDocuments("a", m.list(), docs...)
						if err == nil {
							h.fail("acknowledged", in, "AddDocuments reported success, but %v cannot be stored", docs[k].ID)
						}
						for j, d := range ms {
							if j == k {
								d.vec = []float32{1, 2}
							}
							m.docs[d.id] = d
						}
						m.hazy = true
					} else {
						addBatch(r, c, "a", m, "d", n)
					}
					w.mc.failUpAfter.Store(0)
					w.mc.failUp.Store(false)
					if r.Intn(3) == 0 {
						steps = append(steps, "restart")
						c = w.client("pod")
					}
				}
				in["steps"] = steps
				h.eval(steps, true)
				checkColl(h, in, c, "a", m)
				c = w.client("pod")
				in["steps"] = append(steps, "restart")
				checkColl(h, in, c, "a", m)
			})
		})
	}
}

func TestVerifConcurrent(t *testing.T) {
	h := vstart(t, "2 to 4 goroutines adding batches to one or two collections while others search, also right after a restart; then every document looked up")
	for i := 0; i < h.n(10) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("concurrent", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c := w.client("pod")
				m := &mcoll{docs: map[string]*mdoc{}}
				if err := c.CreateCollection(docCol("a")); err != nil {
					h.fail("create", in, "%v", err)
					return
				}
				if err := addBatch(r, c, "a", m, "d", 1+r.Intn(20)); err != nil {
					h.fail("add", in, "%v", err)
				}
				if r.Intn(2) == 0 {
					c = w.client("pod")
				}
				g := 2 + r.Intn(3)
				in["adders"] = g
				h.eval(in, true)
				var wg sync.WaitGroup
				var mu sync.Mutex
				all := &mcoll{docs: map[string]*mdoc{}}
				for k, d := range m.docs {
					all.docs[k] = d
				}
				type job struct {
					docs []*Document
					ms   []*mdoc
				}
				jobs := make([][]job, g)
				for k := range jobs {
					mk := &mcoll{}
					for b := 0; b < 3; b++ {
						docs, ms := rndDocs(r, mk, fmt.Sprintf("g%dx", k), 1+r.Intn(5))
						jobs[k] = append(jobs[k], job{docs, ms})
						for _, d := range ms {
							all.docs[d.id] = d
						}
					}
				}
				queries := make([][]float32, 12)
				for k := range queries {
					queries[k] = rndVec(r)
				}
				for k := range jobs {
					wg.Add(1)
					go func(js []job) {
						defer wg.Done()
						for _, j := range js {
							err := c.AddDocuments("a", []string{"text"}, j.docs...)
							mu.Lock()
							if err != nil {
								h.fail("add", in, "%v", err)
							}
							for _, d := range j.ms {
								d.sure = err == nil
							}
							mu.Unlock()
						}
					}(jobs[k])
				}
				for k := 0; k < 2; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						for _, q := range queries[k*6 : k*6+6] {
							docs, dists, err := c.GetNearDocumentsByVector("a", q, 2, 0)
							if err != nil {
								h.fail("search-error", in, "search while documents are added: %v", err)
								continue
							}
							mu.Lock()
							if msg := checkAnswer(all, q, 2, 0, docs, dists); msg != "" {
								h.fail("wrong-answer", in, "search while documents are added: %s", msg)
							}
							mu.Unlock()
						}
					}(k)
				}
				wg.Wait()
				checkColl(h, in, c, "a", all)
				c = w.client("pod")
				checkColl(h, in, c, "a", all)
			})
		})
	}
}
