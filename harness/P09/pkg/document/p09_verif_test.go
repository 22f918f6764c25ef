package document

//use: mem dfssup docsup

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"testing"
)

// the stored index of a collection, as the key-value store has it
func storedIndex(c *Client, name string, n int) (entry uint64, levels map[uint64]int, err error) {
	kv := c.podInfo.GetKVStore()
	ns := namespace + name
	_, b, err := kv.KVGet(ns, "entrypoint")
	if err != nil {
		return 0, nil, err
	}
	var e struct{ ID uint64 }
	if err := json.Unmarshal(b, &e); err != nil {
		return 0, nil, err
	}
	levels = map[uint64]int{}
	for id := 0; id < n; id++ {
		_, b, err := kv.KVGet(ns, fmt.Sprint(id))
		if err != nil {
			return 0, nil, fmt.Errorf("node %d: %w", id, err)
		}
		var v struct{ Level int }
		if err := json.Unmarshal(b, &v); err != nil {
			return 0, nil, err
		}
		levels[uint64(id)] = v.Level
	}
	return e.ID, levels, nil
}

func TestVerifRestarts(t *testing.T) {
	h := vstart(t, "a collection of 20 to 80 documents added in 2 to 6 batches with restarts between them; the stored entrypoint is on the highest level of the stored nodes after every batch")
	for i := 0; i < h.n(8) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("restarts", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c := w.client("pod")
				if err := c.CreateCollection(docCol("a")); err != nil {
					h.fail("create", in, "%v", err)
					return
				}
				n, top, tops := 0, 0, []int{}
				for b := 2 + r.Intn(5); b > 0; b-- {
					var docs []*Document
					for k := 10 + r.Intn(20); k > 0; k-- {
						docs = append(docs, &Document{ID: fmt.Sprint("d", n), Properties: map[string]interface{}{"name": "x", "size": 1.0, "vector": rndVec(r)}})
						n++
					}
					if err := c.AddDocuments("a", nil, docs...); err != nil {
						h.fail("add", in, "%v", err)
						return
					}
					e, levels, err := storedIndex(c, "a", n)
					if err != nil {
						h.fail("lost", in, "%v", err)
						return
					}
					for _, l := range levels {
						if l > top {
							top = l
						}
					}
					tops = append(tops, top)
					if levels[e] != top {
						h.fail("entrypoint", in, "after %d documents in batches the stored entrypoint %d is on level %d, the highest level is %d", n, e, levels[e], top)
						return
					}
					if r.Intn(3) > 0 {
						c = w.client("pod")
					}
				}
				h.eval(tops, top > 0)
			})
		})
	}
}
