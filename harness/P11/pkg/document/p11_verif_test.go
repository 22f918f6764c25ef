package document

//use: mem dfssup docsup

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"

	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
)

// every operation that needs an open pod, with the error it gives
func p11ops(c *Client) map[string]error {
	out := map[string]error{}
	out["CreateCollection"] = c.CreateCollection(docCol("x"))
	out["DeleteCollection"] = c.DeleteCollection("x")
	_, out["GetCollections"] = c.GetCollections()
	out["AddDocuments"] = c.AddDocuments("x", []string{"text"}, &Document{ID: "d", Properties: map[string]interface{}{"name": "n", "size": 1.0, "text": "t"}})
	_, _, out["GetNearDocuments"] = c.GetNearDocuments("x", "t", 1, 3)
	_, _, out["GetNearDocumentsByVector"] = c.GetNearDocumentsByVector("x", []float32{1, 2, 3, 4, 5, 6}, 1, 3)
	_, out["GetDocument"] = c.GetDocument("x", "id", "d")
	return out
}

func TestVerifSession(t *testing.T) {
	h := vstart(t, "every operation before login, after a failed login, before a pod is open, after a failed opening and after a second login: an error, no effect, and the client is usable afterwards")
	for i := 0; i < h.n(3) && h.more(); i++ {
		in := map[string]any{"round": i}
		h.try("session", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c, err := New(Config{}, w.api())
				if err != nil {
					h.fail("new", in, "%v", err)
					return
				}
				c.lookup = &textVec{}
				expect := func(when string, want error) {
					for op, err := range p11ops(c) {
						if err == nil {
							h.fail("accepted", in, "%s %s is accepted", op, when)
						} else if op != "GetDocument" && !errors.Is(err, want) {
							h.fail("wrong-error", in, "%s %s: %v, expected %v", op, when, err, want)
						}
					}
				}
				expect("before login", dfs.ErrUserNotLoggedIn)
				if err := c.OpenPod("pod"); err == nil {
					h.fail("accepted", in, "OpenPod before login is accepted")
				}
				expect("after OpenPod without login", dfs.ErrUserNotLoggedIn)
				if err := c.Login(w.user, "a wrong password"); err == nil {
					h.fail("accepted", in, "login with a wrong password is accepted")
				}
				expect("after a failed login", dfs.ErrUserNotLoggedIn)
				if err := c.Login(w.user, w.pass); err != nil {
					h.fail("login", in, "%v", err)
					return
				}
				expect("before a pod is open", dfs.ErrPodNotOpen)
				if err := c.OpenPod(""); err == nil {
					h.fail("accepted", in, "OpenPod without a name is accepted")
				}
				expect("after a failed OpenPod", dfs.ErrPodNotOpen)
				if err := c.OpenPod("pod"); err != nil {
					h.fail("open", in, "%v", err)
					return
				}
				r := rand.New(rand.NewSource(int64(i)))
				m := &mcoll{docs: map[string]*mdoc{}}
				if err := c.CreateCollection(docCol("a")); err != nil {
					h.fail("create", in, "%v", err)
					return
				}
				if err := addBatch(r, c, "a", m, "d", 5); err != nil {
					h.fail("add", in, "%v", err)
					return
				}
				// a failed switch leaves the open pod in use
				if err := c.OpenPod(""); err == nil {
					h.fail("accepted", in, "OpenPod without a name is accepted")
				}
				checkColl(h, in, c, "a", m)
				if err := c.OpenPod("pod"); err != nil {
					h.fail("open", in, "opening the open pod: %v", err)
					return
				}
				checkColl(h, in, c, "a", m)
				if err := addBatch(r, c, "a", m, "d", 5); err != nil {
					h.fail("add", in, "after a failed switch: %v", err)
					return
				}
				checkColl(h, in, c, "a", m)
				h.eval(len(m.docs), true)
			})
		})
	}
}

type p11coll struct {
	m   *mcoll
	idx map[string]collection.IndexType
}

// listed compares the collections of the open pod with the model.
func listed(h *vh, in any, c *Client, pod string, cols map[string]*p11coll) bool {
	got, err := c.GetCollections()
	if err != nil {
		h.fail("list", in, "GetCollections in %s: %v", pod, err)
		return false
	}
	seen := map[string]bool{}
	for _, g := range got {
		x := cols[g.Name]
		if x == nil || seen[g.Name] {
			h.fail("listed", in, "GetCollections in %s lists %q (again: %v)", pod, g.Name, seen[g.Name])
			return false
		}
		seen[g.Name] = true
		idx := map[string]collection.IndexType{"hnswId": collection.NumberIndex, "id": collection.StringIndex}
		for k, v := range x.idx {
			idx[k] = v
		}
		if !reflect.DeepEqual(g.Indexes, idx) {
			h.fail("indexes", in, "GetCollections in %s: %q has the indexes %v, created with %v", pod, g.Name, g.Indexes, idx)
			return false
		}
	}
	for n := range cols {
		if !seen[n] {
			h.fail("listed", in, "GetCollections in %s does not list %q", pod, n)
			return false
		}
	}
	return true
}

func names(m map[string]*p11coll) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// two registered users
func newDfs2() *dfsWorld {
	for {
		w := newDfs()
		ok := func() (ok bool) {
			defer func() { recover() }()
			a := w.api()
			if _, err := a.CreateUserV2("other"+w.user, w.pass, "", ""); err != nil {
				return false
			}
			_, err := w.api().LoginUserV2("other"+w.user, w.pass, "")
			return err == nil
		}()
		if ok {
			return w
		}
		w.close()
	}
}

func TestVerifIsolation(t *testing.T) {
	h := vstart(t, "random histories of 8 to 20 steps over two users, two pods each (one name a prefix of the other or the same in capitals) and four collection names out of ten that are prefixes of others or differ in case or blanks only, next to document tables of other applications: create, add, delete, create again, switch pods, switch users, restart; collections, indexes and documents compared with a model after each switch and at the end")
	for i := 0; i < h.n(40) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		var steps []string
		h.try("isolation", in, func() {
			silently(func() {
				w := newDfs2()
				defer w.close()
				other := []string{"pa", "P"}[r.Intn(2)]
				users := []string{w.user, "other" + w.user}
				all := map[string]map[string]map[string]*p11coll{users[0]: {"p": {}, other: {}}, users[1]: {"p": {}, other: {}}}
				foreign := map[string]bool{}
				pods := all[w.user]
				pod := "p"
				c := w.client(pod)
				bad := func(f string, a ...any) {
					in["steps"] = steps
					h.fail("operation", in, f, a...)
				}
				check := func() {
					in["steps"] = steps
					if !listed(h, in, c, pod, pods[pod]) {
						return
					}
					for _, n := range names(pods[pod]) {
						m := pods[pod][n].m
						checkColl(h, in, c, n, m)
						// nothing but the documents of this collection
						q := rndVec(r)
						docs, dists, err := c.GetNearDocumentsByVector(n, q, 2, 0)
						if err != nil {
							h.fail("search", in, "search in %s of %s with %d documents: %v", n, pod, len(m.docs), err)
						} else if msg := checkAnswer(m, q, 2, 0, docs, dists); msg != "" {
							h.fail("foreign", in, "search in %s of %s: %s", n, pod, msg)
						}
					}
				}
				// tables of other applications are not collections
				tables := func() {
					if foreign[w.user+pod] {
						return
					}
					foreign[w.user+pod] = true
					for _, n := range []string{"my_fave_a", "afave_", "fav", "Fave_b"} {
						if err := c.api.DocCreate(c.sessionId, pod, n, map[string]collection.IndexType{"name": collection.StringIndex}, true); err != nil {
							bad("table %s: %v", n, err)
						}
					}
				}
				tables()
				ns := []string{"a", "ab", "b", "fave_a", "A", "a ", " a", "aB", "_a", "a_b"}
				r.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
				ns = append(ns[:3:3], "a")
				for k := 8 + r.Intn(13); k > 0; k-- {
					n := ns[r.Intn(len(ns))]
					cols := pods[pod]
					switch o := r.Intn(12); {
					case o < 1:
						w.user = map[string]string{users[0]: users[1], users[1]: users[0]}[w.user]
						pods = all[w.user]
						steps = append(steps, "login "+w.user+", open "+pod)
						if err := c.Login(w.user, w.pass); err != nil {
							bad("login %s: %v", w.user, err)
							return
						}
						if _, err := c.GetCollections(); err == nil {
							bad("a pod is open for %s after login", w.user)
							return
						}
						if err := c.OpenPod(pod); err != nil {
							bad("open %s: %v", pod, err)
							return
						}
						check()
						tables()
					case o < 2:
						pod = map[string]string{"p": other, other: "p"}[pod]
						steps = append(steps, "open "+pod)
						if err := c.OpenPod(pod); err != nil {
							bad("open %s: %v", pod, err)
							return
						}
						check()
						tables()
					case o < 3:
						steps = append(steps, "restart")
						c = w.client(pod)
						check()
					case o < 5 && cols[n] != nil:
						steps = append(steps, "delete "+n)
						if err := c.DeleteCollection(n); err != nil {
							bad("delete %s: %v", n, err)
							return
						}
						delete(cols, n)
						if !listed(h, in, c, pod, cols) {
							return
						}
					case cols[n] == nil:
						steps = append(steps, "create "+n)
						col := &Collection{Name: n, Indexes: map[string]collection.IndexType{"name": collection.StringIndex}}
						if r.Intn(2) == 0 {
							col.Indexes["size"] = collection.NumberIndex
						}
						if r.Intn(3) == 0 {
							// documents of the harness have no such fields
							col.Indexes["tags"] = collection.ListIndex
							col.Indexes["attrs"] = collection.MapIndex
						}
						x := &p11coll{m: &mcoll{docs: map[string]*mdoc{}}, idx: map[string]collection.IndexType{}}
						for k, v := range col.Indexes {
							x.idx[k] = v
						}
						if err := c.CreateCollection(col); err != nil {
							bad("create %s: %v", n, err)
							return
						}
						cols[n] = x
						docs, _, err := c.GetNearDocumentsByVector(n, rndVec(r), 2, 0)
						if err != nil || len(docs) > 0 {
							bad("a search in the new collection %s finds %d documents, error %v", n, len(docs), err)
							return
						}
					default:
						if _, ok := cols[n].idx["tags"]; ok {
							continue
						}
						b := 1 + r.Intn(6)
						steps = append(steps, fmt.Sprintf("add %d to %s", b, n))
						if err := addBatch(r, c, n, cols[n].m, fmt.Sprintf("%s%s%dx", pod, n, k), b); err != nil {
							bad("add to %s: %v", n, err)
							return
						}
					}
				}
				check()
				steps = append(steps, "restart")
				c = w.client(pod)
				check()
				h.eval(steps, true)
			})
		})
	}
}

func TestVerifFailedDelete(t *testing.T) {
	h := vstart(t, "deletions during which downloads or uploads fail from the start or from a random point on: reported, or complete; after a repeated deletion the recreated collection is empty")
	for i := 0; i < h.n(16) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("failed-delete", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c := w.client("pod")
				m := &mcoll{docs: map[string]*mdoc{}}
				if err := c.CreateCollection(docCol("a")); err != nil {
					h.fail("create", in, "%v", err)
					return
				}
				if err := addBatch(r, c, "a", m, "d", 2+r.Intn(12)); err != nil {
					h.fail("add", in, "%v", err)
					return
				}
				if r.Intn(2) == 0 {
					c = w.client("pod")
				}
				kind := r.Intn(3)
				w.mc.blobsOnly.Store(true)
				switch kind {
				case 0:
					w.mc.failDown.Store(true)
				case 1:
					w.mc.failUp.Store(true)
				default:
					w.mc.failUpAfter.Store(int64(1 + r.Intn(6)))
				}
				in["fault"] = kind
				err := c.DeleteCollection("a")
				w.mc.failDown.Store(false)
				w.mc.failUp.Store(false)
				w.mc.failUpAfter.Store(0)
				in["error"] = fmt.Sprint(err)
				if r.Intn(2) == 0 {
					c = w.client("pod")
				}
				if err != nil {
					if err := c.DeleteCollection("a"); err != nil {
						h.fail("again", in, "the repeated deletion: %v", err)
						return
					}
				}
				if !listed(h, in, c, "pod", nil) {
					return
				}
				if err := c.CreateCollection(docCol("a")); err != nil {
					h.fail("create", in, "%v", err)
					return
				}
				m = &mcoll{docs: map[string]*mdoc{}}
				docs, _, err := c.GetNearDocumentsByVector("a", rndVec(r), 2, 0)
				if err != nil || len(docs) > 0 {
					h.fail("not-empty", in, "the new collection has %d documents, error %v", len(docs), err)
					return
				}
				if err := addBatch(r, c, "a", m, "e", 2+r.Intn(12)); err != nil {
					h.fail("add", in, "%v", err)
					return
				}
				checkColl(h, in, c, "a", m)
				h.eval(in, true)
			})
		})
	}
}

func TestVerifRecreate(t *testing.T) {
	h := vstart(t, "a collection with 1 to 25 documents is deleted, by the client that filled it or after a restart, and created again with 1 to 6 documents, up to three times: only the new documents are found, each of them, also after a restart")
	for i := 0; i < h.n(12) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("recreate", in, func() {
			silently(func() {
				w := newDfs()
				defer w.close()
				c := w.client("pod")
				var steps []string
				for k := 0; k < 4; k++ {
					m := &mcoll{docs: map[string]*mdoc{}}
					n := 1 + r.Intn(25)
					if k > 0 {
						n = 1 + r.Intn(6)
					}
					steps = append(steps, fmt.Sprint("create, add ", n))
					in["steps"] = steps
					if err := c.CreateCollection(docCol("a")); err != nil {
						h.fail("create", in, "%v", err)
						return
					}
					if err := addBatch(r, c, "a", m, fmt.Sprintf("r%d-", k), n); err != nil {
						h.fail("add", in, "%v", err)
						return
					}
					checkColl(h, in, c, "a", m)
					if r.Intn(2) == 0 {
						steps = append(steps, "restart")
						in["steps"] = steps
						c = w.client("pod")
						checkColl(h, in, c, "a", m)
					}
					if err := c.DeleteCollection("a"); err != nil {
						h.fail("delete", in, "%v", err)
						return
					}
				}
				h.eval(steps, true)
			})
		})
	}
}

func TestVerifSwitch(t *testing.T) {
	h := vstart(t, "one collection name in both pods of both users, 1 to 6 documents in each; then 10 random switches of pod or user (or the same one again), additions and restarts, the documents compared after each")
	for i := 0; i < h.n(16) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("switch", in, func() {
			silently(func() {
				w := newDfs2()
				defer w.close()
				pods := []string{"p", []string{"pa", "P", "p2"}[i%3]}
				users := []string{w.user, "other" + w.user}
				ms := map[string]*mcoll{}
				pod := pods[0]
				var steps []string
				c := w.client(pod)
				step := func(s string, err error) bool {
					steps = append(steps, s)
					in["steps"] = steps
					if err != nil {
						h.fail("operation", in, "%s: %v", s, err)
					}
					return err == nil
				}
				visit := func() bool {
					k := w.user + "/" + pod
					if ms[k] == nil {
						if !step("create a", c.CreateCollection(docCol("a"))) {
							return false
						}
						ms[k] = &mcoll{docs: map[string]*mdoc{}}
					}
					if ms[k].n == 0 || r.Intn(3) == 0 {
						n := 1 + r.Intn(6)
						if !step(fmt.Sprintf("add %d to a", n), addBatch(r, c, "a", ms[k], fmt.Sprintf("u%dp%d-", len(w.user), len(pod)), n)) {
							return false
						}
					}
					checkColl(h, in, c, "a", ms[k])
					q := rndVec(r)
					docs, dists, err := c.GetNearDocumentsByVector("a", q, 2, 0)
					if err != nil {
						h.fail("search", in, "search in %s: %v", k, err)
					} else if msg := checkAnswer(ms[k], q, 2, 0, docs, dists); msg != "" {
						h.fail("foreign", in, "search in %s: %s", k, msg)
					}
					return listed(h, in, c, pod, map[string]*p11coll{"a": {idx: docCol("a").Indexes}})
				}
				for k := 0; k < 10; k++ {
					if !visit() {
						return
					}
					switch o := r.Intn(6); {
					case o < 3:
						pod = pods[r.Intn(2)]
						if !step("open "+pod, c.OpenPod(pod)) {
							return
						}
					case o < 5:
						w.user = users[r.Intn(2)]
						if !step("login "+w.user, c.Login(w.user, w.pass)) || !step("open "+pod, c.OpenPod(pod)) {
							return
						}
					default:
						steps = append(steps, "restart")
						c = w.client(pod)
					}
				}
				visit()
				h.eval(steps, true)
			})
		})
	}
}
