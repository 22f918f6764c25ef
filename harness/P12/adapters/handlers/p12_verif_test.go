package handlers

//use: mem dfssup

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"testing"

	"github.com/fairDataSociety/FaVe/models"
	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/go-openapi/runtime"
	"github.com/go-openapi/runtime/middleware"
	"github.com/go-openapi/strfmt"
)

func p12vec(s string) []float32 {
	v := make([]float32, 5)
	for i, c := range s {
		v[(i+int(c))%5] += float32(math.Sin(float64(c) * float64(i+1)))
	}
	v[0] += 2
	return v
}

func p12dist(a, b []float32) float64 {
	var d, x, y float64
	for i := range a {
		d += float64(a[i]) * float64(b[i])
		x += float64(a[i]) * float64(a[i])
		y += float64(b[i]) * float64(b[i])
	}
	return 1 - d/math.Sqrt(x*y)
}

// answer runs a responder and gives status and body.
func answer(r middleware.Responder, body any) (code int, err error) {
	if r == nil {
		return 0, fmt.Errorf("no response")
	}
	w := httptest.NewRecorder()
	r.WriteResponse(w, runtime.JSONProducer())
	if w.Code == 200 && body != nil {
		err = json.Unmarshal(w.Body.Bytes(), body)
	}
	return w.Code, err
}

type p12world struct {
	*dfsWorld
	srv *httptest.Server
	h   *Handler
}

func newP12() *p12world {
	w := &p12world{dfsWorld: newDfs()}
	w.srv = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.Method != "POST" {
			return
		}
		var q map[string][]string
		json.NewDecoder(r.Body).Decode(&q)
		s := ""
		for _, x := range q["query"] {
			s += x
		}
		json.NewEncoder(rw).Encode(map[string][]float32{"vector": p12vec(s)})
	}))
	w.start()
	return w
}

func (w *p12world) start() {
	c, err := document.New(document.Config{VectorizerUrl: w.srv.URL}, w.api())
	if err != nil {
		panic(err)
	}
	if err := c.Login(w.user, w.pass); err != nil {
		panic(err)
	}
	if err := c.OpenPod("pod"); err != nil {
		panic(err)
	}
	w.h = &Handler{doc: c}
}

func (w *p12world) stop() { w.srv.Close(); w.close() }

func quiet(f func()) {
	old := os.Stdout
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
		defer func() { os.Stdout = old; n.Close() }()
	}
	f()
}

func TestVerifRefused(t *testing.T) {
	h := vstart(t, "requests without a collection name, documents, properties, indexes, text or vector, with null documents or indexes, properties that are no object, unknown index types, unknown collections: refused with 400 and without effect")
	quiet(func() {
		w := newP12()
		defer w.stop()
		x := w.h
		ok := func(name string, r middleware.Responder) {
			if c, _ := answer(r, nil); c != 200 {
				h.fail("refused", name, "%s: status %d", name, c)
			}
		}
		bad := func(name string, f func() middleware.Responder) {
			h.try("refused", name, func() {
				if c, _ := answer(f(), nil); c != 400 {
					h.fail("accepted", name, "%s: status %d, expected 400", name, c)
				}
				h.eval(name, true)
			})
		}
		create := func(b *models.Collection) middleware.Responder {
			return x.FaveCreateCollectionHandler(operations.FaveCreateCollectionParams{Body: b})
		}
		idx := []*models.Index{{FieldName: "name", FieldType: "string"}}
		ok("create", create(&models.Collection{Name: "a", Indexes: idx}))
		bad("create without name", func() middleware.Responder { return create(&models.Collection{Indexes: idx}) })
		bad("create without indexes", func() middleware.Responder { return create(&models.Collection{Name: "b"}) })
		bad("create with null index", func() middleware.Responder {
			return create(&models.Collection{Name: "b", Indexes: []*models.Index{idx[0], nil}})
		})
		for _, ty := range []string{"", "String", "text", "vector", "int"} {
			ty := ty
			bad("create with index type "+ty, func() middleware.Responder {
				return create(&models.Collection{Name: "b", Indexes: []*models.Index{idx[0], {FieldName: "x", FieldType: ty}}})
			})
		}
		add := func(b *models.AddDocumentsRequest) middleware.Responder {
			return x.FaveAddDocumentsHandler(operations.FaveAddDocumentsParams{Body: b})
		}
		doc := func(p interface{}) []*models.Document {
			return []*models.Document{{ID: "d1", Properties: p}}
		}
		good := map[string]interface{}{"name": "n", "text": "some text"}
		bad("add without name", func() middleware.Responder {
			return add(&models.AddDocumentsRequest{Documents: doc(good), PropertiesToVectorize: []string{"text"}})
		})
		bad("add without documents", func() middleware.Responder {
			return add(&models.AddDocumentsRequest{Name: "a", PropertiesToVectorize: []string{"text"}})
		})
		bad("add without properties to vectorize", func() middleware.Responder {
			return add(&models.AddDocumentsRequest{Name: "a", Documents: doc(good)})
		})
		bad("add to an unknown collection", func() middleware.Responder {
			return add(&models.AddDocumentsRequest{Name: "unknown", Documents: doc(map[string]interface{}{"name": "n"}), PropertiesToVectorize: []string{"text"}})
		})
		for i, p := range []interface{}{nil, "text", 3.5, []interface{}{1.0}, true} {
			p := p
			bad(fmt.Sprintf("add with properties %v", p), func() middleware.Responder {
				return add(&models.AddDocumentsRequest{Name: "a", Documents: append(doc(map[string]interface{}{"name": fmt.Sprint("m", i), "text": "t"}), doc(p)...), PropertiesToVectorize: []string{"text"}})
			})
		}
		bad("add with a null document", func() middleware.Responder {
			return add(&models.AddDocumentsRequest{Name: "a", Documents: append(doc(map[string]interface{}{"name": "n", "text": "t"}), nil), PropertiesToVectorize: []string{"text"}})
		})
		near := func(b *models.NearestDocumentsRequest) middleware.Responder {
			return x.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: b})
		}
		bad("search without name", func() middleware.Responder {
			return near(&models.NearestDocumentsRequest{Text: "t", Distance: 2})
		})
		bad("search without text", func() middleware.Responder {
			return near(&models.NearestDocumentsRequest{Name: "a", Distance: 2})
		})
		bad("search in an unknown collection", func() middleware.Responder {
			return near(&models.NearestDocumentsRequest{Name: "unknown", Text: "t", Distance: 2})
		})
		byVec := func(n string, v []float32) middleware.Responder {
			return x.FaveGetNearestDocumentsByVectorHandler(operations.FaveGetNearestDocumentsByVectorParams{Body: &models.NearestDocumentsByVectorRequest{Name: n, Vector: v, Distance: 2}})
		}
		bad("vector search without name", func() middleware.Responder { return byVec("", p12vec("x")) })
		bad("vector search without vector", func() middleware.Responder { return byVec("a", nil) })
		bad("vector search in an unknown collection", func() middleware.Responder { return byVec("unknown", p12vec("x")) })
		get := func(c, p, v string) middleware.Responder {
			return x.GetDocumentsHandlerFunc(operations.FaveGetDocumentsParams{Collection: c, Property: p, Value: v})
		}
		bad("document of no collection", func() middleware.Responder { return get("", "name", "n") })
		bad("document of an unknown collection", func() middleware.Responder { return get("unknown", "name", "n") })
		// none of it had an effect
		var l []*models.Collection
		if c, err := answer(x.FaveGetCollectionsHandler(operations.FaveGetCollectionsParams{}), &l); c != 200 || err != nil || len(l) != 1 || l[0].Name != "a" {
			h.fail("effect", "collections", "after the refused requests: status %d, error %v, %d collections", c, err, len(l))
		}
		var res models.NearestDocumentsResponse
		if c, err := answer(byVec("a", p12vec("t ")), &res); c != 200 || err != nil || len(res.Documents) != 0 {
			h.fail("effect", "documents", "after the refused requests: status %d, error %v, %d documents", c, err, len(res.Documents))
		}
	})
}

func TestVerifAnswers(t *testing.T) {
	h := vstart(t, "collections with random indexes of 1 to 20 documents created, listed, filled, searched by text and vector and read by id over the REST handlers: status, indexes, content, distance, order and limit of the answers")
	for i := 0; i < h.n(10) && h.more(); i++ {
		in := map[string]any{"seed": h.rng.Int63()}
		r := rand.New(rand.NewSource(in["seed"].(int64)))
		h.try("answers", in, func() {
			quiet(func() {
				w := newP12()
				defer w.stop()
				x := w.h
				types := []string{"string", "number", "map", "list"}
				want := map[string]string{"name": "string"}
				col := &models.Collection{Name: "a", Indexes: []*models.Index{{FieldName: "name", FieldType: "string"}}}
				for _, ty := range types {
					if r.Intn(2) == 0 {
						want["f"+ty] = ty
						col.Indexes = append(col.Indexes, &models.Index{FieldName: "f" + ty, FieldType: ty})
					}
				}
				if c, _ := answer(x.FaveCreateCollectionHandler(operations.FaveCreateCollectionParams{Body: col}), nil); c != 200 {
					h.fail("create", in, "status %d", c)
					return
				}
				var l []*models.Collection
				if c, err := answer(x.FaveGetCollectionsHandler(operations.FaveGetCollectionsParams{}), &l); c != 200 || err != nil || len(l) != 1 {
					h.fail("list", in, "status %d, error %v, %d collections", c, err, len(l))
					return
				}
				got := map[string]string{}
				for _, x := range l[0].Indexes {
					got[x.FieldName] = x.FieldType
				}
				delete(got, "hnswId")
				delete(got, "id")
				if l[0].Name != "a" || !reflect.DeepEqual(got, want) {
					h.fail("list", in, "collection %s with indexes %v, created with %v", l[0].Name, got, want)
					return
				}
				model, vecs := map[string]map[string]interface{}{}, map[string][]float32{}
				for n := 1 + r.Intn(20); len(model) < n; {
					id := fmt.Sprintf("d%d", len(model))
					p := map[string]interface{}{"name": "n" + id, "note": []interface{}{1.0, "x", nil}, "fstring": "s" + id, "fnumber": float64(r.Intn(100)), "fmap": map[string]interface{}{"k": "v" + id}, "flist": []interface{}{"l" + id}}
					if r.Intn(3) > 0 {
						p["text"] = fmt.Sprintf("text %d", r.Intn(1e6))
						vecs[id] = p12vec(p["text"].(string) + " ")
					} else if r.Intn(2) == 0 {
						v := p12vec(fmt.Sprint("v", r.Intn(1e6)))
						var l []interface{}
						for _, y := range v {
							l = append(l, json.Number(fmt.Sprint(y)))
						}
						vecs[id] = v
						p["vector"] = l
					}
					mp := map[string]interface{}{}
					for k, v := range p {
						if k != "vector" {
							mp[k] = v
						}
					}
					model[id] = mp
					c, _ := answer(x.FaveAddDocumentsHandler(operations.FaveAddDocumentsParams{Body: &models.AddDocumentsRequest{Name: "a", PropertiesToVectorize: []string{"text"}, Documents: []*models.Document{{ID: strfmt.UUID(id), Properties: p}}}}), nil)
					if c != 200 {
						h.fail("add", in, "document %s: status %d", id, c)
						return
					}
				}
				same := func(d *models.Document) (float64, string) {
					p, _ := d.Properties.(map[string]interface{})
					dist, ok := p["distance"].(float64)
					if !ok {
						dist = math.NaN()
					}
					q := map[string]interface{}{}
					for k, v := range p {
						if k != "distance" && k != "hnswId" {
							q[k] = v
						}
					}
					if !reflect.DeepEqual(q, model[string(d.ID)]) {
						return 0, fmt.Sprintf("document %s is %v, added as %v", d.ID, q, model[string(d.ID)])
					}
					return dist, ""
				}
				for k := 0; k < 16; k++ {
					if k == 8 {
						w.start()
						x = w.h
					}
					text := fmt.Sprintf("query %d", r.Intn(1e6))
					q := p12vec(text)
					limit := []int{0, 1, 2, 5, 30, -1}[r.Intn(6)]
					maxDist := []float32{0.01, 0.2, 0.6, 1, 2}[r.Intn(5)]
					in["query"] = map[string]any{"text": text, "limit": limit, "distance": maxDist, "byVector": k%2 == 1}
					var res models.NearestDocumentsResponse
					var c int
					var err error
					if k%2 == 1 {
						c, err = answer(x.FaveGetNearestDocumentsByVectorHandler(operations.FaveGetNearestDocumentsByVectorParams{Body: &models.NearestDocumentsByVectorRequest{Name: "a", Vector: q, Distance: maxDist, Limit: int64(limit)}}), &res)
					} else {
						c, err = answer(x.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: &models.NearestDocumentsRequest{Name: "a", Text: text, Distance: maxDist, Limit: int64(limit)}}), &res)
					}
					if c != 200 || err != nil || res.Name != "a" {
						h.fail("search", in, "status %d, error %v, name %q", c, err, res.Name)
						return
					}
					if limit > 0 && len(res.Documents) > limit {
						h.fail("limit", in, "%d documents for a limit of %d", len(res.Documents), limit)
						return
					}
					last, seen := -1.0, map[string]bool{}
					for _, d := range res.Documents {
						dist, msg := same(d)
						id := string(d.ID)
						if msg == "" && (vecs[id] == nil || seen[id]) {
							msg = fmt.Sprintf("document %s has no vector, or comes twice", id)
						}
						if msg == "" && !(math.Abs(dist-p12dist(q, vecs[id])) < 1e-4) {
							msg = fmt.Sprintf("document %s at distance %v, its vector is at %v", id, dist, p12dist(q, vecs[id]))
						}
						if msg == "" && (dist > float64(maxDist)+1e-6 || dist < last) {
							msg = fmt.Sprintf("document %s at distance %v after %v, bound %v", id, dist, last, maxDist)
						}
						if msg != "" {
							h.fail("answer", in, "%s", msg)
							return
						}
						last, seen[id] = dist, true
					}
					if limit <= 0 {
						for id, v := range vecs {
							if p12dist(q, v) < float64(maxDist)-1e-4 && !seen[id] {
								h.fail("missing", in, "document %s at distance %v is not found", id, p12dist(q, v))
								return
							}
						}
					}
				}
				delete(in, "query")
				for id := range model {
					var d models.Document
					c, err := answer(x.GetDocumentsHandlerFunc(operations.FaveGetDocumentsParams{Collection: "a", Property: "id", Value: id}), &d)
					if c != 200 || err != nil {
						h.fail("get", in, "document %s: status %d, error %v", id, c, err)
						return
					}
					// a document with the id as a prefix of its own id may come first in the store
					if string(d.ID) != id {
						h.fail("get", in, "document %s asked for, got %s", id, d.ID)
						return
					}
					if _, msg := same(&d); msg != "" {
						h.fail("get", in, "%s", msg)
						return
					}
				}
				if c, _ := answer(x.FaveDeleteCollectionHandler(operations.FaveDeleteCollectionParams{Collection: "a"}), nil); c != 200 {
					h.fail("delete", in, "status %d", c)
				}
				h.eval(len(model), true)
			})
		})
	}
}
