package hnsw

//use: mem hnswsup

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing"

	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
)

type p14field struct {
	key string
	def int
	get func(UserConfig) int
}

var p14ints = []p14field{
	{"maxConnections", 64, func(c UserConfig) int { return c.MaxConnections }},
	{"cleanupIntervalSeconds", 300, func(c UserConfig) int { return c.CleanupIntervalSeconds }},
	{"efConstruction", 128, func(c UserConfig) int { return c.EFConstruction }},
	{"ef", -1, func(c UserConfig) int { return c.EF }},
	{"dynamicEfFactor", 8, func(c UserConfig) int { return c.DynamicEFFactor }},
	{"dynamicEfMax", 500, func(c UserConfig) int { return c.DynamicEFMax }},
	{"dynamicEfMin", 100, func(c UserConfig) int { return c.DynamicEFMin }},
	{"vectorCacheMaxObjects", 1e12, func(c UserConfig) int { return c.VectorCacheMaxObjects }},
	{"flatSearchCutoff", 40000, func(c UserConfig) int { return c.FlatSearchCutoff }},
}

// a number of a configuration map, the value it stands for and whether it is one
func p14num(r *rand.Rand) (any, int, bool) {
	n := []int{0, 1, 3, 4, 5, 64, 100000, -1, -7, r.Intn(1000), 1 << 40}[r.Intn(11)]
	switch r.Intn(6) {
	case 0:
		return json.Number(strconv.Itoa(n)), n, true
	case 1:
		return json.Number("92233720368547758080"), math.MaxInt64, true
	case 2:
		return 1e300, math.MaxInt64, true
	case 3:
		return json.Number("many"), 0, false
	}
	return float64(n), n, true
}

func TestVerifConfigParse(t *testing.T) {
	h := vstart(t, "random configuration maps with any subset of the keys set to json.Number or float64 numbers in and out of range, booleans, strings and PQ settings; each parsed value compared with a reference, parsed configurations marshalled and parsed again")
	if c, err := ParseAndValidateConfig(nil); err != nil || fmt.Sprint(c) != fmt.Sprint(NewDefaultUserConfig()) {
		h.fail("nil config", nil, "no input gives %+v, %v", c, err)
	}
	for i := 0; i < h.n(4000) && h.more(); i++ {
		r := h.rng
		in := map[string]any{}
		want := map[string]int{}
		bad := false
		for _, f := range p14ints {
			want[f.key] = f.def
			if r.Intn(3) == 0 {
				v, n, ok := p14num(r)
				in[f.key] = v
				want[f.key] = n
				if !ok {
					bad = true
				}
			}
		}
		dist, skip := "cosine", false
		if r.Intn(3) == 0 {
			dist = []string{"l2-squared", "dot", "manhattan"}[r.Intn(3)]
			in["distance"] = dist
		}
		if r.Intn(3) == 0 {
			skip = r.Intn(2) == 0
			in["skip"] = skip
		}
		pq := PQConfig{Centroids: 256, Encoder: PQEncoder{Type: "kmeans", Distribution: "log-normal"}}
		if r.Intn(3) == 0 {
			m := map[string]any{}
			if r.Intn(2) == 0 {
				pq.Enabled = true
				m["enabled"] = true
			}
			if r.Intn(2) == 0 {
				pq.BitCompression = true
				m["bitCompression"] = true
			}
			if r.Intn(2) == 0 {
				pq.Segments = r.Intn(500)
				m["segments"] = float64(pq.Segments)
			}
			if r.Intn(2) == 0 {
				pq.Centroids = r.Intn(500)
				m["centroids"] = json.Number(strconv.Itoa(pq.Centroids))
			}
			if r.Intn(2) == 0 {
				e := map[string]any{}
				if r.Intn(2) == 0 {
					pq.Encoder.Type = []string{"tile", "kmeans", "nonsense"}[r.Intn(3)]
					e["type"] = pq.Encoder.Type
					bad = bad || pq.Encoder.Type == "nonsense"
				}
				if r.Intn(2) == 0 {
					pq.Encoder.Distribution = []string{"normal", "log-normal", "nonsense"}[r.Intn(3)]
					e["distribution"] = pq.Encoder.Distribution
					bad = bad || pq.Encoder.Distribution == "nonsense"
				}
				m["encoder"] = e
			}
			in["pq"] = m
		}
		h.eval(in, len(in) > 0)
		var got UserConfig
		var err error
		if !h.try("parse", in, func() {
			c, e := ParseAndValidateConfig(in)
			got, _ = c.(UserConfig)
			err = e
		}) {
			return
		}
		bad = bad || want["maxConnections"] < 4 || want["efConstruction"] < 4
		if (err != nil) != bad {
			h.fail("config accepted", in, "must be refused: %v, error %v", bad, err)
			continue
		}
		if bad {
			continue
		}
		for _, f := range p14ints {
			if f.get(got) != want[f.key] {
				h.fail("config value "+f.key, in, "%s is %d, want %d", f.key, f.get(got), want[f.key])
			}
		}
		if got.Distance != dist || got.Skip != skip || got.PQ != pq {
			h.fail("config value", in, "distance %q skip %v pq %+v, want %q %v %+v", got.Distance, got.Skip, got.PQ, dist, skip, pq)
		}
		if got.IndexType() != "hnsw" {
			h.fail("index type", in, "%s", got.IndexType())
		}
		// stored and read back, as plain values and as json.Number
		b, err := json.Marshal(got)
		if err != nil {
			h.fail("marshal", in, "%v", err)
			continue
		}
		for _, useNumber := range []bool{false, true} {
			var again map[string]any
			d := json.NewDecoder(strings.NewReader(string(b)))
			if useNumber {
				d.UseNumber()
			}
			if err := d.Decode(&again); err != nil {
				h.fail("decode", in, "%v", err)
				continue
			}
			c, err := ParseAndValidateConfig(again)
			if err != nil || c.(UserConfig) != got {
				h.fail("config round trip", in, "%s read back as %+v, %v", b, c, err)
			}
		}
	}
	for _, in := range []any{3, "x", []any{}, map[string]any(nil), map[string]int{"ef": 3}} {
		h.eval(fmt.Sprintf("%T", in), true)
		if _, err := ParseAndValidateConfig(in); err == nil {
			h.fail("config kind", fmt.Sprintf("%T", in), "input that is not a map is accepted")
		}
	}
}

func p14ef(k int, c ent.UserConfig) int {
	ef := c.EF
	if ef < 1 {
		ef = k * c.DynamicEFFactor
		if ef > c.DynamicEFMax {
			ef = c.DynamicEFMax
		} else if ef < c.DynamicEFMin {
			ef = c.DynamicEFMin
		}
	}
	if ef < k {
		ef = k
	}
	return ef
}

func TestVerifConfigApplied(t *testing.T) {
	h := vstart(t, "random user configurations given to new indexes and to running ones; settings of the index and the ef of searches with k from 0 to 2000 compared with the configuration")
	for i := 0; i < h.n(60) && h.more(); i++ {
		r := h.rng
		uc := NewDefaultUserConfig()
		uc.MaxConnections, uc.EFConstruction = 4+r.Intn(60), 4+r.Intn(200)
		pick := func() ent.UserConfig {
			return ent.UserConfig{MaxConnections: uc.MaxConnections, EFConstruction: uc.EFConstruction, CleanupIntervalSeconds: uc.CleanupIntervalSeconds,
				EF: []int{-1, 0, 1, 10, 900}[r.Intn(5)], DynamicEFFactor: r.Intn(12), DynamicEFMin: r.Intn(300), DynamicEFMax: r.Intn(700), FlatSearchCutoff: r.Intn(5000), VectorCacheMaxObjects: 1000 + r.Intn(1000)}
		}
		cur := pick()
		uc.EF, uc.DynamicEFFactor, uc.DynamicEFMin, uc.DynamicEFMax, uc.FlatSearchCutoff = cur.EF, cur.DynamicEFFactor, cur.DynamicEFMin, cur.DynamicEFMax, cur.FlatSearchCutoff
		h.eval(uc, true)
		h.try("apply", uc, func() {
			ix := newIdx(idxOpt{uc: uc})
			defer closeIdx(ix)
			if ix.maximumConnections != uc.MaxConnections || ix.maximumConnectionsLayerZero != 2*uc.MaxConnections || ix.efConstruction != uc.EFConstruction {
				h.fail("graph settings", uc, "M %d M0 %d efConstruction %d", ix.maximumConnections, ix.maximumConnectionsLayerZero, ix.efConstruction)
			}
			for round := 0; round < 3; round++ {
				for _, k := range []int{0, 1, 10, 50, r.Intn(2000)} {
					if got, want := ix.searchTimeEF(k), p14ef(k, cur); got != want {
						h.fail("search ef", cur, "k %d: ef %d, want %d", k, got, want)
					}
				}
				if ix.flatSearchCutoff != int64(cur.FlatSearchCutoff) {
					h.fail("flat search cutoff", cur, "%d", ix.flatSearchCutoff)
				}
				cur = pick()
				calls := 0
				if err := ix.UpdateUserConfig(cur, func() { calls++ }); err != nil || calls != 1 {
					h.fail("update", cur, "error %v, callback called %d times", err, calls)
				}
			}
			calls := 0
			if err := ix.UpdateUserConfig(nil, func() { calls++ }); err == nil || calls != 1 {
				h.fail("update kind", nil, "error %v, callback called %d times", err, calls)
			}
			// graph settings cannot be changed afterwards
			for _, f := range []func(*ent.UserConfig){func(c *ent.UserConfig) { c.EFConstruction++ }, func(c *ent.UserConfig) { c.MaxConnections-- }, func(c *ent.UserConfig) { c.CleanupIntervalSeconds *= 2 }} {
				next := cur
				f(&next)
				if err := ValidateUserConfigUpdate(cur, next); err == nil {
					h.fail("immutable setting", []any{cur, next}, "change accepted")
				}
			}
			next := pick()
			if err := ValidateUserConfigUpdate(cur, next); err != nil {
				h.fail("mutable setting", []any{cur, next}, "change refused: %v", err)
			}
		})
	}
}
