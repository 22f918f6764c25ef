package distancer

import (
	"math"
	"testing"
)

func TestVerifNormalize(t *testing.T) {
	h := vstart(t, "random vectors of length 0..64, 300, 1536, zero vectors, sparse vectors, magnitudes 1e-12..1e15; unit length, direction kept, input untouched")
	for i := 0; i < h.n(4000) && h.more(); i++ {
		n := h.rng.Intn(65)
		if i%50 == 0 {
			n = []int{300, 1536}[h.rng.Intn(2)]
		}
		v := make([]float32, n)
		mode := h.rng.Intn(4)
		scale := float32(math.Pow(10, float64(h.rng.Intn(28)-12)))
		for k := range v {
			switch mode {
			case 0:
				v[k] = (h.rng.Float32()*2 - 1) * scale
			case 1:
				if h.rng.Intn(6) == 0 {
					v[k] = (h.rng.Float32()*2 - 1) * scale
				}
			case 2:
				v[k] = 0
			case 3:
				v[k] = float32(h.rng.Intn(3)-1) * scale
			}
		}
		in := map[string]any{"v": append([]float32{}, v...)}
		orig := append([]float32{}, v...)
		h.eval(in, n > 0)
		h.try("normalize", in, func() {
			out := Normalize(v)
			if len(out) != n {
				h.fail("normalize-len", in, "length %d, want %d", len(out), n)
				return
			}
			sum := 0.0
			for k := range v {
				if v[k] != orig[k] {
					h.fail("normalize-input", in, "input changed at %d", k)
					return
				}
				sum += float64(v[k]) * float64(v[k])
			}
			norm := math.Sqrt(sum)
			for k := range v {
				want := 0.0
				if norm > 0 {
					want = float64(v[k]) / norm
				}
				if math.IsNaN(float64(out[k])) || math.Abs(float64(out[k])-want) > 1e-4 {
					h.fail("normalize-value", in, "component %d is %v, want %v", k, out[k], want)
					return
				}
			}
			if n > 0 {
				out[0] = 77
				if v[0] == 77 {
					h.fail("normalize-alias", in, "result shares storage with the input")
				}
			}
		})
	}
}
