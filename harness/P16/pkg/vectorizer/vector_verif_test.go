package vectorizer

import (
	"math"
	"testing"
)

func TestVerifVector(t *testing.T) {
	h := vstart(t, "random pairs of vectors of 0 to 40 components, equal, differing in one component or of different length")
	for i := 0; i < h.n(3000) && h.more(); i++ {
		r := h.rng
		n, m := r.Intn(41), r.Intn(41)
		if r.Intn(4) > 0 {
			m = n
		}
		a, b := make([]float32, n), make([]float32, m)
		for j := range a {
			a[j] = float32(r.NormFloat64()) * float32(math.Pow(10, float64(r.Intn(7)-3)))
			if r.Intn(8) == 0 {
				a[j] = 0
			}
		}
		for j := range b {
			b[j] = float32(r.NormFloat64())
		}
		if r.Intn(2) == 0 {
			copy(b, a)
			if m > 0 && r.Intn(2) == 0 {
				b[r.Intn(m)] += 0.5
			}
		}
		if n > 0 && n == m && r.Intn(10) == 0 { // zero has two forms, both equal
			j := r.Intn(n)
			a[j], b[j] = 0, float32(math.Copysign(0, -1))
		}
		in := map[string]any{"a": a, "b": b}
		h.eval(in, n > 0 && n == m)
		h.try("vector", in, func() {
			va, vb := NewVector(append([]float32{}, a...)), NewVector(append([]float32{}, b...))
			if va.Len() != n {
				h.fail("len", in, "Len %d, want %d", va.Len(), n)
			}
			same, sum := n == m, 0.0
			for j := 0; same && j < n; j++ {
				same = a[j] == b[j]
			}
			for j := 0; n == m && j < n; j++ {
				d := float64(a[j]) - float64(b[j])
				sum += d * d
			}
			eq, err := va.Equal(&vb)
			if (err != nil) != (n != m) || eq != same {
				h.fail("equal", in, "Equal = %v, %v", eq, err)
			}
			d, err := va.Distance(&vb)
			if (err != nil) != (n != m) {
				h.fail("distance-error", in, "Distance error %v", err)
			}
			if want := math.Sqrt(sum); err == nil && math.Abs(float64(d)-want) > 1e-4*(1+want) {
				h.fail("distance", in, "Distance = %v, want %v", d, want)
			}
			c := va.ToArray()
			if len(c) != n {
				h.fail("array", in, "ToArray has %d components", len(c))
				return
			}
			for j := range c {
				if c[j] != a[j] {
					h.fail("array", in, "component %d is %v, want %v", j, c[j], a[j])
				}
				c[j] = -77
			}
			for j, x := range va.ToArray() {
				if x != a[j] {
					h.fail("shared", in, "writing to the result of ToArray changed the vector")
				}
			}
		})
	}
}
