package distancer

import (
	"math"
	"testing"
)

// float64 reference definitions
func refDist(name string, a, b []float32) float64 {
	s := 0.0
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		switch name {
		case "cosine", "dot":
			s += x * y
		case "l2":
			s += (x - y) * (x - y)
		case "manhattan":
			s += math.Abs(x - y)
		case "hamming":
			if a[i] != b[i] {
				s++
			}
		}
	}
	switch name {
	case "cosine":
		return 1 - s
	case "dot":
		return -s
	}
	return s
}

func magn(name string, a, b []float32) float64 {
	s := 1.0
	for i := range a {
		x, y := math.Abs(float64(a[i])), math.Abs(float64(b[i]))
		switch name {
		case "cosine", "dot":
			s += x * y
		case "l2":
			s += (x + y) * (x + y)
		default:
			s += x + y
		}
	}
	return s
}

type dist interface {
	SingleDist(a, b []float32) (float32, bool, error)
	Step(a, b []float32) float32
	Wrap(x float32) float32
}

func TestVerifDistances(t *testing.T) {
	h := vstart(t, "random and special float vectors, every length 0..70 plus 128, 300, 1536 with sub-slice offsets 0..3, five metrics; float64 reference within rounding; mismatched lengths 0..70 x 0..70")
	ps := map[string]dist{"cosine": NewCosineDistanceProvider(), "dot": NewDotProductProvider(), "l2": NewL2SquaredProvider(), "manhattan": NewManhattanProvider(), "hamming": NewHammingProvider()}
	nd := func(name string, a, b []float32) (float32, bool, error) {
		switch name {
		case "cosine":
			return NewCosineDistanceProvider().New(a).Distance(b)
		case "dot":
			return NewDotProductProvider().New(a).Distance(b)
		case "l2":
			return NewL2SquaredProvider().New(a).Distance(b)
		case "manhattan":
			return NewManhattanProvider().New(a).Distance(b)
		}
		return NewHammingProvider().New(a).Distance(b)
	}
	modes := 5
	gen := func(n int) []float32 {
		off := h.rng.Intn(4)
		v := make([]float32, n+off+3)
		mode := h.rng.Intn(modes)
		scale := float32(math.Pow(10, float64(h.rng.Intn(22)-10)))
		for i := range v {
			switch mode {
			case 0:
				v[i] = h.rng.Float32()*2 - 1
			case 1:
				v[i] = float32(h.rng.Intn(3) - 1)
			case 2:
				v[i] = (h.rng.Float32() - 0.5) * 1000
			case 3:
				v[i] = float32(h.rng.Intn(2))
			case 4:
				v[i] = (h.rng.Float32() - 0.5) * scale
			case 5: // where only equality counts
				v[i] = []float32{float32(math.Inf(1)), float32(math.Inf(-1)), 0, 1, math.MaxFloat32, math.SmallestNonzeroFloat32}[h.rng.Intn(6)]
			}
		}
		return v[off : off+n]
	}
	lens := []int{}
	for n := 0; n <= 70; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 128, 300, 1536)
	for name, p := range ps {
		modes = 5
		if name == "hamming" {
			modes = 6
		}
		for rep := 0; rep < h.n(6) && h.more(); rep++ {
			for _, n := range lens {
				a, b := gen(n), gen(n)
				if n > 0 && rep%3 == 0 { // equal except in one place
					copy(b, a)
					b[h.rng.Intn(n)] = 0.25
				}
				in := map[string]any{"metric": name, "a": a, "b": b}
				h.eval(in, n > 0)
				h.try("dist-"+name, in, func() {
					want := refDist(name, a, b)
					tol := magn(name, a, b) * 1e-5
					if name == "hamming" {
						tol = 0
					}
					d1, ok, err := p.SingleDist(a, b)
					if err != nil || !ok {
						h.fail("dist-rejected-"+name, in, "SingleDist of equal lengths %d: ok=%v err=%v", n, ok, err)
						return
					}
					d2, ok, err := nd(name, a, b)
					if err != nil || !ok {
						h.fail("dist-rejected-"+name, in, "Distance of equal lengths %d: ok=%v err=%v", n, ok, err)
						return
					}
					d3 := p.Wrap(p.Step(a, b))
					for k, d := range []float32{d1, d2, d3} {
						if math.Abs(float64(d)-want) > tol || math.IsNaN(float64(d)) {
							h.fail("dist-value-"+name, in, "%s length %d via %s: %v, want %v", name, n, []string{"SingleDist", "Distance", "Wrap(Step)"}[k], d, want)
							return
						}
					}
				})
			}
		}
		for n := 0; n <= 70; n++ {
			for m := 0; m <= 70; m++ {
				if n == m {
					continue
				}
				a, b := gen(n), gen(m)
				in := map[string]any{"metric": name, "lenA": n, "lenB": m}
				h.eval(in, true)
				h.try("dist-mismatch-"+name, in, func() {
					if _, ok, err := p.SingleDist(a, b); err == nil || ok {
						h.fail("dist-mismatch-"+name, in, "SingleDist of lengths %d,%d: ok=%v err=%v", n, m, ok, err)
					}
					if _, ok, err := nd(name, a, b); err == nil || ok {
						h.fail("dist-mismatch-"+name, in, "Distance of lengths %d,%d: ok=%v err=%v", n, m, ok, err)
					}
				})
			}
		}
	}
}

func TestVerifGeo(t *testing.T) {
	h := vstart(t, "latitude/longitude grid of 15 degrees and random pairs against a float64 haversine; wrong dimensions 0..4")
	hav := func(a, b []float32) float64 {
		const R = 6371e3
		r := math.Pi / 180
		la1, la2 := float64(a[0])*r, float64(b[0])*r
		dla, dlo := float64(b[0]-a[0])*r, float64(b[1]-a[1])*r
		x := math.Sin(dla/2)*math.Sin(dla/2) + math.Cos(la1)*math.Cos(la2)*math.Sin(dlo/2)*math.Sin(dlo/2)
		if x > 1 {
			x = 1
		}
		return R * 2 * math.Atan2(math.Sqrt(x), math.Sqrt(1-x))
	}
	p := NewGeoProvider()
	one := func(a, b []float32) {
		in := map[string]any{"a": a, "b": b}
		h.eval(in, true)
		h.try("geo", in, func() {
			want := hav(a, b)
			d1, ok, err := p.SingleDist(a, b)
			if err != nil || !ok {
				h.fail("geo-rejected", in, "ok=%v err=%v", ok, err)
				return
			}
			d2, _, _ := p.New(a).Distance(b)
			if math.Abs(float64(d1)-want) > 5+want*1e-3 || d1 != d2 {
				h.fail("geo-value", in, "got %v / %v, want %v", d1, d2, want)
			}
		})
	}
	for la := -90; la <= 90; la += 15 {
		for lb := -90; lb <= 90; lb += 15 {
			for lo := -180; lo <= 165; lo += 15 {
				one([]float32{float32(la), 10}, []float32{float32(lb), float32(lo)})
			}
		}
	}
	for i := 0; i < h.n(2000) && h.more(); i++ {
		one([]float32{h.rng.Float32()*180 - 90, h.rng.Float32()*360 - 180}, []float32{h.rng.Float32()*180 - 90, h.rng.Float32()*360 - 180})
	}
	for n := 0; n < 5; n++ {
		for m := 0; m < 5; m++ {
			if n == 2 && m == 2 {
				continue
			}
			in := map[string]any{"lenA": n, "lenB": m}
			h.eval(in, true)
			h.try("geo-mismatch", in, func() {
				if _, ok, err := p.SingleDist(make([]float32, n), make([]float32, m)); ok || err == nil {
					h.fail("geo-mismatch", in, "ok=%v err=%v", ok, err)
				}
			})
		}
	}
}
