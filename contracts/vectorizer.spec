package vectorizer

fold sqdiff(a, b) Real = 0 ; acc + (a - b) * (a - b)
func NewVector(vec) (r)
  ensures [holds P16] r.vector == vec
  nopanic
func Vector.Equal(v, o) (r, err)
  requires v != nil && o != nil
  inv <i int> forall k int :: {v.vector[k]} {o.vector[k]} 0 <= k <= i && k < len(v.vector) ==> o.vector[k] == v.vector[k]
  ensures [dims P16] err == nil <==> len(v.vector) == len(o.vector)
  ensures [equal P16] r <==> len(v.vector) == len(o.vector) && (forall k int :: {v.vector[k]} {o.vector[k]} 0 <= k < len(v.vector) ==> v.vector[k] == o.vector[k])
  nopanic
func Vector.Len(v) (n)
  requires v != nil
  ensures [len P16] n == len(v.vector)
  nopanic
func Vector.ToArray(v) (r)
  requires v != nil
  ensures [copy P16] len(r) == len(v.vector) && (forall k int :: {r[k]} 0 <= k < len(r) ==> r[k] == v.vector[k])
  ensures [fresh P16] len(r) > 0 ==> fresh(r)
  nopanic
func Vector.Distance(v, o) (r, err)
  requires v != nil && o != nil
  inv <i int> i <= len(v.vector)
  inv <i int, s float32> s == sqdiff(v.vector, o.vector, i)
  inv <i int, s float32> s == sqdiff(v.vector, o.vector, i + 1)
  ensures [dims P16] err == nil <==> len(v.vector) == len(o.vector)
  ensures [value P16] err == nil ==> r == float32(m_Sqrt(float64(sqdiff(v.vector, o.vector, len(v.vector)))))
  nopanic
