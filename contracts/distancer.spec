package distancer

// mathematical definitions, in the evaluation order of the portable code
fold dot(a, b) Real = 0 ; acc + a * b
fold l2sq(a, b) Real = 0 ; acc + (a - b) * (a - b)
fold manh(a, b) Real = 0 ; acc + abs(a - b)
fold hamm(a, b) Real = 0 ; if a != b then acc + 1.0 else acc
fold sumsq(a) Real = 0 ; acc + a * a

pkginv <i int, s float32, x ~[]float32, y ~[]float32> s == dot(x, y, i)
pkginv <i int, s float32, x ~[]float32, y ~[]float32> s == l2sq(x, y, i)
pkginv <i int, s float32, x ~[]float32, y ~[]float32> s == manh(x, y, i)
pkginv <i int, s float32, x ~[]float32, y ~[]float32> s == hamm(x, y, i)

// the (possibly hardware accelerated) kernels
func dotProductImplementation(a, b) (r)
  requires len(a) == len(b)
  ensures [dot P03] r == dot(a, b, len(a))
  nopanic
func l2SquaredImpl(a, b) (r)
  requires len(a) == len(b)
  ensures [l2 P03] r == l2sq(a, b, len(a))
  nopanic
func manhattanImpl(a, b) (r)
  requires len(a) == len(b)
  ensures [manhattan P03] r == manh(a, b, len(a))
  nopanic
func hammingImpl(a, b) (r)
  requires len(a) == len(b)
  ensures [hamming P03] r == hamm(a, b, len(a))
  nopanic

func DotProductGo(a, b) (r)
  requires len(a) == len(b)
  ensures [dot P03] r == -dot(a, b, len(a))
  nopanic

func CosineDistance.Distance(d, b) (r, ok, err)
  ensures [mismatch P03] len(d.a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(d.a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == (1.0 - dot(d.a, b, len(b)))
  nopanic
func CosineDistanceProvider.SingleDist(p, a, b) (r, ok, err)
  ensures [mismatch P03] len(a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == (1.0 - dot(a, b, len(b)))
  nopanic
func CosineDistanceProvider.Step(p, x, y) (r)
  requires len(x) == len(y)
  ensures [step P03] r == dot(x, y, len(x))
  nopanic
func CosineDistanceProvider.Wrap(p, x) (r)
  ensures [wrap P03] r == 1.0 - x
  nopanic
func CosineDistanceProvider.New(p, a) (r)
  ensures [keeps P03] isType(r, "*CosineDistance") && unbox(r, "*CosineDistance").a == a
  nopanic

func DotProduct.Distance(d, b) (r, ok, err)
  ensures [mismatch P03] len(d.a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(d.a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == -dot(d.a, b, len(b))
  nopanic
func DotProductProvider.SingleDist(p, a, b) (r, ok, err)
  ensures [mismatch P03] len(a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == -dot(a, b, len(b))
  nopanic
func DotProductProvider.Step(p, x, y) (r)
  requires len(x) == len(y)
  ensures [step P03] r == dot(x, y, len(x))
  nopanic
func DotProductProvider.Wrap(p, x) (r)
  ensures [wrap P03] r == -x
  nopanic
func DotProductProvider.New(p, a) (r)
  ensures [keeps P03] isType(r, "*DotProduct") && unbox(r, "*DotProduct").a == a
  nopanic

func L2Squared.Distance(d, b) (r, ok, err)
  ensures [mismatch P03] len(d.a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(d.a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == l2sq(d.a, b, len(b))
  nopanic
func L2SquaredProvider.SingleDist(p, a, b) (r, ok, err)
  ensures [mismatch P03] len(a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == l2sq(a, b, len(b))
  nopanic
func L2SquaredProvider.Step(p, x, y) (r)
  requires len(x) == len(y)
  ensures [step P03] r == l2sq(x, y, len(x))
  nopanic
func L2SquaredProvider.Wrap(p, x) (r)
  ensures [wrap P03] r == x
  nopanic
func L2SquaredProvider.New(p, a) (r)
  ensures [keeps P03] isType(r, "*L2Squared") && unbox(r, "*L2Squared").a == a
  nopanic

func Manhattan.Distance(d, b) (r, ok, err)
  ensures [mismatch P03] len(d.a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(d.a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == manh(d.a, b, len(b))
  nopanic
func ManhattanProvider.SingleDist(p, a, b) (r, ok, err)
  ensures [mismatch P03] len(a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == manh(a, b, len(b))
  nopanic
func ManhattanProvider.Step(p, x, y) (r)
  requires len(x) == len(y)
  ensures [step P03] r == manh(x, y, len(x))
  nopanic
func ManhattanProvider.Wrap(p, x) (r)
  ensures [wrap P03] r == x
  nopanic
func ManhattanProvider.New(p, a) (r)
  ensures [keeps P03] isType(r, "*Manhattan") && unbox(r, "*Manhattan").a == a
  nopanic

func Hamming.Distance(d, b) (r, ok, err)
  ensures [mismatch P03] len(d.a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(d.a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == hamm(d.a, b, len(b))
  nopanic
func HammingProvider.SingleDist(p, a, b) (r, ok, err)
  ensures [mismatch P03] len(a) != len(b) ==> err != nil && !ok
  ensures [match P03] len(a) == len(b) ==> err == nil && ok
  ensures [value P03] err == nil ==> r == hamm(a, b, len(b))
  nopanic
func HammingProvider.Step(p, x, y) (r)
  requires len(x) == len(y)
  ensures [step P03] r == hamm(x, y, len(x))
  nopanic
func HammingProvider.Wrap(p, x) (r)
  ensures [wrap P03] r == x
  nopanic
func HammingProvider.New(p, a) (r)
  ensures [keeps P03] isType(r, "*Hamming") && unbox(r, "*Hamming").a == a
  nopanic

func geoDist(a, b) (r, ok, err)
  ensures [mismatch P03] (len(a) != 2 || len(b) != 2) ==> err != nil && !ok
  ensures [match P03] len(a) == 2 && len(b) == 2 ==> err == nil && ok
  nopanic
// normSeq names the result as a function of the components (the body is deterministic)
ufun normSeq(Int) Int
func Normalize(v) (out)
  assumes [det] seq(out) == normSeq(old(seq(v)))
  inv <i int, s float32> s == sumsq(v, i)
  inv <i int, o ~[]float32> forall k int :: {o[k]} 0 <= k < i ==> o[k] == v[k] / float32(m_Sqrt(float64(sumsq(v, len(v)))))
  inv <i int, o ~[]float32> forall k int :: {o[k]} i <= k < len(o) ==> o[k] == 0.0
  ensures [len P04] len(out) == len(v)
  ensures [fresh P04] fresh(out) || len(v) == 0
  ensures [zero P04] sumsq(v, len(v)) == 0 ==> (forall k int :: {out[k]} 0 <= k < len(out) ==> out[k] == 0.0)
  ensures [unit P04] sumsq(v, len(v)) != 0 ==> (forall k int :: {out[k]} 0 <= k < len(out) ==> out[k] == v[k] / float32(m_Sqrt(float64(sumsq(v, len(v))))))
  nopanic
