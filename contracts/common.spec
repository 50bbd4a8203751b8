# package common

func common.Min(a, b) (r)
    ensures r == min(a, b)

func common.Max(a, b) (r)
    ensures r == max(a, b)

func common.Log2Floor(a) (r)
    requires a >= 1
    ensures r >= 0
    ensures pow2(r) <= a and a < 2 * pow2(r)
    ensures r == lg2(a)

func common.Log2Ceil(a) (r)
    requires a >= 1
    ensures r >= 0
    ensures a <= pow2(r)
    ensures implies(r >= 1, pow2(r - 1) < a)
    ensures r == (lg2(a) if a == pow2(lg2(a)) else lg2(a) + 1)

func common.IntoChunkRanges(nCore, N) (r)
    opt spare=r
    requires nCore >= 1 and N >= 0
    let size = max(4096, N // nCore)
    ensures len(r) * size >= N and (len(r) - 1) * size < N
    ensures forall(i, len(r), r[i].Begin == i * size and r[i].End == min(N, (i + 1) * size))
    fresh r
