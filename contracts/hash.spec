# package hash

define sbox(x) = x ** 7
define arks() = globalvar("hash.Arks")
define mimc_perm(s, k) = iter(i, 91, x, s, sbox(x + k + arks()[i]))
define mimc_hash(m, n) = iter(j, n, y, F(0), mimc_perm(y, m[j]) + y + m[j])

invariant hash.Arks by hash.initArk: len(globalvar("hash.Arks")) == 100
invariant hash.xArr by hash.initArk: len(globalvar("hash.xArr")) == 100
invariant hash.yArr by hash.initArk: len(globalvar("hash.yArr")) == 100

func hash.initArk()
    opt unroll_now=100
    opt unroll=102
    modifies globalvar("hash.Arks"), globalvar("hash.xArr"), globalvar("hash.yArr")
    ensures all(i, 100, globalvar("hash.Arks")[i] == published("strArks", i))
    ensures all(i, 100, globalvar("hash.xArr")[i] == published("strXArr", i))
    ensures all(i, 100, globalvar("hash.yArr")[i] == published("strYArr", i))

func hash.SBoxInplace(x)
    modifies deref(x)
    ensures deref(x) == sbox(old(deref(x)))

func hash.MimcPermutationInPlace(state, block)
    opt opaque=sbox
    modifies deref(state)
    ensures deref(state) == mimc_perm(old(deref(state)), block)

func hash.MimcUpdateInplace(state, block)
    opt opaque=sbox
    modifies deref(state)
    ensures deref(state) == mimc_perm(old(deref(state)), block) + old(deref(state)) + block

func hash.MimcHash(input) (r)
    opt opaque=sbox
    ensures r == mimc_hash(input, len(input))

func snark/hash.MimcHash(cs, stream) (r)
    ensures r == mimc_hash(stream, len(stream))

func hash.FullRoundInPlace(state)
    opt opaque=sbox
    modifies state[:]
    ensures forall(k, len(state), state[k] == sbox(old(state[k])))

func hash.PartialRoundInplace(state)
    opt opaque=sbox
    requires len(state) >= 1
    modifies state[:]
    ensures forall(k, len(state), state[k] == (sbox(old(state[k])) if k == 0 else old(state[k])))

func hash.AddArkAndKeysInplace(state, keys, ark)
    requires len(keys) >= len(state)
    modifies state[:]
    ensures forall(k, len(state), state[k] == old(state[k]) + keys[k] + ark)

func hash.MatrixMultiplication(mat, vec) (r)
    requires forall(i, len(mat), len(mat[i]) <= len(vec))
    ensures len(r) == len(mat)
    ensures forall(i, len(mat), r[i] == sum(j, len(mat[i]), mat[i][j] * vec[j]))
    fresh r

func hash.InPlaceCircularPermutation(state)
    modifies state[:]
    ensures forall(k, len(state), state[k] == (old(state[k + 1]) if k + 1 < len(state) else old(state[0])))

func hash.GenerateMDSMatrix(t) (r)
    requires 0 <= t and t <= 100
    ensures len(r) == t
    ensures forall(i, t, len(r[i]) == t)
    ensures forall(i, t, forall(j, t, r[i][j] == inv(globalvar("hash.xArr")[i] + globalvar("hash.yArr")[j])))
    fresh r

# the state after the rounds a .. a+n-1 of Poseidon
define pos_full(p, s, block, a, n) = aiter(i, n, k, A, s[k], sum(j, p.t, p.cauchy[k][j] * sbox(A[j] + block[j] + arks()[a + i])))
define pos_part(p, s, block, a, n) = aiter(i, n, k, A, s[k], sum(j, p.t, p.cauchy[k][j] * (sbox(A[j] + block[j] + arks()[a + i]) if j == 0 else A[j] + block[j] + arks()[a + i])))
define poseidon(p, s, block) = pos_full(p, pos_part(p, pos_full(p, s, block, 0, p.nRoundsF), block, p.nRoundsF, p.nRoundsP), block, p.nRoundsF + p.nRoundsP, p.nRoundsF)

func (*hash.PoseidonHasher).Update(p, state, block)
    opt opaque=sbox
    requires p.t >= 1 and p.nRoundsF >= 0 and p.nRoundsP >= 0 and 2 * p.nRoundsF + p.nRoundsP <= 100
    requires len(state) == p.t and len(block) == p.t
    requires len(p.cauchy) == p.t
    requires forall(i, p.t, len(p.cauchy[i]) == p.t)
    modifies state[:]
    ensures forall(k, p.t, state[k] == poseidon(p, old(seq(j, p.t, state[j])), block)[k] + old(state[k]) + block[k])

define gmimc(g, s, block) = aiter(i, g.nRounds, k, A, s[k], A[k + 1] + block[k + 1] + arks()[i] if k + 1 < g.t else sbox(A[0] + block[0] + arks()[i]))

func (*hash.GMimcHasher).UpdateInplace(g, state, block)
    opt opaque=sbox
    requires g.t >= 1 and g.nRounds >= 0 and g.nRounds <= 100
    requires len(state) == g.t and len(block) == g.t
    modifies state[:]
    ensures forall(k, g.t, state[k] == gmimc(g, old(seq(j, g.t, state[j])), block)[k] + old(state[k]) + block[k])

# block number b of a message, padded with zeroes
define pad(m, n, t, b) = seq(j, t, m[b * t + j] if b * t + j < n else F(0))

func (*hash.GMimcHasher).Hash(g, msg) (r)
    opt opaque=sbox
    requires g.t >= 1 and g.nRounds >= 0 and g.nRounds <= 100
    ensures r == aiter(b, (len(msg) + g.t - 1) // g.t, k, A, F(0), gmimc(g, A, pad(msg, len(msg), g.t, b))[k] + A[k] + pad(msg, len(msg), g.t, b)[k])[0]

func (*hash.PoseidonHasher).Hash(p, msg) (r)
    opt opaque=sbox
    requires p.t >= 1 and p.nRoundsF >= 0 and p.nRoundsP >= 0 and 2 * p.nRoundsF + p.nRoundsP <= 100
    requires len(p.cauchy) == p.t
    requires forall(i, p.t, len(p.cauchy[i]) == p.t)
    ensures r == aiter(b, (len(msg) + p.t - 1) // p.t, k, A, F(0), poseidon(p, A, pad(msg, len(msg), p.t, b))[k] + A[k] + pad(msg, len(msg), p.t, b)[k])[0]

func hash.newPoseidonHasher(t, nRoundsF, nRoundsP) (r)
    requires 0 <= t and t <= 100
    ensures r.t == t and r.nRoundsF == nRoundsF and r.nRoundsP == nRoundsP
    ensures len(r.cauchy) == t
    ensures forall(i, t, len(r.cauchy[i]) == t)
    ensures forall(i, t, forall(j, t, r.cauchy[i][j] == inv(globalvar("hash.xArr")[i] + globalvar("hash.yArr")[j])))
    fresh r.cauchy

func hash.initPoseidon()
    modifies globalvar("hash.PoseidonT2"), globalvar("hash.PoseidonT4"), globalvar("hash.PoseidonT8")
    ensures globalvar("hash.PoseidonT2").t == 2 and globalvar("hash.PoseidonT2").nRoundsF == 8 and globalvar("hash.PoseidonT2").nRoundsP == 82
    ensures globalvar("hash.PoseidonT4").t == 4 and globalvar("hash.PoseidonT4").nRoundsF == 8 and globalvar("hash.PoseidonT4").nRoundsP == 83
    ensures globalvar("hash.PoseidonT8").t == 8 and globalvar("hash.PoseidonT8").nRoundsF == 8 and globalvar("hash.PoseidonT8").nRoundsP == 84
    ensures len(globalvar("hash.PoseidonT2").cauchy) == 2 and all(i, 2, len(globalvar("hash.PoseidonT2").cauchy[i]) == 2)
    ensures len(globalvar("hash.PoseidonT4").cauchy) == 4 and all(i, 4, len(globalvar("hash.PoseidonT4").cauchy[i]) == 4)
    ensures len(globalvar("hash.PoseidonT8").cauchy) == 8 and all(i, 8, len(globalvar("hash.PoseidonT8").cauchy[i]) == 8)
    ensures all(i, 2, all(j, 2, globalvar("hash.PoseidonT2").cauchy[i][j] == inv(globalvar("hash.xArr")[i] + globalvar("hash.yArr")[j])))
    ensures all(i, 4, all(j, 4, globalvar("hash.PoseidonT4").cauchy[i][j] == inv(globalvar("hash.xArr")[i] + globalvar("hash.yArr")[j])))
    ensures all(i, 8, all(j, 8, globalvar("hash.PoseidonT8").cauchy[i][j] == inv(globalvar("hash.xArr")[i] + globalvar("hash.yArr")[j])))

func hash.initGMimc()
    modifies globalvar("hash.GMimcT2"), globalvar("hash.GMimcT4"), globalvar("hash.GMimcT8")
    ensures globalvar("hash.GMimcT2").t == 2 and globalvar("hash.GMimcT4").t == 4 and globalvar("hash.GMimcT8").t == 8
    ensures globalvar("hash.GMimcT2").nRounds == 91 and globalvar("hash.GMimcT4").nRounds == 91 and globalvar("hash.GMimcT8").nRounds == 91

# the package is ready for use: constants before the matrices that are built from them
func hash.init#1()
    modifies globalvar("hash.Arks"), globalvar("hash.xArr"), globalvar("hash.yArr")
    modifies globalvar("hash.PoseidonT2"), globalvar("hash.PoseidonT4"), globalvar("hash.PoseidonT8")
    modifies globalvar("hash.GMimcT2"), globalvar("hash.GMimcT4"), globalvar("hash.GMimcT8")
    ensures len(arks()) == 100 and all(i, 100, arks()[i] == published("strArks", i))
    ensures all(i, 2, all(j, 2, globalvar("hash.PoseidonT2").cauchy[i][j] == inv(published("strXArr", i) + published("strYArr", j))))
    ensures all(i, 4, all(j, 4, globalvar("hash.PoseidonT4").cauchy[i][j] == inv(published("strXArr", i) + published("strYArr", j))))
    ensures all(i, 8, all(j, 8, globalvar("hash.PoseidonT8").cauchy[i][j] == inv(published("strXArr", i) + published("strYArr", j))))
    ensures globalvar("hash.PoseidonT2").t == 2 and globalvar("hash.PoseidonT4").t == 4 and globalvar("hash.PoseidonT8").t == 8
    ensures globalvar("hash.GMimcT2").t == 2 and globalvar("hash.GMimcT4").t == 4 and globalvar("hash.GMimcT8").t == 8
