"""The properties: the functions whose contracts state them, the lemmas, and the harness that replays the contracts."""


class Prop:
    """funcs/lemmas are proved (with the closure of the contracts they use); harness is the package of /verif/harness that
    runs the same contracts on concrete inputs; bounded says what is decided by the harness only"""

    def __init__(self, funcs, harness, lemmas=(), note='', bounded='', race=False, secs=10, technique=''):
        self.funcs, self.harness, self.lemmas, self.note = list(funcs), harness, list(lemmas), note
        self.bounded, self.race, self.secs = bounded, race, secs
        self.level = 'exploration' if bounded else 'proof'


ALL = 'the whole property'
PROPS = {
    'C01': Prop(['gkr.Verifier.Verify', 'sumcheck.Verifier.Verify', 'circuit.EvaluateCombinator'], 'c_gkr', secs=30),
    'C02': Prop(['gkr.Verifier.Verify', 'gkr.Verifier.hasExpectedShape'], 'c_gkr', secs=30),
    'C03': Prop(['sumcheck.Verifier.Verify', 'common.GetChallenge', 'polynomial.EvaluatePolynomial', 'hash.MimcHash'], 'c_sumcheck', secs=20),
    'C04': Prop(['gkr.Prover.GetBookKeepingTablesForInitialRound', 'gkr.Prover.GetBookKeepingTablesForIntermediateRound', 'gkr.GetInitialQPrimeAndQ'], 'c_gkr',
                bounded='the rounds (gkr.Prover.Prove and the sumcheck provers) and that the verifier accepts them', secs=40),
    'C05': Prop(['sumcheck.NewSingleThreadedProver', 'sumcheck.SingleThreadedProver.FoldHPrime'], 'c_sumcheck', bounded='the partial sums, and the folding of the wiring tables', secs=30),
    'C06': Prop(['sumcheck.NewMultiThreadedProver'], 'c_sumcheck', bounded='everything but the degrees of the round polynomials', secs=40, race=True),
    'C07': Prop(['polynomial.BookKeepingTable.Evaluate', 'polynomial.BookKeepingTable.Fold', 'polynomial.BookKeepingTable.EvaluateLeftAndRight',
                 'polynomial.BookKeepingTable.DeepCopy', 'polynomial.BookKeepingTable.FunctionEvals', 'polynomial.LinearCombinationOfBookKeepingTables',
                 'polynomial.BookKeepingTable.Add', 'polynomial.BookKeepingTable.Sub', 'polynomial.BookKeepingTable.Mul'], 'c_poly'),
    'C08': Prop(['polynomial.EvalEq', 'polynomial.GetFoldedEqTable', 'polynomial.GetChunkedEqTable'], 'c_poly', lemmas=['chunk_order'], secs=20),
    'C09': Prop(['polynomial.EvaluateChunked', 'polynomial.EvaluateMixedChunked', 'polynomial.chunkedEvalRecombine', 'polynomial.AsChunkedBookKeepingTable'],
                'c_poly', lemmas=['chunk_order'], secs=20),
    'C10': Prop(['polynomial.EvaluatePolynomial', 'polynomial.InterpolateOnRange', 'polynomial.initLagrangePolynomials', 'polynomial.init#1'], 'c_poly',
                lemmas=['interpolation'], secs=20),
    'C11': Prop(['circuit.%s.%s' % (g, m) for g in ('AddGate', 'MulGate', 'CopyGate', 'CipherGate')
                 for m in ('ID', 'Eval', 'EvalManyVL', 'EvalManyVR', 'Degrees', 'GnarkEval')] + ['circuit.NewCipherGate'], 'c_circuit',
                lemmas=['gate_ids', 'gate_degrees'], secs=20, note='the decimal string of a field element determines it (fr.Element.String)'),
    'C12': Prop(['circuit.BGInputs', 'circuit.BGOutputs', 'circuit.Layer.Evaluate', 'circuit.Circuit.Assign'], 'c_circuit', secs=30, race=True),
    'C13': Prop(['circuit.BGInputs', 'circuit.BGOutputs', 'circuit.Layer.GetStaticTable'], 'c_circuit', bounded='the gate list (Gates)', secs=20),
    'C14': Prop(['hash.MimcHash', 'hash.MimcUpdateInplace', 'hash.MimcPermutationInPlace', 'hash.SBoxInplace', 'hash.initArk', 'hash.init#1'], 'c_hash',
                lemmas=['sbox_bijective'], secs=20),
    'C15': Prop(['hash.PoseidonHasher.Hash', 'hash.PoseidonHasher.Update', 'hash.GMimcHasher.Hash', 'hash.GMimcHasher.UpdateInplace', 'hash.GenerateMDSMatrix',
                 'hash.MatrixMultiplication', 'hash.InPlaceCircularPermutation', 'hash.newPoseidonHasher', 'hash.initPoseidon', 'hash.initGMimc', 'hash.init#1'], 'c_hash',
                lemmas=['cauchy_minors'], secs=20),
    'C16': Prop(['snark/hash.MimcHash', 'hash.MimcHash'], 'c_snark', secs=20),
    'C17': Prop(['snark/polynomial.UnivariateEqEval', 'snark/polynomial.EqEval', 'snark/polynomial.MultilinearByValues.Eval', 'snark/polynomial.MultilinearByValues.EvalMixed',
                 'snark/polynomial.MultilinearByValues.Assign', 'snark/polynomial.MultilinearByValues.AssignFromChunkedBKT', 'snark/polynomial.AllocateMultilinear',
                 'snark/polynomial.Univariate.Assign', 'snark/polynomial.AllocateUnivariate', 'snark/polynomial.Univariate.Eval', 'snark/polynomial.Univariate.ZeroAndOne',
                 'polynomial.EvalEq', 'polynomial.BookKeepingTable.Evaluate', 'polynomial.BookKeepingTable.EvaluateLeftAndRight', 'polynomial.EvaluatePolynomial'],
                'c_snark', lemmas=['chunk_order', 'gadget_polynomials'], secs=20),
    'C18': Prop(['snark/sumcheck.Proof.AssertValid', 'snark/sumcheck.Proof.Assign', 'snark/sumcheck.AllocateProof', 'sumcheck.Verifier.Verify'], 'c_snark', lemmas=['gadget_sumcheck'],
                secs=20),
    'C19': Prop(['snark/sumcheck.Proof.AssertValid', 'snark/sumcheck.Proof.Assign', 'snark/hash.MimcHash', 'snark/polynomial.EqEval', 'snark/polynomial.MultilinearByValues.Eval',
                 'snark/polynomial.MultilinearByValues.EvalMixed'], 'c_snark', bounded='the composition of the gadgets over the layers (package snark/gkr)', secs=30),
    'C20': Prop(['gkr.Verifier.Verify', 'circuit.Assignment.LayerAsBKTNoCopy', 'circuit.Assignment.LayerAsBKTWithCopy', 'polynomial.BookKeepingTable.DeepCopy',
                 'polynomial.BookKeepingTable.Evaluate', 'gkr.Prover.GetBookKeepingTablesForInitialRound', 'gkr.Prover.GetBookKeepingTablesForIntermediateRound'], 'c_gkr',
                bounded='the rounds of the GKR prover (gkr.Prover.Prove and the sumcheck provers it starts)', secs=30, race=True),
    'C21': Prop(['common.IntoChunkRanges', 'polynomial.BookKeepingTable.Sub', 'polynomial.BookKeepingTable.Mul',
                 'circuit.Layer.Evaluate', 'circuit.Assignment.LayerAsBKTWithCopy'], 'c_par', secs=25, race=True),
    'C22': Prop(['gkr.GetInitialQPrimeAndQ', 'gkr.Verifier.Verify'], 'c_gkr', lemmas=['output_weights'], secs=20),
    'C23': Prop(['circuit.Circuit.Assign', 'circuit.Layer.Evaluate', 'hash.MimcPermutationInPlace'], 'c_circuit', bounded='the wiring of the circuit (CreateMimcCircuit, NewCircuit)', secs=20),
    'C24': Prop(['common.Log2Floor', 'common.Log2Ceil', 'common.Min', 'common.Max'], 'c_common'),
}
NOT_APPLICABLE = {}
