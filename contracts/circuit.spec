# package circuit

func (circuit.AddGate).ID(g) (r)
    ensures r == "AddGate"

func (circuit.AddGate).Eval(g, res, vL, vR)
    modifies deref(res)
    ensures deref(res) == old(deref(vL)) + old(deref(vR))

func (circuit.AddGate).EvalManyVL(g, res, vLs, vR)
    requires len(res) >= len(vLs)
    modifies res[:]
    ensures forall(i, len(vLs), res[i] == vLs[i] + deref(vR))
    ensures forall(i, len(res) - len(vLs), res[i + len(vLs)] == old(res[i + len(vLs)]))

func (circuit.AddGate).EvalManyVR(g, res, vL, vRs)
    requires len(res) >= len(vRs)
    modifies res[:]
    ensures forall(i, len(vRs), res[i] == deref(vL) + vRs[i])
    ensures forall(i, len(res) - len(vRs), res[i + len(vRs)] == old(res[i + len(vRs)]))

func (circuit.AddGate).Degrees(g) (dL, dR, dP)
    ensures dL >= 1 and dR >= 1 and dP >= 1

func (circuit.AddGate).GnarkEval(g, cs, vL, vR) (r)
    ensures r == vL + vR

func (circuit.MulGate).ID(g) (r)
    ensures r == "MulGate"

func (circuit.MulGate).Eval(g, res, vL, vR)
    modifies deref(res)
    ensures deref(res) == old(deref(vL)) * old(deref(vR))

func (circuit.MulGate).EvalManyVL(g, res, vLs, vR)
    requires len(res) >= len(vLs)
    modifies res[:]
    ensures forall(i, len(vLs), res[i] == vLs[i] * deref(vR))
    ensures forall(i, len(res) - len(vLs), res[i + len(vLs)] == old(res[i + len(vLs)]))

func (circuit.MulGate).EvalManyVR(g, res, vL, vRs)
    requires len(res) >= len(vRs)
    modifies res[:]
    ensures forall(i, len(vRs), res[i] == deref(vL) * vRs[i])
    ensures forall(i, len(res) - len(vRs), res[i + len(vRs)] == old(res[i + len(vRs)]))

func (circuit.MulGate).Degrees(g) (dL, dR, dP)
    ensures dL >= 1 and dR >= 1 and dP >= 2

func (circuit.MulGate).GnarkEval(g, cs, vL, vR) (r)
    ensures r == vL * vR

func (circuit.CopyGate).ID(g) (r)
    ensures r == "CopyGate"

func (circuit.CopyGate).Eval(g, res, vL, vR)
    modifies deref(res)
    ensures deref(res) == old(deref(vL))

func (circuit.CopyGate).EvalManyVL(g, res, vLs, vR)
    requires len(res) >= len(vLs)
    modifies res[:]
    ensures forall(i, len(vLs), res[i] == vLs[i])
    ensures forall(i, len(res) - len(vLs), res[i + len(vLs)] == old(res[i + len(vLs)]))

func (circuit.CopyGate).EvalManyVR(g, res, vL, vRs)
    requires len(res) >= len(vRs)
    modifies res[:]
    ensures forall(i, len(vRs), res[i] == deref(vL))
    ensures forall(i, len(res) - len(vRs), res[i + len(vRs)] == old(res[i + len(vRs)]))

func (circuit.CopyGate).Degrees(g) (dL, dR, dP)
    ensures dL >= 1 and dR >= 0 and dP >= 1

func (circuit.CopyGate).GnarkEval(g, cs, vL, vR) (r)
    ensures r == vL

func circuit.NewCipherGate(ark) (r)
    ensures r.Ark == ark
    fresh r

func (*circuit.CipherGate).ID(g) (r)
    ensures r == "CipherGate-" + dec(g.Ark)

func (*circuit.CipherGate).Eval(g, res, vL, vR)
    modifies deref(res)
    ensures deref(res) == old(deref(vL)) + (old(deref(vR)) + g.Ark) ** 7

func (*circuit.CipherGate).EvalManyVL(g, res, vLs, vR)
    requires len(res) >= len(vLs)
    modifies res[:]
    ensures forall(i, len(vLs), res[i] == vLs[i] + (deref(vR) + g.Ark) ** 7)
    ensures forall(i, len(res) - len(vLs), res[i + len(vLs)] == old(res[i + len(vLs)]))

func (*circuit.CipherGate).EvalManyVR(g, res, vL, vRs)
    requires len(res) >= len(vRs)
    modifies res[:]
    ensures forall(i, len(vRs), res[i] == deref(vL) + (vRs[i] + g.Ark) ** 7)
    ensures forall(i, len(res) - len(vRs), res[i + len(vRs)] == old(res[i + len(vRs)]))

func (*circuit.CipherGate).Degrees(g) (dL, dR, dP)
    ensures dL >= 1 and dR >= 7 and dP >= 7

func (*circuit.CipherGate).GnarkEval(g, cs, vL, vR) (r)
    ensures r == vL + (vR + g.Ark) ** 7

func circuit.EvaluateCombinator(vL, vR, eq, gates, statics) (r)
    requires len(statics) >= len(gates)
    ensures r == deref(eq) * sum(i, len(gates), statics[i] * geval(gates[i], deref(vL), deref(vR)))

func circuit.BGOutputs(wires) (r)
    requires forall(w, len(wires), wires[w].O >= 0)
    ensures r >= 0
    ensures forall(w, len(wires), wires[w].O < pow2(r))
    ensures implies(r >= 1, exists(w, len(wires), pow2(r - 1) <= wires[w].O))

func circuit.BGInputs(wires) (r)
    requires forall(w, len(wires), wires[w].L >= 0 and wires[w].R >= 0)
    ensures r >= 0
    ensures forall(w, len(wires), wires[w].L < pow2(r) and wires[w].R < pow2(r))
    ensures implies(r >= 1, exists(w, len(wires), pow2(r - 1) <= wires[w].L or pow2(r - 1) <= wires[w].R))

func (*circuit.Layer).Evaluate(l, inputs, nCore) (r)
    requires nCore >= 1
    requires l.BGInputs >= 0 and l.BGOutputs >= 0
    requires forall(w, len(l.Wires), 0 <= l.Wires[w].L and l.Wires[w].L < pow2(l.BGInputs))
    requires forall(w, len(l.Wires), 0 <= l.Wires[w].R and l.Wires[w].R < pow2(l.BGInputs))
    requires forall(w, len(l.Wires), 0 <= l.Wires[w].O and l.Wires[w].O < pow2(l.BGOutputs))
    ensures len(r) == len(inputs)
    ensures forall(b, len(r), len(r[b]) == (len(inputs[b]) // pow2(l.BGInputs)) * pow2(l.BGOutputs))
    ensures forall(b, len(r), forall(o, pow2(l.BGOutputs), forall(h, len(inputs[b]) // pow2(l.BGInputs), r[b][o * (len(inputs[b]) // pow2(l.BGInputs)) + h]
            == sum(w, len(l.Wires), geval(l.Wires[w].Gate, inputs[b][l.Wires[w].L * (len(inputs[b]) // pow2(l.BGInputs)) + h], inputs[b][l.Wires[w].R * (len(inputs[b]) // pow2(l.BGInputs)) + h]) if l.Wires[w].O == o else F(0)))))
    fresh r

func (*circuit.Assignment).LayerAsBKTNoCopy(a, layer) (r)
    requires 0 <= layer and layer < len(a.Values)
    ensures len(r) == len(a.Values[layer])
    ensures forall(i, len(r), len(r[i].Table) == len(a.Values[layer][i]))
    ensures forall(i, len(r), forall(k, len(a.Values[layer][i]), r[i].Table[k] == a.Values[layer][i][k]))
    view r[].Table

func (*circuit.Assignment).LayerAsBKTWithCopy(a, layer, nCore) (r)
    requires nCore >= 1
    requires 0 <= layer and layer < len(a.Values)
    ensures len(r) == len(a.Values[layer])
    ensures forall(i, len(r), len(r[i].Table) == len(a.Values[layer][i]))
    ensures forall(i, len(r), forall(k, len(a.Values[layer][i]), r[i].Table[k] == a.Values[layer][i][k]))
    fresh r

define wiring_ok(l) = forall(w, len(l.Wires), 0 <= l.Wires[w].O and l.Wires[w].O < pow2(l.BGOutputs) and 0 <= l.Wires[w].L and l.Wires[w].L < pow2(l.BGInputs) and 0 <= l.Wires[w].R and l.Wires[w].R < pow2(l.BGInputs))
define static(l, i, q, a, b) = sum(w, len(l.Wires), eqw(q, l.BGOutputs, l.Wires[w].O) if (gid(l.Wires[w].Gate) == gid(l.Gates[i]) and l.Wires[w].L == a and l.Wires[w].R == b) else F(0))

func (*circuit.Layer).GetStaticTable(l, q) (r)
    opt spare=r[].Table
    requires l.BGInputs >= 0 and l.BGOutputs >= 0
    requires wiring_ok(l)
    requires len(q) == l.BGOutputs
    ensures len(r) == len(l.Gates)
    ensures forall(i, len(r), len(r[i].Table) == pow2(2 * l.BGInputs))
    ensures forall(i, len(r), forall(a, pow2(l.BGInputs), forall(b, pow2(l.BGInputs), r[i].Table[a * pow2(l.BGInputs) + b] == static(l, i, q, a, b))))
    fresh r

define instances(c, v, l, b) = len(v[l][b]) // pow2(c.Layers[l].BGInputs)
define gate_value(c, v, l, b, w, n, h) = geval(c.Layers[l].Wires[w].Gate, v[l][b][c.Layers[l].Wires[w].L * n + h], v[l][b][c.Layers[l].Wires[w].R * n + h])
define layer_value(c, v, l, b, o, n, h) = sum(w, len(c.Layers[l].Wires), gate_value(c, v, l, b, w, n, h) if c.Layers[l].Wires[w].O == o else F(0))

func (*circuit.Circuit).Assign(c, inputs, nCore) (r)
    requires nCore >= 1
    requires forall(l, len(c.Layers), c.Layers[l].BGInputs >= 0 and c.Layers[l].BGOutputs >= 0 and wiring_ok(c.Layers[l]))
    ensures len(r.Values) == len(c.Layers) + 1
    ensures len(r.Values[0]) == len(inputs)
    ensures forall(b, len(inputs), len(r.Values[0][b]) == len(inputs[b]))
    ensures forall(b, len(inputs), forall(k, len(inputs[b]), r.Values[0][b][k] == inputs[b][k]))
    ensures forall(l, len(c.Layers), len(r.Values[l + 1]) == len(inputs))
    ensures forall(l, len(c.Layers), forall(b, len(inputs), len(r.Values[l + 1][b]) == instances(c, r.Values, l, b) * pow2(c.Layers[l].BGOutputs)))
    ensures forall(l, len(c.Layers), forall(b, len(inputs), forall(o, pow2(c.Layers[l].BGOutputs), forall(h, instances(c, r.Values, l, b), r.Values[l + 1][b][o * instances(c, r.Values, l, b) + h] == layer_value(c, r.Values, l, b, o, instances(c, r.Values, l, b), h)))))
    view r.Values[]
