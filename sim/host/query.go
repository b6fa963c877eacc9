package host

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc/bls12-377/fr"
	"github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	bn254 "github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/iden3/go-iden3-crypto/poseidon"
	"zksim/engine"
)

// A client commits to a query, the query travels as JSON through a store that may alter it, and the prover commits to
// what it reads. The commitment is compared with a reference, and a query altered in a committed field must not keep it.

type field struct {
	name  string
	width int
	val   *big.Int
}

// refCommit packs the fields little-endian, 253 bits per element, and hashes. nil: the fields do not fit.
func refCommit(fs []field) *big.Int {
	acc, pos := new(big.Int), 0
	for _, f := range fs {
		if f.val == nil || f.val.Sign() < 0 || f.val.BitLen() > f.width {
			return nil
		}
		acc.Or(acc, new(big.Int).Lsh(f.val, uint(pos)))
		pos += f.width
	}
	var in []*big.Int
	mask := new(big.Int).Sub(new(big.Int).Lsh(bi(1), 253), bi(1))
	for i := 0; i < pos; i += 253 {
		in = append(in, new(big.Int).And(new(big.Int).Rsh(acc, uint(i)), mask))
	}
	h, err := poseidon.Hash(in)
	if err != nil {
		return nil
	}
	return h
}

func num(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		return nil
	}
	return v
}

func dec(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil
	}
	return v
}

func hexNum(s string) *big.Int {
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil {
		return nil
	}
	return new(big.Int).SetBytes(b)
}

func u(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func receiptFields(q *proof.SDKQueryProvingInfoForReceipt) []field {
	fs := []field{{"block", 32, u(q.BlockNumber)}, {"fee", 128, num(q.BlockBaseFee)}, {"key", 32, num(q.MPTKey)}}
	for _, l := range q.LogExtractInfos {
		t := l.LogTopic0
		if len(t) > 14 {
			t = t[:14]
		}
		b := bi(0)
		if l.ValueFromTopic {
			b = bi(1)
		}
		fs = append(fs, field{"contract", 160, hexNum(l.ContractAddress)}, field{"log", 16, u(l.LogIndex)}, field{"topic", 48, hexNum(t)},
			field{"from-topic", 1, b}, field{"value-index", 7, u(l.ValueIndex)}, field{"value", 256, hexNum(l.Value)})
	}
	return append(fs, field{"time", 64, u(q.BlockTime)})
}

func storageFields(q *proof.SDKQueryProvingInfoForStorageSlot) []field {
	return []field{{"block", 32, u(q.BlockNumber)}, {"fee", 128, num(q.BlockBaseFee)}, {"account", 160, num(q.AccountAddress)},
		{"slot", 256, hexNum(q.Slot)}, {"value", 256, dec(q.SlotValue)}, {"time", 64, u(q.BlockTime)}}
}

func txFields(q *proof.SDKQueryProvingInfoForTransaction) []field {
	return []field{{"block", 32, u(q.BlockNumber)}, {"fee", 128, num(q.BlockBaseFee)}, {"key", 32, num(q.MPTKey)},
		{"leaf", 256, hexNum(q.LeafHash)}, {"time", 64, u(q.BlockTime)}}
}

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func drawNum(s *engine.Src, bits int) *big.Int {
	v := new(big.Int).SetBytes(s.Bytes((bits + 7) / 8))
	v.Rsh(v, uint((8-bits%8)%8))
	if s.Chance(1, 3) {
		v.Rsh(v, uint(s.Int(bits)))
	}
	return v
}

func numStr(s *engine.Src, v *big.Int) string {
	if s.Bool() {
		return v.String()
	}
	return fmt.Sprintf("0x%x", v)
}

// longBytes is a number that fits 32 bytes or is really longer.
func longBytes(s *engine.Src) []byte {
	b := s.Bytes(s.Range(1, 34))
	if len(b) > 32 {
		b[0] |= 1
	}
	return b
}

// tooBig is a number of a few bits more than the width, or a negative one.
func tooBig(s *engine.Src, bits int) *big.Int {
	if s.Bool() {
		return new(big.Int).Neg(new(big.Int).Add(drawNum(s, 40), bi(1)))
	}
	return new(big.Int).Add(drawNum(s, bits), new(big.Int).Lsh(bi(1), uint(bits+s.Int(8))))
}

func drawLog(s *engine.Src) *proof.SDKQueryLogExtractInfo {
	return &proof.SDKQueryLogExtractInfo{ContractAddress: hx(s.Bytes(20)), LogIndex: drawNum(s, 16).Uint64(), LogTopic0: hx(s.Bytes(32)),
		ValueFromTopic: s.Bool(), ValueIndex: drawNum(s, 7).Uint64(), Value: hx(s.Bytes(s.Range(0, 32)))}
}

func queries(w *World) {
	s := w.S
	kind := s.Int(3)
	w.Class = []string{"receipt", "storage", "transaction"}[kind]
	rq := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: drawNum(s, 32).Uint64(), BlockBaseFee: numStr(s, drawNum(s, 128)), MPTKey: numStr(s, drawNum(s, 32)), BlockTime: s.U64()}
	sq := &proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: rq.BlockNumber, BlockBaseFee: rq.BlockBaseFee, BlockTime: rq.BlockTime, AccountAddress: hx(s.Bytes(20)), Slot: hx(s.Bytes(s.Range(1, 32))), SlotValue: drawNum(s, 256).String()}
	tq := &proof.SDKQueryProvingInfoForTransaction{BlockNumber: rq.BlockNumber, BlockBaseFee: rq.BlockBaseFee, BlockTime: rq.BlockTime, MPTKey: rq.MPTKey, LeafHash: hx(s.Bytes(32))}
	if kind == 0 {
		for i := s.Int(6); i > 0; i-- {
			rq.LogExtractInfos = append(rq.LogExtractInfos, drawLog(s))
		}
	}
	q := &proof.SubProveRequest{RequestId: "r"}
	switch kind {
	case 0:
		q.ReceiptInfo = rq
	case 1:
		q.StorageSlotInfo = sq
	case 2:
		q.TransactionInfo = tq
	}
	commit := func(q *proof.SubProveRequest) (got []byte, ref *big.Int, err error) {
		defer func() {
			if r := recover(); r != nil { // refusing by panicking is what the helpers do
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		switch kind {
		case 0:
			ref = refCommit(receiptFields(q.ReceiptInfo))
			got, err = proof.MiMCHashReceiptCustomInputs(q.ReceiptInfo)
		case 1:
			ref = refCommit(storageFields(q.StorageSlotInfo))
			got, err = proof.MiMCHashStorageCustomInputs(q.StorageSlotInfo)
		case 2:
			ref = refCommit(txFields(q.TransactionInfo))
			got, err = proof.MiMCHashTxCustomInputs(q.TransactionInfo)
		}
		return
	}
	a, ra, err := commit(q)
	w.Log("client: %x %v", a, err)
	if err != nil {
		w.Fail("refused", "a well-formed %s query: %v", w.Class, err)
	}
	if new(big.Int).SetBytes(a).Cmp(ra) != 0 {
		w.Fail("wrong", "the commitment of a %s query is %x, not %x", w.Class, a, ra)
	}
	blob, err := json.Marshal(q)
	must(err)
	var p proof.SubProveRequest
	must(json.Unmarshal(blob, &p))
	altered := s.Chance(2, 3)
	if altered {
		w.Fault("byzantine-" + tamperQuery(s, kind, &p))
		blob, err = json.Marshal(&p)
		must(err)
		p = proof.SubProveRequest{}
		must(json.Unmarshal(blob, &p))
	}
	b, rb, err := commit(&p)
	w.Log("prover: %x %v", b, err)
	if err != nil {
		if rb != nil {
			w.Fail("refused", "a %s query that was altered (%v) and fits its widths: %v", w.Class, altered, err)
		}
		return
	}
	if rb == nil {
		w.Fail("truncated", "a %s query with a field that does not fit has commitment %x: %s", w.Class, b, blob)
	}
	if new(big.Int).SetBytes(b).Cmp(rb) != 0 {
		w.Fail("wrong", "the commitment of a %s query is %x, not %x", w.Class, b, rb)
	}
	if (ra.Cmp(rb) == 0) != bytes.Equal(a, b) {
		w.Fail("wrong", "the commitments of two %s queries: %x and %x, references %x and %x", w.Class, a, b, ra, rb)
	}
}

func tamperQuery(s *engine.Src, kind int, p *proof.SubProveRequest) string {
	fits := s.Chance(2, 3)
	pick := func(bits int) *big.Int {
		if fits {
			return drawNum(s, bits)
		}
		return tooBig(s, bits)
	}
	w64 := func(bits int) uint64 {
		if fits || bits == 64 {
			return drawNum(s, bits).Uint64()
		}
		return new(big.Int).Abs(tooBig(s, bits)).Uint64() | 1<<uint(bits)
	}
	switch kind {
	case 0:
		r := p.ReceiptInfo
		switch s.Int(6) {
		case 0:
			r.BlockNumber = w64(32)
			return "block"
		case 1:
			r.BlockBaseFee = pick(128).String()
			return "fee"
		case 2:
			r.MPTKey = pick(32).String()
			return "key"
		case 3:
			r.BlockTime = w64(64)
			return "time"
		case 4:
			if n := len(r.LogExtractInfos); n > 0 {
				i, j := s.Int(n), s.Int(n)
				r.LogExtractInfos[i], r.LogExtractInfos[j] = r.LogExtractInfos[j], r.LogExtractInfos[i]
				return "swap-logs"
			}
			r.LogExtractInfos = append(r.LogExtractInfos, drawLog(s))
			return "add-log"
		}
		if len(r.LogExtractInfos) == 0 {
			r.LogExtractInfos = append(r.LogExtractInfos, drawLog(s))
			return "add-log"
		}
		l := r.LogExtractInfos[s.Int(len(r.LogExtractInfos))]
		switch s.Int(6) {
		case 0:
			l.ContractAddress = hx(new(big.Int).Abs(pick(160)).FillBytes(make([]byte, 22)))
			return "contract"
		case 1:
			l.LogIndex = w64(16)
			return "log-index"
		case 2:
			l.LogTopic0 = hx(s.Bytes(32))
			return "topic"
		case 3:
			l.ValueFromTopic = !l.ValueFromTopic
			return "from-topic"
		case 4:
			l.ValueIndex = w64(7)
			return "value-index"
		}
		l.Value = hx(longBytes(s))
		return "value"
	case 1:
		r := p.StorageSlotInfo
		switch s.Int(6) {
		case 0:
			r.BlockNumber = w64(32)
			return "block"
		case 1:
			r.BlockBaseFee = pick(128).String()
			return "fee"
		case 2:
			r.AccountAddress = numStr(s, pick(160))
			if strings.HasPrefix(r.AccountAddress, "0x-") {
				r.AccountAddress = "-0x" + r.AccountAddress[3:]
			}
			return "account"
		case 3:
			r.Slot = hx(longBytes(s))
			return "slot"
		case 4:
			r.SlotValue = pick(256).String()
			return "value"
		}
		r.BlockTime = w64(64)
		return "time"
	}
	r := p.TransactionInfo
	switch s.Int(5) {
	case 0:
		r.BlockNumber = w64(32)
		return "block"
	case 1:
		r.BlockBaseFee = pick(128).String()
		return "fee"
	case 2:
		r.MPTKey = pick(32).String()
		return "key"
	case 3:
		r.LeafHash = hx(longBytes(s))
		return "leaf"
	}
	r.BlockTime = w64(64)
	return "time"
}

// A proof travels from the prover, as JSON, through the store to the node that submits it to a contract.

func drawFp(s *engine.Src) (x fp.Element) {
	x.SetBigInt(drawNum(s, 254))
	return
}

func word(b []byte) []byte { return new(big.Int).SetBytes(b).FillBytes(make([]byte, 32)) }

func proofTransport(w *World) {
	s := w.S
	w.Class = "transport"
	pr := &groth16_bn254.Proof{Commitments: make([]bn254.G1Affine, 1+s.Int(2))}
	transportOne(w, pr)
	if s.Chance(1, 4) { // the next proof in the same memory
		transportOne(w, pr)
	}
}

func transportOne(w *World, pr *groth16_bn254.Proof) {
	s := w.S
	pr.Ar.X, pr.Ar.Y, pr.Krs.X, pr.Krs.Y = drawFp(s), drawFp(s), drawFp(s), drawFp(s)
	pr.Bs.X.A0, pr.Bs.X.A1, pr.Bs.Y.A0, pr.Bs.Y.A1 = drawFp(s), drawFp(s), drawFp(s), drawFp(s)
	for i := range pr.Commitments {
		pr.Commitments[i].X, pr.Commitments[i].Y = drawFp(s), drawFp(s)
	}
	pr.CommitmentPok.X, pr.CommitmentPok.Y = drawFp(s), drawFp(s)
	el := func(e fp.Element) *big.Int { return e.BigInt(new(big.Int)) }
	want := []*big.Int{el(pr.Ar.X), el(pr.Ar.Y), el(pr.Bs.X.A1), el(pr.Bs.X.A0), el(pr.Bs.Y.A1), el(pr.Bs.Y.A0), el(pr.Krs.X), el(pr.Krs.Y),
		el(pr.Commitments[0].X), el(pr.Commitments[0].Y), el(pr.CommitmentPok.X), el(pr.CommitmentPok.Y)}
	same := func(what string, got []*big.Int, want []*big.Int) {
		for i := range want {
			if got[i] == nil || got[i].Cmp(want[i]) != 0 {
				w.Fail("wrong", "%s: number %d is %x, the prover's is %x", what, i, got[i], want[i])
			}
		}
	}
	var got []*big.Int
	w.Try("ExportProof", func() {
		a, b, c, d, e := utils.ExportProof(pr)
		got = []*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], c[0], c[1], d[0], d[1], e[0], e[1]}
	})
	same("ExportProof", got, want)
	str := func(v *big.Int) string {
		switch s.Int(3) {
		case 0:
			return hx(v.Bytes())
		case 1:
			return hx(v.FillBytes(make([]byte, 32)))
		}
		return hex.EncodeToString(v.Bytes())
	}
	g := proof.Groth16Proof{A: [2]string{str(want[0]), str(want[1])}, B: [2][2]string{{str(want[2]), str(want[3])}, {str(want[4]), str(want[5])}},
		C: [2]string{str(want[6]), str(want[7])}, Commitment: [2]string{str(want[8]), str(want[9])}, CommitmentPok: [2]string{str(want[10]), str(want[11])}}
	hash := func() string { return hx(s.Bytes(32)) }
	up := proof.UpdateProof{DurationSeconds: s.U64(),
		SszProof:       &proof.CommitteeSszMappingProof{Sha256SszRoot: hash(), PoseidonSszRoot: hash(), Proof: g},
		SigProof:       &proof.SigProof{Participation: s.U64(), PoseidonRoot: hash(), CommitmentPub: hash(), Proof: g},
		ChunkProof:     &proof.ChunkProof{ChunkRoot: hash(), PrevHash: hash(), EndHash: hash(), StartBlockNum: s.U64() >> uint(s.Int(64)), EndBlockNum: s.U64() >> uint(s.Int(64)), Proof: g},
		SMTUpdateProof: &proof.SMTUpdateProof{OldSmtRoot: hash(), NewSmtRoot: hash(), EndBlockHash: hash(), EndBlockNum: s.U64(), NextChunkMerkleRoot: hash(), CommitmentPub: hash(), Proof: g},
	}
	if s.Chance(1, 4) {
		w.Fault("part-missing")
		up.SszProof = nil
	}
	blob, err := json.Marshal(&up)
	must(err)
	var in proof.UpdateProof
	if err := json.Unmarshal(blob, &in); err != nil {
		w.Fail("refused", "the store's copy does not parse: %v", err)
	}
	w.Log("%d bytes through the store", len(blob))
	switch s.Int(8) { // the rest of what travels with proofs
	case 0:
		throughStore[proof.UpdateProof](w)
	case 1:
		throughStore[proof.SMTUpdateAssignmentData](w)
	case 2:
		throughStore[proof.SDKQueryProvingInfo](w)
	case 3:
		throughStore[proof.SubProveRequest](w)
	}
	contract := func(what string, c eth.IBeaconVerifierProof, want []*big.Int) {
		same(what, []*big.Int{c.A[0], c.A[1], c.B[0][0], c.B[0][1], c.B[1][0], c.B[1][1], c.C[0], c.C[1], c.Commitment[0], c.Commitment[1]}, want)
	}
	w.Try("reading the proofs", func() {
		a, b, c, d, e := in.ChunkProof.Proof.AsBigInts()
		same("AsBigInts", []*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], c[0], c[1], d[0], d[1], e[0], e[1]}, want)
		contract("OnChainProof", in.SigProof.Proof.OnChainProof(), want[:10])
		contract("BeaconProof", in.SMTUpdateProof.Proof.BeaconProof(), want[:10])
		if up.SszProof != nil {
			contract("GetProof", in.SszProof.GetProof(), want[:10])
		} else {
			zero := make([]*big.Int, 10)
			for i := range zero {
				zero[i] = bi(0)
			}
			contract("GetProof of a missing proof", in.SszProof.GetProof(), zero)
		}
		h32 := func(what, want string, got []byte) {
			if hx(got) != want {
				w.Fail("wrong", "%s is %x, sent as %s", what, got, want)
			}
		}
		r := in.SigProof.GetPoseidonRoot()
		h32("GetPoseidonRoot", up.SigProof.PoseidonRoot, r[:])
		h32("GetCommitment", up.SigProof.CommitmentPub, in.SigProof.GetCommitment().FillBytes(make([]byte, 32)))
		for _, x := range []struct {
			n, want string
			got     [32]byte
		}{{"GetOldSmtRoot", up.SMTUpdateProof.OldSmtRoot, in.SMTUpdateProof.GetOldSmtRoot()}, {"GetNewSmtRoot", up.SMTUpdateProof.NewSmtRoot, in.SMTUpdateProof.GetNewSmtRoot()},
			{"GetEndBlockHash", up.SMTUpdateProof.EndBlockHash, in.SMTUpdateProof.GetEndBlockHash()}, {"GetNextChunkMerkleRoot", up.SMTUpdateProof.NextChunkMerkleRoot, in.SMTUpdateProof.GetNextChunkMerkleRoot()},
			{"GetCommitmentPub", up.SMTUpdateProof.CommitmentPub, in.SMTUpdateProof.GetCommitmentPub()}} {
			h32(x.n, x.want, x.got[:])
		}
		if in.SMTUpdateProof.EndBlockNum != up.SMTUpdateProof.EndBlockNum || in.SigProof.Participation != up.SigProof.Participation || in.DurationSeconds != up.DurationSeconds {
			w.Fail("wrong", "a number changed on the way")
		}
		var abi []byte
		for _, v := range want[:8] {
			abi = append(abi, v.FillBytes(make([]byte, 32))...)
		}
		abi = append(abi, make([]byte, 64)...)
		for _, h := range []string{up.ChunkProof.ChunkRoot, up.ChunkProof.PrevHash, up.ChunkProof.EndHash} {
			b, _ := hex.DecodeString(h[2:])
			abi = append(append(abi, word(b[:16])...), word(b[16:])...)
		}
		abi = append(append(abi, u(up.ChunkProof.StartBlockNum).FillBytes(make([]byte, 32))...), u(up.ChunkProof.EndBlockNum).FillBytes(make([]byte, 32))...)
		if g := in.ChunkProof.EncodeABI(); !bytes.Equal(g, abi) {
			w.Fail("wrong", "EncodeABI (blocks %d to %d) is\n%x, not\n%x", up.ChunkProof.StartBlockNum, up.ChunkProof.EndBlockNum, g, abi)
		}
		ag := proof.ZKSDKAggPubInputs{AggVkHash: hash(), SMTRoot: [2]string{hash(), hash()}, AppVkHash: hash(), OutputCommit: [2]string{hash(), hash()}, QueryId: hash()}
		parts := strings.Split(ag.GenerateBatchProofAndPublicInputs(pr), ",")
		if len(parts) != 20 || parts[19] != "" {
			w.Fail("wrong", "a batch line of %d parts", len(parts))
		}
		var nums []*big.Int
		for _, p := range parts[:12] {
			nums = append(nums, hexNum(p))
		}
		same("GenerateBatchProofAndPublicInputs", nums, want)
		for i, x := range []string{ag.QueryId, ag.SMTRoot[0], ag.SMTRoot[1], ag.AggVkHash, ag.OutputCommit[0], ag.OutputCommit[1], ag.AppVkHash} {
			if parts[12+i] != x {
				w.Fail("wrong", "part %d of the batch line is %s, not %s", 12+i, parts[12+i], x)
			}
		}
	})
}

// fillAny sets every exported field of v to something.
func fillAny(s *engine.Src, v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(hx(s.Bytes(s.Int(40))))
	case reflect.Bool:
		v.SetBool(s.Bool())
	case reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint:
		v.SetUint(s.U64() >> uint(64-v.Type().Bits()) >> uint(s.Int(v.Type().Bits())))
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(s.U64()))
	case reflect.Pointer:
		if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
			v.Set(reflect.ValueOf(drawNum(s, 256)))
		} else if s.Chance(3, 4) {
			v.Set(reflect.New(v.Type().Elem()))
			fillAny(s, v.Elem())
		}
	case reflect.Slice:
		if v.Type() == reflect.TypeOf([]types.Header{}) {
			return // go-ethereum's own encoding
		}
		if n := s.Int(4); n > 0 {
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				if e := v.Index(i); e.Kind() == reflect.Slice || e.Kind() == reflect.Pointer {
					for e.IsNil() {
						if e.Kind() == reflect.Pointer {
							e.Set(reflect.New(e.Type().Elem()))
							fillAny(s, e.Elem())
						} else {
							e.SetBytes(append(s.Bytes(s.Int(40)), 1))
						}
					}
				} else {
					fillAny(s, e)
				}
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillAny(s, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fillAny(s, v.Field(i))
			}
		}
	}
}

func throughStore[T any](w *World) {
	var a, b T
	fillAny(w.S, reflect.ValueOf(&a).Elem())
	blob, err := json.Marshal(&a)
	must(err)
	if err := json.Unmarshal(blob, &b); err != nil {
		w.Fail("refused", "the store's copy of a %T does not parse: %v", a, err)
	}
	if !reflect.DeepEqual(a, b) {
		again, _ := json.Marshal(&b)
		w.Fail("wrong", "a %T comes back from the store as %s; it was written as %s", a, again, blob)
	}
}

// hostTree compares the host's Merkle roots and hashes with a recomputation.
func hostTree(w *World) {
	s := w.S
	w.Class = "tree"
	n := 1 << uint(s.Int(6))
	var leaves [][]byte
	var level []fr.Element
	for i := 0; i < n; i++ {
		var e fr.Element
		e.SetBytes(s.Bytes(32))
		b := e.Bytes()
		leaves = append(leaves, b[:])
		level = append(level, e)
	}
	for len(level) > 1 {
		var next []fr.Element
		for i := 0; i < len(level); i += 2 {
			h := mimc.NewMiMC()
			a, b := level[i].Bytes(), level[i+1].Bytes()
			h.Write(a[:])
			h.Write(b[:])
			var e fr.Element
			e.SetBytes(h.Sum(nil))
			next = append(next, e)
		}
		level = next
	}
	want := level[0].Bytes()
	var keep []byte
	for _, l := range leaves {
		keep = append(keep, l...)
	}
	var got []byte
	w.Try("MimcRoot", func() { got = smt.MimcRoot(leaves) })
	w.Log("root of %d leaves %x", n, got)
	if !bytes.Equal(got, want[:]) {
		w.Fail("wrong", "MimcRoot of %d leaves is %x, not %x", n, got, want)
	}
	if !bytes.Equal(keep, bytes.Join(leaves, nil)) {
		w.Fail("wrong", "MimcRoot changes its leaves")
	}
	h := s.Bytes(32)
	var lo, hi fr.Element
	hi.SetBytes(h[:16])
	lo.SetBytes(h[16:])
	m := mimc.NewMiMC()
	a, b := hi.Bytes(), lo.Bytes()
	m.Write(a[:])
	m.Write(b[:])
	w.Try("MimcHashBytes32", func() { got = smt.MimcHashBytes32(h) })
	if !bytes.Equal(got, m.Sum(nil)) {
		w.Fail("wrong", "MimcHashBytes32(%x) is %x", h, got)
	}
	w.Try("NewHash", func() {
		x := smt.NewHash(h)
		if x[0].(*big.Int).Cmp(new(big.Int).SetBytes(h[:16])) != 0 || x[1].(*big.Int).Cmp(new(big.Int).SetBytes(h[16:])) != 0 {
			w.Fail("wrong", "NewHash(%x) is %x", h, x)
		}
	})
}

func init() {
	registry = append(registry,
		&Scen{Prop: "C33", Name: "tree", Runs: 2000, Fn: hostTree},
		&Scen{Prop: "C34", Name: "queries", Runs: 40000, Fn: queries},
		&Scen{Prop: "C35", Name: "transport", Runs: 40000, Fn: proofTransport},
	)
	assumptions["C34"] = []string{"a query is refused by an error or by a panic of the helper; hexadecimal fields are well-formed hexadecimal"}
	assumptions["C35"] = []string{"proofs carry at least one commitment, as the contract's struct requires"}
}
