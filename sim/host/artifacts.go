package host

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"math/big"
	"os"
	"reflect"
	"strings"
	"sync"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/test/unsafekzg"

	"zksim/engine"
)

// toy is the circuit behind the artifacts.
type toy struct {
	A, B frontend.Variable
	P    frontend.Variable `gnark:",public"`
	n    int
	com  bool
}

func (c *toy) Define(api frontend.API) error {
	x := c.A
	for i := 0; i < c.n; i++ {
		x = api.Add(api.Mul(x, c.B), i)
	}
	api.AssertIsEqual(x, c.P)
	if c.com {
		v, err := api.(frontend.Committer).Commit(c.A, c.B)
		if err != nil {
			return err
		}
		api.AssertIsDifferent(v, 0)
	}
	return nil
}

func toyOutput(a, b *big.Int, n int, q *big.Int) *big.Int {
	x := new(big.Int).Set(a)
	for i := 0; i < n; i++ {
		x.Mod(x.Add(x.Mul(x, b), big.NewInt(int64(i))), q)
	}
	return x
}

// bundle holds one consistent set of artifacts.
type bundle struct {
	id              ecc.ID
	name            string
	r1, sp          constraint.ConstraintSystem
	gpk             groth16.ProvingKey
	gvk             groth16.VerifyingKey
	gproof          groth16.Proof
	ppk             plonk.ProvingKey
	pvk             plonk.VerifyingKey
	pproof          plonk.Proof
	wit             witness.Witness
	public          witness.Witness
	gproved, proved bool
}

var (
	bundles    []*bundle
	bundleOnce sync.Once
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// allBundles builds the artifacts once per process, from fixed randomness.
func allBundles() []*bundle {
	bundleOnce.Do(func() {
		old := rand.Reader
		rand.Reader = &detReader{r: engine.NewRNG(99)}
		defer func() { rand.Reader = old }()
		for _, x := range []struct {
			id  ecc.ID
			n   int
			com bool
		}{{ecc.BN254, 3, false}, {ecc.BN254, 9, true}, {ecc.BLS12_377, 5, false}, {ecc.BLS12_377, 2, true}, {ecc.BW6_761, 4, false}, {ecc.BW6_761, 4, true}} {
			b := &bundle{id: x.id, name: fmt.Sprintf("%s/%d/%v", x.id, x.n, x.com)}
			f := x.id.ScalarField()
			var err error
			a0, b0 := big.NewInt(17), big.NewInt(23)
			w := &toy{A: a0, B: b0, P: toyOutput(a0, b0, x.n, f)}
			b.wit, err = frontend.NewWitness(w, f)
			must(err)
			b.public, err = b.wit.Public()
			must(err)
			b.r1, err = frontend.Compile(f, r1cs.NewBuilder, &toy{n: x.n, com: x.com})
			must(err)
			b.gpk, b.gvk, err = groth16.Setup(b.r1)
			must(err)
			b.gproof, err = groth16.Prove(b.r1, b.gpk, b.wit)
			must(err)
			must(groth16.Verify(b.gproof, b.gvk, b.public))
			b.sp, err = frontend.Compile(f, scs.NewBuilder, &toy{n: x.n, com: x.com})
			must(err)
			srs, lag, err := unsafekzg.NewSRS(b.sp)
			must(err)
			b.ppk, b.pvk, err = plonk.Setup(b.sp, srs, lag)
			must(err)
			b.pproof, err = plonk.Prove(b.sp, b.ppk, b.wit)
			must(err)
			must(plonk.Verify(b.pproof, b.pvk, b.public))
			bundles = append(bundles, b)
		}
	})
	return bundles
}

// blob is one artifact on its way to disk and back.
type blob struct {
	name  string
	file  string // where artifacts of this kind live
	write func(path string) error
	read  func(path string) ([]byte, error)
	want  []byte
	raw   bool // any prefix of the file is a valid one
}

func ser(x interface{}) []byte {
	var b bytes.Buffer
	var err error
	switch v := x.(type) {
	case interface {
		WriteRawTo(io.Writer) (int64, error)
	}:
		_, err = v.WriteRawTo(&b)
	case io.WriterTo:
		_, err = v.WriteTo(&b)
	default:
		panic(fmt.Sprintf("%T", x))
	}
	must(err)
	return b.Bytes()
}

// callErr calls f and returns the error it reports, if it reports any.
func callErr(f interface{}, args ...interface{}) error {
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	for _, r := range reflect.ValueOf(f).Call(in) {
		if e, ok := r.Interface().(error); ok && e != nil {
			return e
		}
	}
	return nil
}

const blobKinds = 15

func emptyCS(b *bundle, plonky bool) constraint.ConstraintSystem {
	if plonky {
		return plonk.NewCS(b.id)
	}
	return groth16.NewCS(b.id)
}

// pickBlob draws one artifact.
func pickBlob(s *engine.Src) *blob {
	bs := allBundles()
	b := bs[s.Int(len(bs))]
	o := &blob{}
	defer func() { o.file = "/simdisk/" + strings.NewReplacer("/", "-", " ", "-").Replace(o.name+" "+b.name) }()
	switch k := s.Int(blobKinds); k {
	case 0:
		o.name, o.want = "groth16 proving key", ser(b.gpk)
		o.write = func(p string) error { return utils.WriteProvingKey(p, b.gpk) }
		o.read = func(p string) ([]byte, error) {
			x := groth16.NewProvingKey(b.id)
			if err := utils.ReadProvingKey(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 1:
		o.name, o.want = "groth16 verifying key", ser(b.gvk)
		o.write = func(p string) error { return utils.WriteVerifyingKey(p, b.gvk) }
		o.read = func(p string) ([]byte, error) {
			x := groth16.NewVerifyingKey(b.id)
			if err := utils.ReadVerifyingKey(p, x); err != nil {
				return nil, err
			}
			if err := groth16.Verify(b.gproof, x, b.public); err != nil {
				return append(ser(x), []byte("unusable: "+err.Error())...), nil
			}
			return ser(x), nil
		}
	case 2:
		o.name, o.want = "groth16 proof", ser(b.gproof)
		o.write = func(p string) error { return utils.WriteProofIntoLocalFile(p, b.gproof) }
		o.read = func(p string) ([]byte, error) {
			x := groth16.NewProof(b.id)
			if err := utils.ReadProofFromLocalFile(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 3:
		o.name, o.want = "groth16 constraint system", ser(b.r1)
		o.write = func(p string) error { return utils.WriteCcs(p, b.r1) }
		o.read = func(p string) ([]byte, error) {
			x := emptyCS(b, false)
			if err := utils.ReadCcs(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 4:
		o.name, o.want = "plonk proving key", ser(b.ppk)
		o.write = func(p string) error { return callErr(utils.WritePlonkProvingKey, p, b.ppk) }
		o.read = func(p string) ([]byte, error) {
			x := plonk.NewProvingKey(b.id)
			if err := utils.ReadPlonkProvingKey(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 5:
		o.name, o.want = "plonk verifying key", ser(b.pvk)
		o.write = func(p string) error { return utils.WritePlonkVerifyingKey(p, b.pvk) }
		o.read = func(p string) ([]byte, error) {
			x := plonk.NewVerifyingKey(b.id)
			if err := utils.ReadPlonkVerifyingKey(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 6:
		o.name, o.want = "plonk proof", ser(b.pproof)
		o.write = func(p string) error { return utils.WritePlonkProofIntoLocalFile(b.pproof, p) }
		o.read = func(p string) ([]byte, error) {
			x := plonk.NewProof(b.id)
			if err := utils.ReadPlonkProofFromLocalFile(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 7:
		o.name, o.want = "plonk constraint system", ser(b.sp)
		o.write = func(p string) error { return utils.WritePlonkCcs(p, b.sp) }
		o.read = func(p string) ([]byte, error) {
			x := emptyCS(b, true)
			if err := utils.ReadPlonkCcs(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 8, 9:
		w := b.wit
		if k == 9 { // any number of public and secret values
			var err error
			w, err = witness.New(b.id.ScalarField())
			must(err)
			np, ns := s.Int(40), s.Int(40)
			ch := make(chan any, np+ns)
			for i := 0; i < np+ns; i++ {
				ch <- new(big.Int).Mod(s.Elem(), b.id.ScalarField())
			}
			close(ch)
			must(w.Fill(np, ns, ch))
		}
		o.name, o.want = "witness", ser(w)
		o.write = func(p string) error { return utils.WriteWitness(p, w) }
		o.read = func(p string) ([]byte, error) {
			x, err := witness.New(b.id.ScalarField())
			must(err)
			if err := utils.ReadWitness(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	case 10:
		var buf bytes.Buffer
		bn := bs[s.Int(2)]
		must(bn.gvk.ExportSolidity(&buf))
		o.name, o.want, o.raw = "groth16 solidity verifier", buf.Bytes(), true
		o.write = func(p string) error { return utils.WriteVKSolidity(p, bn.gvk) }
		o.read = utils.ReadFileAndReturnByteArray
	case 11:
		var buf bytes.Buffer
		bn := bs[s.Int(2)]
		must(bn.pvk.ExportSolidity(&buf))
		o.name, o.want, o.raw = "plonk solidity verifier", buf.Bytes(), true
		o.write = func(p string) error { return utils.WritePlonkVKSolidity(p, bn.pvk) }
		o.read = utils.ReadFileAndReturnByteArray
	case 12, 13:
		d := s.Bytes([]int{0, 1, 31, 32, 511, 512, 513, 4096, 9000}[s.Int(9)])
		o.name, o.want, o.raw = "public inputs", d, true
		o.write = func(p string) error { return utils.WritePublicInputs(p, d) }
		o.read = utils.ReadPublicInputs
		if k == 13 {
			o.read = utils.ReadFileAndReturnByteArray
		}
	default: // a big witness: several system calls
		w, err := witness.New(b.id.ScalarField())
		must(err)
		n := s.Range(200, 3000)
		ch := make(chan any, n)
		for i := 0; i < n; i++ {
			ch <- uint64(i) * 0x9e3779b97f4a7c15
		}
		close(ch)
		must(w.Fill(n/3, n-n/3, ch))
		o.name, o.want = "witness", ser(w)
		o.write = func(p string) error { return utils.WriteWitness(p, w) }
		o.read = func(p string) ([]byte, error) {
			x, err := witness.New(b.id.ScalarField())
			must(err)
			if err := utils.ReadWitness(p, x); err != nil {
				return nil, err
			}
			return ser(x), nil
		}
	}
	return o
}

var benign = map[string]bool{"short": true, "eintr": true}

// planDisk plans up to n faults on the calls a writer or reader makes and tells whether one of them is an error that
// the code cannot work around.
func planDisk(w *World, n int, ops ...string) {
	for i := 0; i < n; i++ {
		op := ops[w.S.Int(len(ops))]
		var how string
		switch op {
		case "open":
			how = []string{"eintr", "eacces", "emfile", "eio"}[w.S.Int(4)]
		case "write":
			how = []string{"short", "eintr", "enospc", "eio", "edquot"}[w.S.Int(5)]
		case "read":
			how = []string{"short", "eintr", "eio"}[w.S.Int(3)]
		case "close", "sync":
			how = []string{"eio", "enospc", "edquot"}[w.S.Int(3)]
		}
		k := 1
		if op == "write" || op == "read" {
			k = w.S.Range(1, []int{2, 6, 40, 400}[w.S.Int(4)])
		}
		w.FS.Inject(FSFault{Op: op, N: w.FS.count[op] + k, How: how, Part: w.S.Int(1000)})
	}
}

func (f *FS) hits() (any, hard bool) {
	for _, x := range f.plan {
		if x.hit {
			any = true
			if !benign[x.How] {
				hard = true
			}
		}
	}
	return
}

// Before puts something at the path: nothing, rubbish (longer or shorter) or an older artifact.
func (w *World) before(path string) []byte {
	switch w.S.Int(4) {
	case 1:
		b := w.S.Bytes(w.S.Int(20000))
		w.FS.Put(path, b)
		return b
	case 2, 3:
		o := pickBlob(w.S)
		w.FS.quiet = true
		must(o.write(path))
		w.FS.quiet = false
		b, _ := w.FS.Content(path)
		w.FS.Abandon()
		return b
	}
	return nil
}

func diskTruth(w *World) {
	path := "/simdisk/artifact"
	w.before(path)
	o := pickBlob(w.S)
	w.Class = o.name
	w.FS.count = map[string]int{}
	planDisk(w, w.S.Int(3), "open", "write", "write", "close")
	var err error
	w.Try("writing the "+o.name, func() { err = o.write(path) })
	any, hard := w.FS.hits()
	w.Log("write of %s: %v", o.name, err)
	if err != nil && !hard {
		if any {
			w.Fail("not-retried", "writing the %s failed with %v although the kernel only asked for a retry", o.name, err)
		}
		w.Fail("refused", "writing the %s failed with %v on a healthy disk", o.name, err)
	}
	w.FS.Calm()
	if err == nil {
		w.check(o, path, "after a successful write")
	}
	// the caller tries again once the disk is well
	if err != nil {
		if e := o.write(path); e != nil {
			w.Fail("stuck", "writing the %s again on a healthy disk failed with %v", o.name, e)
		}
		w.check(o, path, "after a second write on a healthy disk")
	}
	// reading under faults
	for round := 0; round < 2; round++ {
		w.FS.count = map[string]int{}
		planDisk(w, w.S.Int(3), "open", "read", "read", "close")
		var got []byte
		w.Try("reading the "+o.name, func() { got, err = o.read(path) })
		any, hard = w.FS.hits()
		w.Log("read of %s: %v", o.name, err)
		if err == nil && !bytes.Equal(got, o.want) {
			w.Fail("wrong-read", "reading the %s under disk faults succeeded with another object", o.name)
		}
		if err != nil && !hard {
			if any {
				w.Fail("not-retried", "reading the %s failed with %v although the kernel only asked for a retry", o.name, err)
			}
			w.Fail("unreadable", "reading the %s failed with %v on a healthy disk", o.name, err)
		}
		w.FS.Calm()
	}
}

func (w *World) check(o *blob, path, when string) {
	var got []byte
	var err error
	w.Try("reading the "+o.name, func() { got, err = o.read(path) })
	if err != nil {
		c, _ := w.FS.Content(path)
		w.Fail("lost", "%s, reading the %s fails: %v (%d bytes on disk)", when, o.name, err, len(c))
	}
	if !bytes.Equal(got, o.want) {
		w.Fail("different", "%s, reading the %s gives another object", when, o.name)
	}
}

func crashedWriter(w *World) {
	path := "/simdisk/artifact"
	old := w.before(path)
	o := pickBlob(w.S)
	for o.raw {
		o = pickBlob(w.S)
	}
	w.Class = o.name
	// how many system calls does the write make?
	w.FS.quiet = true
	at := w.FS.ops
	must(o.write("/simdisk/elsewhere"))
	total := w.FS.ops - at
	w.FS.quiet = false
	w.FS.Abandon()
	w.FS.count = map[string]int{}
	op := "write"
	switch w.S.Int(8) {
	case 0:
		op = "open"
	case 1:
		op = "close"
	}
	n := 1
	if op == "write" && total > 2 {
		n = w.S.Range(1, total-1)
		if w.S.Bool() && total > 12 {
			n = total - 1 - w.S.Int(10)
		}
	}
	w.FS.Inject(FSFault{Op: op, N: n, How: "crash", Part: w.S.Int(1000)})
	func() {
		defer func() { recover() }()
		o.write(path)
	}()
	crashed := w.FS.dead
	w.FS.Calm()
	w.FS.Abandon()
	if crashed && w.S.Chance(1, 4) { // the machine went down too: the end of the file was still in memory
		if c, ok := w.FS.Content(path); ok && len(c) > 0 && !bytes.Equal(c, old) {
			w.FS.Put(path, c[:w.S.Int(len(c))])
			w.Fault("lost-cache")
		}
	}
	c, _ := w.FS.Content(path)
	w.Log("crash %v, %d bytes on disk", crashed, len(c))
	if old == nil || !bytes.Equal(c, old) {
		var got []byte
		var err error
		w.Try("reading the "+o.name+" a crash left behind", func() { got, err = o.read(path) })
		if err == nil && !bytes.Equal(got, o.want) {
			w.Fail("torn", "%d bytes of a %s left behind by a crash read as another, complete object", len(c), o.name)
		}
	}
	if e := o.write(path); e != nil {
		w.Fail("stuck", "writing the %s after the crash failed with %v", o.name, e)
	}
	w.check(o, path, "after the restart")
}

func noLeaks(w *World) {
	w.FS.MaxFD = w.S.Range(4, 24)
	w.Class = "descriptors"
	n := w.S.Range(10, 60)
	for i := 0; i < n; i++ {
		o := pickBlob(w.S)
		path := o.file
		w.FS.count = map[string]int{}
		planDisk(w, w.S.Int(2), "open", "write", "read", "close")
		var err error
		if w.S.Bool() {
			w.Try("writing the "+o.name, func() { err = o.write(path) })
		} else {
			w.Try("reading the "+o.name, func() { _, err = o.read(path) })
		}
		_, hard := w.FS.hits()
		w.FS.Calm()
		if k := w.FS.Descriptors(); k != 0 {
			w.Fail("leak", "operation %d on a %s (result %v, disk error %v) leaves %d files open", i, o.name, err, hard, k)
		}
	}
}

func createOrOpen(w *World) {
	path := "/simdisk/shared"
	n := w.S.Range(1, 4)
	var mine []byte // what must be in the file
	exists := false
	if w.S.Bool() {
		mine = w.S.Bytes(1 + w.S.Int(300))
		w.FS.Put(path, mine)
		exists = true
	}
	for i := 0; i < n; i++ {
		// what other processes do while the call runs
		k := w.FS.ops + w.S.Range(1, 3)
		switch w.S.Int(4) {
		case 1:
			w.Class = "created by another process"
			b := w.S.Bytes(1 + w.S.Int(300))
			w.FS.At[k] = func() {
				if _, ok := w.FS.nodes[path]; !ok {
					w.FS.Put(path, b)
					mine, exists = b, true
					w.Fault("created-by-other-process")
				}
			}
		case 2:
			w.Class = "removed by another process"
			w.FS.At[k] = func() {
				if _, ok := w.FS.nodes[path]; ok {
					delete(w.FS.nodes, path)
					mine, exists = nil, false
					w.Fault("removed-by-other-process")
				}
			}
		}
		w.FS.count = map[string]int{}
		planDisk(w, w.S.Int(2), "open")
		var f *os.File
		var err error
		w.Try("CreateOrOpenFile", func() { f, err = utils.CreateOrOpenFile(path) })
		_, hard := w.FS.hits()
		w.FS.Calm()
		w.Log("CreateOrOpenFile: %v", err)
		if err != nil && f != nil {
			w.Fail("both", "CreateOrOpenFile returns a file and the error %v", err)
		}
		if err == nil && f == nil {
			w.Fail("neither", "CreateOrOpenFile returns neither a file nor an error")
		}
		if err != nil && !hard {
			w.Fail("refused", "CreateOrOpenFile fails with %v on a healthy disk", err)
		}
		if c, ok := w.FS.Content(path); exists && (!ok || !bytes.Equal(c, mine)) {
			w.Fail("destroyed", "the file held %d bytes that CreateOrOpenFile destroyed (%d are left)", len(mine), len(c))
		}
		if err == nil {
			if _, ok := w.FS.Content(path); !ok {
				if exists {
					w.Fail("missing", "no file after CreateOrOpenFile")
				}
			} else {
				exists = true
			}
			b, e := io.ReadAll(f)
			if e != nil {
				w.Fail("unreadable", "the returned file cannot be read: %v", e)
			}
			if exists && !bytes.Equal(b, mine) && !bytes.Equal(b, nil) {
				w.Fail("stale", "the returned file shows %d bytes, %d are in the file", len(b), len(mine))
			}
			f.Close()
		}
		if k := w.FS.Descriptors(); k != 0 {
			w.Fail("leak", "CreateOrOpenFile leaves %d files open after its caller closed the one it got", k)
		}
	}
}

func init() {
	registry = append(registry,
		&Scen{Prop: "C21", Name: "artifacts-under-disk-faults", Runs: 24000, Fn: diskTruth},
		&Scen{Prop: "C22", Name: "crash-while-writing", Runs: 16000, Fn: crashedWriter},
		&Scen{Prop: "C23", Name: "create-or-open", Runs: 200000, Fn: createOrOpen},
		&Scen{Prop: "C24", Name: "descriptors", Runs: 6000, Fn: noLeaks},
	)
	assumptions["C21"] = []string{"a disk error on close loses a suffix of the file", "artifacts of a small circuit over BN254, BLS12-377 and BW6-761"}
	assumptions["C22"] = []string{"a crash leaves a prefix of what was written", "raw public inputs and exported Solidity, where each prefix is a valid file, are left out"}
	assumptions["C24"] = []string{"finalizers do not run during a run"}
}
