package host

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/ethclient/gethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"zksim/engine"
)

// explorer answers the beacon chain explorer's API, honestly or not.
type explorer struct {
	w       *World
	answers map[string]*answer // by path
}

type answer struct {
	body   []byte
	status int
	ok     bool // the code must return exactly what follows
	any    bool // not judged
	num    uint64
	fin    bool
}

func (e *explorer) serve(r *http.Request, _ []byte) *reply {
	a := e.answers[r.URL.Host+r.URL.Path]
	if a == nil {
		return &reply{status: 404, body: []byte(`{"status":"ERROR: no such page","data":null}`)}
	}
	return &reply{status: a.status, body: a.body}
}

// jsonJunk draws a JSON value of the wrong kind.
func jsonJunk(s *engine.Src) string {
	return []string{"null", "{}", "[]", "[null]", "[[]]", "\"\"", "\"17\"", "true", "false", "-1", "0.5", "1e30", "18446744073709551616", "{\"slot\":{}}", "[{}]", "\"\\u0000\""}[s.Int(16)]
}

func number(s *engine.Src) uint64 {
	switch s.Int(4) {
	case 0:
		return uint64(s.Int(1000))
	case 1:
		return 1<<53 - 1 - uint64(s.Int(1000))
	}
	return 1 + s.U64()%(20_000_000)
}

// slotAnswer builds the answer to an execution block query.
func slotAnswer(w *World) *answer {
	s := w.S
	a := &answer{status: 200, ok: true, num: number(s), fin: s.Bool()}
	slot, fin := fmt.Sprint(a.num), fmt.Sprint(a.fin)
	pos := `{"executionBlockNumber":1,"proposerIndex":7,"slot":%s,"epoch":3,"finalized":%s}`
	first := `{"blockHash":"0xab","blockNumber":5,"posConsensus":%s,"txCount":3}`
	data := `[%s]`
	whole := `{"status":"OK","data":%s}`
	honest := s.Bool()
	if !honest {
		w.Fault("byzantine-answer")
		a.ok = false
	}
	spot := 0
	if !honest {
		spot = 1 + s.Int(9)
	}
	switch spot {
	case 1:
		whole = jsonJunk(s)
		if s.Bool() {
			whole = string(s.Bytes(s.Int(100)))
		}
		a.body = []byte(whole)
		return a
	case 2:
		data = jsonJunk(s)
	case 3:
		first = jsonJunk(s)
	case 4:
		pos = jsonJunk(s)
	case 5:
		slot = jsonJunk(s)
	case 6:
		fin = jsonJunk(s)
		if fin == "true" || fin == "false" {
			fin = "null"
		}
	case 7:
		pos = `{"slot":%s}`
		if s.Bool() {
			pos = `{"finalized":%[2]s}`
		}
	case 8: // proper bytes, improper status
		a.status = []int{400, 404, 429, 500, 502, 204, 201, 301}[s.Int(8)]
		if a.status == 201 || a.status == 204 || a.status == 301 {
			a.any = true
		}
	case 9:
		data = `[]`
	}
	fill := func(f string, args ...interface{}) string {
		if !strings.Contains(f, "%") {
			return f
		}
		r := fmt.Sprintf(f, args...)
		if i := strings.Index(r, "%!(EXTRA"); i >= 0 {
			r = r[:i]
		}
		return r
	}
	t := fill(pos, slot, fin)
	t = fill(first, t)
	t = fill(data, t)
	t = fill(whole, t)
	if spot == 0 && s.Chance(1, 4) { // more entries, white space
		t = strings.Replace(t, `"data":[`, `"data": [ `, 1) + "\n"
	}
	a.body = []byte(t)
	if spot >= 1 && spot <= 6 && a.status == 200 { // what is left may still be understandable
		a.judge(a.body)
	}
	return a
}

// judge allows any answer a tolerant reader could give.
func (a *answer) judge(b []byte) {
	var x struct {
		Data []struct {
			PosConsensus struct {
				Slot      json.Number
				Finalized *bool
			}
		}
	}
	if json.Unmarshal(b, &x) == nil && len(x.Data) > 0 && x.Data[0].PosConsensus.Finalized != nil {
		if n, err := strconv.ParseUint(x.Data[0].PosConsensus.Slot.String(), 10, 64); err == nil {
			a.num, a.fin, a.any = n, *x.Data[0].PosConsensus.Finalized, true
		}
	}
}

func blockAnswer(w *World) *answer {
	s := w.S
	a := &answer{status: 200, ok: true, num: number(s)}
	n := fmt.Sprint(a.num)
	data := `{"attestationscount":3,"exec_block_number":%s,"exec_block_hash":"0x12","slot":9}`
	whole := `{"status":"OK","data":%s}`
	spot := 0
	if s.Bool() {
		w.Fault("byzantine-answer")
		a.ok = false
		spot = 1 + s.Int(6)
	}
	switch spot {
	case 1:
		whole = jsonJunk(s)
		if s.Bool() {
			whole = string(s.Bytes(s.Int(100)))
		}
		a.body = []byte(whole)
		return a
	case 2:
		a.body = []byte(fmt.Sprintf(whole, jsonJunk(s)))
		return a
	case 3:
		n = jsonJunk(s)
	case 4:
		data = `{"attestationscount":3}`
		a.body = []byte(fmt.Sprintf(whole, data))
		return a
	case 5:
		a.status = []int{400, 404, 429, 500, 502}[s.Int(5)]
	case 6:
		whole = `{"status":"ERROR"}`
		a.body = []byte(whole)
		return a
	}
	a.body = []byte(fmt.Sprintf(whole, fmt.Sprintf(data, n)))
	return a
}

func pickChain(s *engine.Src) uint64 {
	return []uint64{1, 1, 5, 1, 5, 56, 97, 10, 0, 137}[s.Int(10)]
}

// explorerCalls drives GetSlot and GetBlock from several callers.
func explorerCalls(w *World, values bool) {
	e := &explorer{w, map[string]*answer{}}
	net := newNet(w, e.serve)
	net.Forever = true
	net.trouble(3, 6, append([]string{"drip", "stall"}, netKinds...))
	w.Class = "explorer"
	type call struct {
		chain uint64
		arg   uint64
		slot  bool
		a     *answer
		pause time.Duration
	}
	plans := make([][]*call, w.S.Range(1, 3))
	for i := range plans {
		for n := w.S.Range(1, 4); n > 0; n-- {
			c := &call{chain: pickChain(w.S), arg: number(w.S), slot: w.S.Bool(), pause: time.Duration(w.S.Int(5000)) * time.Millisecond}
			host := "beaconcha.in"
			if c.chain == 5 {
				host = "goerli.beaconcha.in"
			}
			path := fmt.Sprintf("%s/api/v1/slot/%d", host, c.arg)
			if c.slot {
				path = fmt.Sprintf("%s/api/v1/execution/block/%d", host, c.arg)
			}
			if e.answers[path] == nil {
				if c.slot {
					e.answers[path] = slotAnswer(w)
				} else {
					e.answers[path] = blockAnswer(w)
				}
			}
			c.a = e.answers[path]
			plans[i] = append(plans[i], c)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad *failure
	for i, p := range plans {
		wg.Add(1)
		go func(i int, p []*call) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					defer mu.Unlock()
					if v, ok := r.(failure); ok {
						bad = &v
					} else {
						bad = &failure{"panic", fmt.Sprintf("%v\n%s", r, stack())}
					}
				}
			}()
			for _, c := range p {
				c := c
				time.Sleep(c.pause + time.Duration(i+1))
				cl := &eth.Client{ChainId: c.chain}
				begin := time.Now()
				onEth := c.chain == 1 || c.chain == 5
				w.mu.Lock()
				before := total(w.faults, "net-")
				w.mu.Unlock()
				if !values {
					func() {
						defer func() { recover() }() // the other check's business
						if c.slot {
							cl.GetSlot(c.arg)
						} else {
							cl.GetBlock(c.arg)
						}
					}()
					w.Log("%d: call ends after %v", i, time.Since(begin))
				} else if c.slot {
					got, fin := cl.GetSlot(c.arg)
					w.Log("%d: GetSlot(%d) on %d: %d %v, the server has %.60q", i, c.arg, c.chain, got, fin, c.a.body)
					none := got == 0 && !fin
					exact := got == c.a.num && fin == c.a.fin
					switch {
					case !onEth:
						if !none {
							w.Fail("invented", "GetSlot on chain %d gives (%d, %v)", c.chain, got, fin)
						}
					case none:
						if c.a.ok && !exact && total(w.faults, "net-") == before {
							w.Fail("missed", "GetSlot gives nothing for the answer %q on a healthy network", c.a.body)
						}
					case exact && (c.a.ok || c.a.any):
					default:
						w.Fail("invented", "GetSlot gives (%d, %v) for status %d, answer %q", got, fin, c.a.status, c.a.body)
					}
				} else {
					got := cl.GetBlock(c.arg)
					w.Log("%d: GetBlock(%d) on %d: %d, the server has %.60q", i, c.arg, c.chain, got, c.a.body)
					switch {
					case c.chain == 56 || c.chain == 97:
						if got != c.arg {
							w.Fail("invented", "GetBlock(%d) on chain %d gives %d", c.arg, c.chain, got)
						}
					case !onEth:
						if got != 0 {
							w.Fail("invented", "GetBlock on chain %d gives %d", c.chain, got)
						}
					case got == 0:
						if c.a.ok && c.a.num != 0 && total(w.faults, "net-") == before {
							w.Fail("missed", "GetBlock gives nothing for the answer %q on a healthy network", c.a.body)
						}
					case got == c.a.num && (c.a.ok || c.a.any):
					default:
						var x struct {
							Data struct {
								N json.Number `json:"exec_block_number"`
							} `json:"data"`
						}
						if c.a.status == 200 && json.Unmarshal(c.a.body, &x) == nil && x.Data.N.String() == fmt.Sprint(got) {
							break
						}
						w.Fail("invented", "GetBlock gives %d for status %d, answer %q", got, c.a.status, c.a.body)
					}
				}
				if d := time.Since(begin); !values && d > 15*time.Minute {
					w.Fail("unbounded", "the call took %v of simulated time", d)
				}
			}
		}(i, p)
	}
	wg.Wait()
	if bad != nil {
		panic(*bad)
	}
	if k := net.Open(); !values && k != 0 {
		w.Fail("leak", "%d of %d response bodies were never closed", k, len(net.bodies))
	}
}

func total(m map[string]int, prefix string) (n int) {
	for k, v := range m {
		if strings.HasPrefix(k, prefix) {
			n += v
		}
	}
	return
}

// proofCalls drives GetProof against a JSON-RPC node.
func proofCalls(w *World) {
	w.Class = "proof rpc"
	type stored struct {
		acc   common.Address
		keys  []string
		block string
	}
	lie := 0
	net := newNet(w, nil)
	mk := func(st stored) map[string]interface{} {
		h := engine.NewRNG(engine.HashStr(fmt.Sprint(st)))
		var sp []interface{}
		for _, k := range st.keys {
			sp = append(sp, map[string]interface{}{"key": k, "value": hexutil.EncodeUint64(h.Next()), "proof": []string{hexutil.EncodeUint64(h.Next())}})
		}
		return map[string]interface{}{"address": st.acc, "accountProof": []string{hexutil.EncodeUint64(h.Next())}, "balance": hexutil.EncodeUint64(h.Next()),
			"codeHash": common.BigToHash(new(big.Int).SetUint64(h.Next())), "nonce": hexutil.EncodeUint64(h.Next() >> 8), "storageHash": common.BigToHash(new(big.Int).SetUint64(h.Next())), "storageProof": sp}
	}
	net.serve = func(r *http.Request, body []byte) *reply {
		var q struct {
			ID     json.RawMessage   `json:"id"`
			Method string            `json:"method"`
			Params []json.RawMessage `json:"params"`
		}
		if json.Unmarshal(body, &q) != nil || q.Method != "eth_getProof" || len(q.Params) != 3 {
			return &reply{status: 200, body: []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":-32601,"message":"no such method"}}`, q.ID))}
		}
		var st stored
		json.Unmarshal(q.Params[0], &st.acc)
		json.Unmarshal(q.Params[1], &st.keys)
		json.Unmarshal(q.Params[2], &st.block)
		h := http.Header{"Content-Type": {"application/json"}}
		if lie > 0 {
			lie--
			w.Fault("rpc-error")
			return &reply{status: 200, header: h, body: []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":-32000,"message":"missing trie node"}}`, q.ID))}
		}
		b, _ := json.Marshal(mk(st))
		return &reply{status: 200, header: h, body: []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%s}`, q.ID, b))}
	}
	net.trouble(2, 5, netKinds)
	rc, err := rpc.DialOptions(context.Background(), "http://node", rpc.WithHTTPClient(&http.Client{Timeout: time.Minute}))
	must(err)
	defer rc.Close()
	cl := &eth.Client{Client: ethclient.NewClient(rc), GethClient: gethclient.New(rc), ChainId: 1}
	var ic eth.IClient = cl
	for n := w.S.Range(1, 4); n > 0; n-- {
		lie = 0
		if w.S.Chance(1, 4) {
			lie = 1
		}
		st := stored{acc: common.BytesToAddress(w.S.Bytes(20)), keys: []string{}}
		for k := w.S.Int(4); k > 0; k-- {
			st.keys = append(st.keys, common.BytesToHash(w.S.Bytes(32)).Hex())
		}
		var num *big.Int
		st.block = "latest"
		if w.S.Bool() {
			num = new(big.Int).SetUint64(number(w.S))
			st.block = hexutil.EncodeBig(num)
		}
		w.mu.Lock()
		before := total(w.faults, "")
		w.mu.Unlock()
		res, err := ic.GetProof(context.Background(), st.acc, st.keys, num)
		w.Log("GetProof: %v", err)
		if err != nil {
			if total(w.faults, "") == before {
				w.Fail("refused", "GetProof failed without a fault: %v", err)
			}
			continue
		}
		want := mk(st)
		b1, _ := json.Marshal(want)
		got := map[string]interface{}{"address": res.Address, "accountProof": res.AccountProof, "balance": (*hexutil.Big)(res.Balance), "codeHash": res.CodeHash,
			"nonce": hexutil.Uint64(res.Nonce), "storageHash": res.StorageHash}
		var sp []interface{}
		for _, x := range res.StorageProof {
			sp = append(sp, map[string]interface{}{"key": x.Key, "value": (*hexutil.Big)(x.Value), "proof": x.Proof})
		}
		got["storageProof"] = sp
		b2, _ := json.Marshal(got)
		if !bytes.Equal(b1, b2) {
			w.Fail("different", "GetProof(%v, %v, %v) gives %s, the node has %s", st.acc, st.keys, num, b2, b1)
		}
	}
}

func init() {
	registry = append(registry,
		&Scen{Prop: "C27", Name: "explorer-answers", Runs: 60000, Bubble: true, Fn: func(w *World) { explorerCalls(w, true) }},
		&Scen{Prop: "C27", Name: "proof-answers", Runs: 20000, Bubble: true, Fn: proofCalls},
		&Scen{Prop: "C28", Name: "explorer-resources", Runs: 40000, Bubble: true, Fn: func(w *World) {
			explorerCalls(w, false)
		}},
	)
	assumptions["C27"] = []string{"TLS keeps third parties from altering answers: a Byzantine answer comes from the server itself"}
}
