package host

import (
	"crypto/rand"
	"math/big"
	mrand "math/rand"
	"net/http"
	"sync"
	"syscall"
	_ "unsafe"

	_ "github.com/aws/aws-sdk-go/aws/client"
	"zksim/engine"
)

//go:linkname awsRand github.com/aws/aws-sdk-go/internal/sdkrand.SeededRand
var awsRand *mrand.Rand

// detReader replaces the system's randomness.
type detReader struct {
	mu sync.Mutex
	r  *engine.RNG
}

func (d *detReader) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := 0; i < len(p); i += 8 {
		v := d.r.Next()
		for k := 0; k < 8 && i+k < len(p); k++ {
			p[i+k] = byte(v >> (8 * k))
		}
	}
	return len(p), nil
}

func installSeams(w *World) {
	syscall.Sim = w.FS
	rand.Reader = &detReader{r: engine.NewRNG(7)}
	awsRand.Seed(1)
	http.SimRoundTrip = func(r *http.Request) (*http.Response, error) {
		panic("unexpected request to " + r.URL.String())
	}
}

func resetSeams() { http.SimRoundTrip = nil }

func bi(x int64) *big.Int { return big.NewInt(x) }
