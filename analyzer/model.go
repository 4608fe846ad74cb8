package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// generated: protobuf codecs are treated like library code.
func generated(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return strings.HasSuffix(p, "/pb")
}

var nonNilFns = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
	"context.Background": true, "context.TODO": true,
	"(context.Context).Err":                             false,
	"github.com/ipfs/go-ipfs/peering.NewPeeringService": true,
	"time.NewTimer":                                     true, "time.NewTicker": true,
}

var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "runtime.Goexit": true,
}

// isNoise: calls whose effects and results never matter to any rule (logging,
// metrics). Their result is one canonical value.
func isNoise(n string) bool {
	if strings.HasPrefix(n, "github.com/ipfs/go-log/v2.SetLogLevel") {
		return false
	}
	for _, p := range []string{
		"(*go.uber.org/zap.", "go.uber.org/zap.", "github.com/ipfs/go-log", "(*github.com/ipfs/go-log",
		"go.opencensus.io/", "(*go.opencensus.io/", "(go.opencensus.io/",
		"github.com/filecoin-project/go-indexer-core/metrics.",
	} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func readOnly(n string) bool {
	if isNoise(n) || isPure(n) {
		return true
	}
	switch n {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent", "fmt.Println", "fmt.Printf", "fmt.Fprintln", "fmt.Fprintf", "fmt.Errorf", "fmt.Sprintf", "errors.As",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"github.com/libp2p/go-libp2p-core/record.Seal", "(*github.com/libp2p/go-libp2p-core/record.Envelope).Marshal":
		return true
	}
	return false
}

// isPure: deterministic functions of their arguments (no site identity).
func isPure(n string) bool {
	switch n {
	case "errors.New", "fmt.Errorf", "fmt.Sprintf", "bytes.Equal", "context.Background", "context.TODO", "errors.Is",
		"github.com/libp2p/go-libp2p-core/peer.Decode",
		"github.com/libp2p/go-libp2p-core/peer.IDFromPublicKey",
		"github.com/ipfs/go-datastore.NewKey", "path.Join", "path.Base",
		"github.com/ipfs/go-cid.Decode", "github.com/ipfs/go-cid.Parse",
		"github.com/multiformats/go-multihash.Decode", "github.com/multiformats/go-multihash.FromB58String",
		"(*github.com/libp2p/go-libp2p-core/record.Envelope).Marshal":
		return true
	}
	for _, p := range []string{
		"(github.com/libp2p/go-libp2p-core/peer.ID).", "(github.com/ipfs/go-cid.Cid).", "(github.com/ipfs/go-cid.Prefix).",
		"(time.Time).", "(time.Duration).", "strings.", "(github.com/multiformats/go-multihash.Multihash).",
		"(*net/url.URL).String", "(github.com/ipfs/go-datastore.Key).",
		"(github.com/ipld/go-ipld-prime/linking/cid.Link).",
	} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
