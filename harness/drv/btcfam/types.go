//go:build go1.21

// Package btcfam gives the seven Bitcoin-family drivers one shape, so that one
// closed driver can exercise all of them through their exported API.
package btcfam

import "os"

type Net struct {
	Name                string
	P2PKH, P2WPKH, P2SH []byte
	HRP                 string
}

type Vin struct {
	TxID string
	Vout uint32
}
type Vout struct {
	Address string
	Amount  uint64
}
type Omni struct {
	TxType     int
	PropertyId uint32
	Amount     uint64
	Ecosystem  byte
	Memo       string
	Address    string
}
type Asset struct {
	TxID    string
	Address string
	Amount  uint64
}
type Req struct {
	Ins         []Vin
	Outs        []Vout
	Lock        uint32
	Repl        bool
	Net         Net
	Omni        *Omni
	Assets      []Asset // cxc: asset transfers, Outs[0] is the change
	BlockHash   string  // zen
	BlockHeight uint64
}
type Unlock struct {
	Lock, Redeem string
	Amount       uint64
	SigType      byte
}
type MSig struct {
	Pubkey  string
	SigType byte
	Sig     []byte
	Pub     []byte
}
type Hash struct {
	Hash     string
	N        byte
	NoNormal bool
	Addr     string
	SigType  byte
	Sig, Pub []byte
	Multi    []MSig
}
type VinView struct {
	TxID string
	Vout uint32
	Type int
}
type View struct {
	Version, LockTime []byte
	Ins               []VinView
	NOut              int
	Witness           bool
}

type Adapter struct {
	Name               string
	Version            uint32
	ForkID             bool
	Segwit             bool // spends witness outputs
	Bech32             bool // pays to witness addresses
	Zen                bool
	Cxc                bool
	NeedsOmni, HasOmni bool
	SegParam           bool // has the SegwitON parameter
	SegAlways          bool // multisignature outputs are always witness outputs
	NoNames            bool // does not name the signer
	SignAll            func(tx string, u []Unlock, keys [][]byte) (string, error)
	SigType            byte
	Nets               []Net
	Create             func(r *Req) (string, error)
	Hashes             func(tx string, u []Unlock, seg bool, net Net) ([]Hash, error)
	Sign               func(hash string, key []byte) (sig, pub []byte, err error)
	Insert             func(tx string, h []Hash, u []Unlock, seg bool) (string, error)
	Verify             func(tx string, u []Unlock, seg bool, net Net) bool
	Multi              func(req byte, pubs [][]byte, seg bool, net Net) (addr, redeem string, err error)
	Decode             func(b []byte, seg bool) (*View, error)
}

var All []*Adapter

// development: VERIF_DRV restricts the exploration to one driver (runs after the inits of the a_*.go files)
func init() {
	if a := ByName(os.Getenv("VERIF_DRV")); a != nil {
		All = []*Adapter{a}
	}
}

func ByName(n string) *Adapter {
	for _, a := range All {
		if a.Name == n {
			return a
		}
	}
	return nil
}
