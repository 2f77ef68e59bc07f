package ref

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"strings"
	"sync"
)

// Key is a signing key with its metadata form.
type Key struct {
	Kind   string // ed25519, ecdsa, ecdsa-compat, rsa, rsa-pss
	Signer crypto.Signer
	Type   string
	Scheme string
	Public string
	Extra  map[string]any // extra members of the key dictionary
	id     string
}

// Dict is the metadata form of the public key.
func (k *Key) Dict() map[string]any {
	m := map[string]any{"keytype": k.Type, "scheme": k.Scheme, "keyval": map[string]any{"public": k.Public}}
	for n, v := range k.Extra {
		m[n] = v
	}
	return m
}

// KeyID computes the identifier of a key dictionary.
func KeyID(dict any) string {
	h := sha256.Sum256(Canon(dict))
	return hex.EncodeToString(h[:])
}

// ID is the key identifier.
func (k *Key) ID() string {
	if k.id == "" {
		k.id = KeyID(k.Dict())
	}
	return k.id
}

// WithExtra is the same key pair under a different dictionary, hence id.
func (k *Key) WithExtra(extra map[string]any) *Key {
	n := *k
	n.Extra = extra
	n.id = ""
	n.ID()
	return &n
}

// SignPayload signs payload deterministically.
func (k *Key) SignPayload(payload []byte) []byte {
	switch s := k.Signer.(type) {
	case ed25519.PrivateKey:
		return ed25519.Sign(s, payload)
	case *ecdsa.PrivateKey:
		h := sha256.Sum256(payload)
		sig, err := s.Sign(nil, h[:], crypto.SHA256)
		if err != nil {
			panic(err)
		}
		return sig
	case *rsa.PrivateKey:
		h := sha256.Sum256(payload)
		if k.Kind == "rsa-pss" {
			sig, err := rsa.SignPSS(detRand(h[:]), s, crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: crypto.SHA256})
			if err != nil {
				panic(err)
			}
			return sig
		}
		sig, err := rsa.SignPKCS1v15(nil, s, crypto.SHA256, h[:])
		if err != nil {
			panic(err)
		}
		return sig
	}
	panic("signer")
}

type drand struct {
	seed []byte
	n    int
	buf  []byte
}

func detRand(seed []byte) *drand { return &drand{seed: seed} }
func (d *drand) Read(p []byte) (int, error) {
	for i := range p {
		if len(d.buf) == 0 {
			h := sha256.Sum256(append(append([]byte{}, d.seed...), byte(d.n), byte(d.n>>8)))
			d.n++
			d.buf = h[:]
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
	return len(p), nil
}

// Ed25519 derives an Ed25519 key from a label.
func Ed25519(label string) *Key {
	h := sha256.Sum256([]byte("verif-key:" + label))
	priv := ed25519.NewKeyFromSeed(h[:])
	k := &Key{Kind: "ed25519", Signer: priv, Type: "ed25519", Scheme: "ed25519",
		Public: hex.EncodeToString(priv.Public().(ed25519.PublicKey))}
	k.ID()
	return k
}

var (
	pkOnce  sync.Once
	ecdsas  []*ecdsa.PrivateKey
	rsas    []*rsa.PrivateKey
	ecPEMs  []string
	rsaPEMs []string
)

func loadKeys() {
	pkOnce.Do(func() {
		for _, d := range ecdsaKeyData {
			k := parsePK(d).(*ecdsa.PrivateKey)
			ecdsas = append(ecdsas, k)
			ecPEMs = append(ecPEMs, pubPEM(&k.PublicKey))
		}
		for _, d := range rsaKeyData {
			k := parsePK(d).(*rsa.PrivateKey)
			rsas = append(rsas, k)
			rsaPEMs = append(rsaPEMs, pubPEM(&k.PublicKey))
		}
	})
}

func parsePK(s string) any {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	k, err := x509.ParsePKCS8PrivateKey(b)
	if err != nil {
		panic(err)
	}
	return k
}

func pubPEM(pub any) string {
	der, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
}

// ECDSA returns the i-th embedded ECDSA key; compat selects the
// specification's key type name.
func ECDSA(i int, compat bool) *Key {
	loadKeys()
	i %= len(ecdsas)
	k := &Key{Kind: "ecdsa", Signer: ecdsas[i], Type: "ecdsa", Scheme: "ecdsa-sha2-nistp256", Public: ecPEMs[i]}
	if compat {
		k.Kind, k.Type = "ecdsa-compat", "ecdsa-sha2-nistp256"
	}
	k.ID()
	return k
}

// RSA returns the i-th embedded RSA key.
func RSA(i int) *Key {
	loadKeys()
	i %= len(rsas)
	k := &Key{Kind: "rsa", Signer: rsas[i], Type: "rsa", Scheme: "rsassa-pss-sha256", Public: rsaPEMs[i]}
	k.ID()
	return k
}

// RSAPSS is RSA(i) producing PSS signatures (what the scheme name says).
func RSAPSS(i int) *Key {
	k := RSA(i)
	k.Kind = "rsa-pss"
	return k
}

// NumECDSA and NumRSA are the sizes of the embedded pools.
func NumECDSA() int { return len(ecdsaKeyData) }
func NumRSA() int   { return len(rsaKeyData) }

// PubKey is a parsed public key of a key dictionary.
type PubKey struct {
	Pub any
	DER string // identity of the key pair
}

// ParsePub interprets a key dictionary; nil, err when it is unusable.
func ParsePub(keytype, public string) (*PubKey, error) {
	switch keytype {
	case "ed25519":
		b, err := hex.DecodeString(public)
		if err != nil {
			return nil, err
		}
		if len(b) != ed25519.PublicKeySize {
			return nil, fmt.Errorf("ed25519 key of %d bytes", len(b))
		}
		return &PubKey{ed25519.PublicKey(b), "ed:" + strings.ToLower(public)}, nil
	case "ecdsa", "ecdsa-sha2-nistp256", "rsa":
		blk, _ := pem.Decode([]byte(public))
		if blk == nil {
			return nil, fmt.Errorf("no PEM block")
		}
		pub, err := x509.ParsePKIXPublicKey(blk.Bytes)
		if err != nil {
			return nil, err
		}
		der, err := x509.MarshalPKIXPublicKey(pub)
		if err != nil {
			return nil, err
		}
		switch pub.(type) {
		case *rsa.PublicKey:
			if keytype != "rsa" {
				return nil, fmt.Errorf("rsa key under %s", keytype)
			}
		case *ecdsa.PublicKey:
			if keytype == "rsa" {
				return nil, fmt.Errorf("ecdsa key under rsa")
			}
		default:
			return nil, fmt.Errorf("unexpected key %T", pub)
		}
		return &PubKey{pub, "der:" + string(der)}, nil
	}
	return nil, fmt.Errorf("unsupported key type %q", keytype)
}

// Verify checks a signature over payload.
func (p *PubKey) Verify(payload, sig []byte) bool {
	switch k := p.Pub.(type) {
	case ed25519.PublicKey:
		return ed25519.Verify(k, payload, sig)
	case *ecdsa.PublicKey:
		h := sha256.Sum256(payload)
		return ecdsa.VerifyASN1(k, h[:], sig)
	case *rsa.PublicKey:
		h := sha256.Sum256(payload)
		return rsa.VerifyPKCS1v15(k, crypto.SHA256, h[:], sig) == nil ||
			rsa.VerifyPSS(k, crypto.SHA256, h[:], sig, nil) == nil
	}
	return false
}
