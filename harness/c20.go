package main

import (
	"bytes"
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"

	"verif/harness/ref"
)

// keyIDs seen in the run: id -> content
var seenIDs sync.Map

func (c *Case) distinctID(id string, dict any) {
	canon := string(ref.Canon(dict))
	if o, ok := seenIDs.LoadOrStore(id, canon); ok && o.(string) != canon {
		c.Fail("same-id", "keys %s and %s have the same id %s", o, canon, id)
	}
}

type pubEqual interface {
	Equal(x crypto.PublicKey) bool
}

func randPub(c *Case) (crypto.PublicKey, crypto.Signer, string) {
	r := c.Rng
	switch r.Intn(6) {
	case 0, 1:
		seed := make([]byte, 32)
		r.Read(seed)
		k := ed25519.NewKeyFromSeed(seed)
		return k.Public(), k, "ed25519"
	case 2:
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		return &k.PublicKey, k, "ecdsa"
	case 3:
		k := ref.ECDSA(r.Intn(ref.NumECDSA()), false)
		return k.Signer.Public(), k.Signer, "ecdsa"
	case 4:
		k := ref.RSA(r.Intn(ref.NumRSA()))
		return k.Signer.Public(), k.Signer, "rsa"
	}
	b := make([]byte, pick(r, []int{256, 384, 512, 1024, 2048}))
	r.Read(b)
	b[0] |= 0x80
	b[len(b)-1] |= 1
	return &rsa.PublicKey{N: new(big.Int).SetBytes(b), E: pick(r, []int{3, 17, 65537, 1<<31 - 1})}, nil, "rsa"
}

func dictOf(kind, scheme, public string) J {
	return J{"keytype": kind, "scheme": scheme, "keyval": J{"public": public}}
}

// keyRoundCase: from a public key to metadata and back.
func keyRoundCase(c *Case) {
	r := c.Rng
	pub, signer, kind := randPub(c)
	c.Eval()
	k, err := metadata.KeyFromPublicKey(pub)
	if err != nil || k == nil {
		c.Fail("convert:"+kind, "public key %T refused: %v", pub, err)
		return
	}
	same := func(k *metadata.Key, when string) bool {
		back, err := k.ToPublicKey()
		if err != nil {
			c.Fail("back:"+kind, "%s: key of type %s refused: %v", when, kind, err)
			return false
		}
		if !pub.(pubEqual).Equal(back) {
			c.Fail("other-key:"+kind, "%s: key of type %s comes back as another key", when, kind)
			return false
		}
		return true
	}
	if !same(k, "after conversion") {
		return
	}
	want := map[string][2]string{"ed25519": {"ed25519", "ed25519"}, "ecdsa": {"ecdsa", "ecdsa-sha2-nistp256"}, "rsa": {"rsa", "rsassa-pss-sha256"}}[kind]
	if k.Type != want[0] && !(kind == "ecdsa" && k.Type == "ecdsa-sha2-nistp256") || k.Scheme != want[1] {
		c.Fail("names:"+kind, "%s key is described as type %q scheme %q", kind, k.Type, k.Scheme)
		return
	}
	if p, err := ref.ParsePub(k.Type, k.Value.PublicKey); err != nil || !p.Pub.(pubEqual).Equal(pub) {
		c.Fail("encoding:"+kind, "%s key is encoded as %q: %v", kind, k.Value.PublicKey, err)
		return
	}
	dict := dictOf(k.Type, k.Scheme, k.Value.PublicKey)
	id := ref.KeyID(dict)
	if k.ID() != id || k.ID() != id {
		c.Fail("id:"+kind, "id of a %s key is %s, expected %s", kind, k.ID(), id)
		return
	}
	c.distinctID(id, dict)
	c.Count("keys converted and back: " + kind)
	again, err := metadata.KeyFromPublicKey(pub)
	if err != nil || again.ID() != id {
		c.Fail("id-again:"+kind, "converting the same %s key again gives another id (%v)", kind, err)
		return
	}
	// serialised, alone and within metadata
	b, err := json.Marshal(k)
	var k2 metadata.Key
	if err == nil {
		err = json.Unmarshal(b, &k2)
	}
	if err != nil || k2.ID() != id || !same(&k2, "after serialisation") {
		c.Fail("serialise:"+kind, "serialised %s key: %v, id %s, before %s", kind, err, k2.ID(), id)
		return
	}
	root := metadata.Root(time.Now().UTC().Add(time.Hour * 10000))
	role := pick(r, []string{"root", "timestamp", "snapshot", "targets"})
	if err := root.Signed.AddKey(k, role); err != nil {
		c.FailTags(Tags{"C19"}, "add", "%v", err)
		return
	}
	if signer != nil {
		sg, err := signature.LoadSigner(signer, crypto.SHA256)
		if err != nil {
			panic(err)
		}
		sig, err := root.Sign(sg)
		if err != nil || sig == nil || sig.KeyID != id {
			c.Fail("sign-id:"+kind, "signing with the %s key %s: %+v, %v", kind, id, sig, err)
			return
		}
		// the signature is found under that id
		if role == "root" {
			if err := root.VerifyDelegate("root", root); err != nil {
				c.FailTags(Tags{"C20", "C01"}, "sign-verify:"+kind, "metadata signed with the %s key do not verify with it: %v", kind, err)
				return
			}
			c.Count("signatures found under the id")
		}
	}
	rb, err := root.ToBytes(chance(r, 0.5))
	if err != nil {
		c.FailTags(Tags{"C03"}, "tobytes", "%v", err)
		return
	}
	root2, err := metadata.Root().FromBytes(rb)
	if err != nil {
		c.FailTags(Tags{"C03"}, "frombytes", "%v", err)
		return
	}
	k3 := root2.Signed.Keys[id]
	if k3 == nil || k3.ID() != id || !same(k3, "after a round through root metadata") {
		c.Fail("root-round:"+kind, "%s key %s is lost or has another id after a round through root metadata", kind, id)
		return
	}
	c.Distinct("round", kind, role, signer != nil, len(k.Value.PublicKey))
}

// keyIDCase: the id is a function of the content.
func keyIDCase(c *Case) {
	r := c.Rng
	p := &Repo{Rng: r, tag: fmt.Sprint("kid-", c.Idx), OtherKeys: chance(r, 0.5)}
	rk := p.NewKey()
	dict := rk.Dict()
	for k := r.Intn(3); k > 0; k-- {
		dict[unknownName(r, dict)] = richNonNull(r)
	}
	kv := dict["keyval"].(map[string]any)
	for k := r.Intn(3); k > 0 && chance(r, 0.5); k-- {
		kv[unknownName(r, kv)] = richNonNull(r)
	}
	if chance(r, 0.2) {
		kv["public"] = richString(r) // only its id matters here
	}
	if chance(r, 0.15) {
		dict["keytype"] = richString(r)
	}
	if chance(r, 0.15) {
		dict["scheme"] = richString(r)
	}
	dict = ref.Clone(dict).(J)
	id := ref.KeyID(dict)
	load := func(b []byte) (*metadata.Key, error) {
		k := &metadata.Key{}
		return k, json.Unmarshal(b, k)
	}
	c.Eval()
	raw := shuffled(r, dict)
	k, err := load(raw)
	if err != nil {
		c.Fail("load", "key %s refused: %v", raw, err)
		return
	}
	if k.ID() != id {
		c.Fail("id", "id of %s is %s, expected %s", raw, k.ID(), id)
		return
	}
	c.distinctID(id, dict)
	c.Count("ids compared")
	// the order and spacing of the text do not matter, nor does a round
	k2, err := load(shuffled(r, dict))
	if err != nil || k2.ID() != id {
		c.Fail("id-order", "the same key written differently: %v, id %s, expected %s (%s)", err, k2.ID(), id, raw)
		return
	}
	b, err := json.Marshal(k)
	if err != nil {
		c.Fail("marshal", "key %s cannot be written: %v", raw, err)
		return
	}
	k3, err := load(b)
	if err != nil || k3.ID() != id {
		c.Fail("id-round", "written and read again: %v, id %s, expected %s (%s)", err, k3.ID(), id, raw)
		return
	}
	// within metadata, under any name
	name := pick(r, []string{id, id, "some-name", strings.ToUpper(id)})
	d := ref.NewDoc("root", 1, time.Now().UTC().Add(time.Hour*1000), "u")
	d.Signed["consistent_snapshot"] = true
	d.Signed["keys"] = J{name: dict}
	rs := J{}
	for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
		rs[n] = J{"keyids": []any{name}, "threshold": int64(1)}
	}
	d.Signed["roles"] = rs
	root, err := metadata.Root().FromBytes(d.Bytes(0))
	if err != nil {
		c.FailTags(Tags{"C03"}, "root", "root with key %s refused: %v", raw, err)
		return
	}
	if x := root.Signed.Keys[name]; x == nil || x.ID() != id {
		c.Fail("id-table", "in the key table under %q the id is not %s (%s)", name, id, raw)
		return
	}
	// the content decides: every change shows, changing back too, whatever the key was used for
	for n := r.Intn(3); n > 0; n-- {
		switch r.Intn(4) {
		case 0:
			_ = metadata.Root().Signed.AddKey(k, pick(r, topRoles))
		case 1:
			t := metadata.Targets()
			t.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{{Name: "x", Threshold: 1}}}
			_ = t.Signed.AddKey(k, "x")
		case 2:
			root.Signed.Keys[name] = k
			_ = root.VerifyDelegate("root", root)
		case 3:
			_, _ = root.ToBytes(chance(r, 0.5))
		}
		if k.ID() != id {
			c.Fail("id-used", "after using the key its id is %s, was %s", k.ID(), id)
			return
		}
	}
	if len(k.UnrecognizedFields) == 0 && chance(r, 0.4) {
		k.UnrecognizedFields = nil
	}
	orig := *k
	old := *k
	for step := 0; step < 4; step++ {
		nd := ref.Clone(dict).(J)
		switch r.Intn(5) {
		case 0:
			k.Type += "x"
			nd["keytype"] = k.Type
		case 1:
			k.Scheme = "y" + k.Scheme
			nd["scheme"] = k.Scheme
		case 2:
			k.Value.PublicKey += " "
			nd["keyval"].(J)["public"] = k.Value.PublicKey
		case 3:
			m := map[string]any{}
			for n, v := range k.UnrecognizedFields {
				m[n] = v
			}
			m["x-changed"] = fmt.Sprint(step)
			nd["x-changed"] = fmt.Sprint(step)
			k.UnrecognizedFields = m
		case 4:
			_, _ = k.ToPublicKey()
			_, _ = json.Marshal(k)
		}
		if k.ID() != ref.KeyID(nd) {
			c.Fail("id-stale", "after changing it, the id of the key is %s, expected %s", k.ID(), ref.KeyID(nd))
			return
		}
		if old.ID() != id {
			c.Fail("id-copy", "changing one copy of a key changes the id of another")
			return
		}
		if ref.KeyID(nd) != id && k.ID() == id {
			c.Fail("id-collide", "a changed key has the same id")
			return
		}
		c.distinctID(k.ID(), nd)
		*k = orig
		if k.ID() != id {
			c.Fail("id-back", "changed back, the id of the key is %s, was %s", k.ID(), id)
			return
		}
		c.Count("changes of content")
	}
	c.Distinct("id", len(dict), dict["keytype"] == rk.Type, name == id, rk.Kind)
	c.Sample(map[string]any{"key": string(raw), "id": id})
}

// badKey is unusable key material.
func badKey(c *Case) (kind, public, what string) {
	r := c.Rng
	ed, ec, rs := ref.Ed25519(fmt.Sprint("b", r.Intn(50))), ref.ECDSA(r.Intn(ref.NumECDSA()), false), ref.RSA(r.Intn(ref.NumRSA()))
	der := func(k *ref.Key) []byte {
		b, _ := pem.Decode([]byte(k.Public))
		return b.Bytes
	}
	enc := func(b []byte) string {
		return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
	}
	edDER, _ := x509.MarshalPKIXPublicKey(ed.Signer.Public())
	switch r.Intn(18) {
	case 16: // the right key with something around it
		x := pick(r, []string{" ", "\n", "\t", "\r\n", "0x", "\x00", "=", "\"", "h", "\ufeff", "00", "ed25519:"})
		switch r.Intn(3) {
		case 0:
			return "ed25519", x + ed.Public, "something before"
		case 1:
			return "ed25519", ed.Public + x, "something after"
		}
		return "ed25519", x + ed.Public + x, "something around"
	case 17: // separated digits, or another encoding
		raw, _ := hex.DecodeString(ed.Public)
		var p []string
		for _, b := range raw {
			p = append(p, fmt.Sprintf("%02x", b))
		}
		return "ed25519", pick(r, []string{strings.Join(p, ":"), strings.Join(p, " "), ed.Public[:32] + "\n" + ed.Public[32:], base64.StdEncoding.EncodeToString(raw), string(raw), base64.URLEncoding.EncodeToString(raw)}), "other encoding"
	case 0:
		return "ed25519", ed.Public[:2*r.Intn(32)], "short ed25519 key"
	case 1:
		return "ed25519", ed.Public + strings.Repeat("00", 1+r.Intn(40)), "long ed25519 key"
	case 2:
		return "ed25519", ed.Public[:63], "odd number of digits"
	case 3:
		i := r.Intn(64)
		return "ed25519", ed.Public[:i] + pick(r, []string{"g", " ", "-", "\n", "é"}) + ed.Public[i+1:], "no hex"
	case 4:
		return "ed25519", pick(r, []string{rs.Public, ec.Public, enc(edDER)}), "PEM under ed25519"
	case 5:
		return pick(r, []string{"ecdsa", "ecdsa-sha2-nistp256"}), pick(r, []string{rs.Public, enc(edDER), ed.Public}), "other key under ecdsa"
	case 6:
		return "rsa", pick(r, []string{ec.Public, enc(edDER), ed.Public}), "other key under rsa"
	case 7:
		k := pick(r, []*ref.Key{ed, ec, rs})
		return pick(r, []string{"", "RSA", "Ed25519", "ed448", "ecdsa-sha2-nistp384", "dsa", "rsa ", "sphincs", "\x00"}), k.Public, "unknown type"
	case 8:
		k := pick(r, []*ref.Key{ec, rs})
		b := der(k)
		return k.Type, enc(b[:r.Intn(len(b))]), "truncated"
	case 9:
		k := pick(r, []*ref.Key{ec, rs})
		return k.Type, enc(append(der(k), 0)), "trailing byte"
	case 10:
		b := append([]byte{}, der(ec)...)
		b[len(b)-1-r.Intn(32)] ^= 1 << r.Intn(8)
		return "ecdsa", enc(b), "not on the curve"
	case 11:
		k := pick(r, []*ref.Key{ec, rs})
		return k.Type, strings.ReplaceAll(k.Public, "-----", pick(r, []string{"", "----", "====="})), "no PEM"
	case 12:
		k := pick(r, []*ref.Key{ec, rs})
		return k.Type, hex.EncodeToString(der(k)), "hex instead of PEM"
	case 13:
		k := pick(r, []*ref.Key{ec, rs})
		return k.Type, pick(r, []string{"", " ", "x", "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n"}), "nothing"
	case 14:
		k := pick(r, []*ref.Key{ec, rs})
		b := append([]byte{}, der(k)...)
		b[r.Intn(12)] ^= 1 << r.Intn(8)
		return k.Type, enc(b), "damaged header"
	}
	n := new(big.Int).Lsh(big.NewInt(1), uint(16385+r.Intn(3000)))
	b, _ := x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: n.Add(n, big.NewInt(1)), E: 65537})
	return "rsa", enc(b), "huge rsa key"
}

// badKeyCase: such keys are refused when they would be used.
func badKeyCase(c *Case) {
	r := c.Rng
	kind, public, what := badKey(c)
	if what != "huge rsa key" {
		if _, err := ref.ParsePub(kind, public); err == nil {
			return // the damage left a usable key
		}
	}
	k := &metadata.Key{Type: kind, Scheme: pick(r, []string{"ed25519", "ecdsa-sha2-nistp256", "rsassa-pss-sha256"}), Value: metadata.KeyVal{PublicKey: public}}
	c.Eval()
	pub, err := k.ToPublicKey()
	c.Logf("%s %s: %v", kind, what, err)
	c.Distinct("bad", kind, what)
	if err == nil {
		c.Fail("bad-accepted:"+what, "key of type %q (%s) becomes %T", kind, what, pub)
		return
	}
	c.Count("unusable keys refused")
	// nothing verifies with it
	good := ref.Ed25519(fmt.Sprint("g", c.Idx))
	root := metadata.Root(time.Now().UTC().Add(time.Hour * 10000))
	root.Signed.Keys[k.ID()] = k
	root.Signed.Roles["root"] = &metadata.Role{KeyIDs: []string{k.ID()}, Threshold: 1}
	sig := make([]byte, pick(r, []int{0, 1, 64, 70, 256}))
	r.Read(sig)
	if chance(r, 0.5) {
		b, _ := root.Signed.MarshalJSON()
		sig = good.SignPayload(b)
	}
	root.Signatures = []metadata.Signature{{KeyID: k.ID(), Signature: sig}}
	if err := root.VerifyDelegate("root", root); err == nil {
		c.FailTags(Tags{"C20", "C01"}, "bad-verifies:"+what, "a signature verifies with an unusable key (%s)", what)
	}
}

// oddPubCase: values which are no supported public keys.
func oddPubCase(c *Case) {
	r := c.Rng
	priv := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(c.Idx)}, 32))
	x, _ := ecdh.X25519().GenerateKey(crand.Reader)
	rs := ref.RSA(0).Signer.(*rsa.PrivateKey)
	ec := ref.ECDSA(0, false).Signer.(*ecdsa.PrivateKey)
	all := []crypto.PublicKey{nil, "text", 7, []byte("bytes"), priv, &priv, x.PublicKey(), rs, *rs, rs.PublicKey, ec, ec.PublicKey, struct{}{}, ed25519.PublicKey(nil), ed25519.PublicKey{}, ed25519.PublicKey{1, 2, 3}, ed25519.PublicKey(bytes.Repeat([]byte{7}, 33)), [32]byte{}, metadata.Key{}, &metadata.Key{}}
	i := r.Intn(len(all))
	c.Eval()
	k, err := metadata.KeyFromPublicKey(all[i])
	if err == nil && k != nil {
		// refused at the latest when used
		_, err = k.ToPublicKey()
	}
	c.Count("unsupported values tried")
	c.Distinct("odd", fmt.Sprintf("%T", all[i]))
	if err == nil {
		c.Fail("odd:"+fmt.Sprintf("%T", all[i]), "a %T is taken for a public key: %+v", all[i], k)
	}
}

func init() {
	registry["C20"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "public keys of every supported type converted to metadata and back, alone and within root metadata, and used for signing; ids compared with an independent computation over any content and ordering, before and after changes, and for collisions within the run; malformed, mismatched and unsupported key material; non-trivial cases are distinct types, shapes and kinds of damage",
		F: func(r *Run) {
			r.Cases("round", r.N(3000, 100000), keyRoundCase)
			r.Cases("id", r.N(5000, 200000), keyIDCase)
			r.Cases("bad", r.N(5000, 200000), badKeyCase)
			r.Cases("odd", r.N(300, 1000), oddPubCase)
			r.Need("keys converted and back: ed25519", 800)
			r.Need("keys converted and back: ecdsa", 800)
			r.Need("keys converted and back: rsa", 800)
			r.Need("signatures found under the id", 300)
			r.Need("ids compared", 4500)
			r.Need("changes of content", 15000)
			r.Need("unusable keys refused", 4000)
		}}
}
