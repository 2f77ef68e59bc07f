package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/sigstore/sigstore/pkg/signature"

	"verif/harness/ref"
)

var allTypes = []string{"root", "timestamp", "snapshot", "targets"}

// libSigner is a library-side signer for a key.
func libSigner(k *ref.Key) signature.Signer {
	var s signature.Signer
	var err error
	switch p := k.Signer.(type) {
	case ed25519.PrivateKey:
		s, err = signature.LoadSigner(p, crypto.Hash(0))
	case *ecdsa.PrivateKey:
		s, err = signature.LoadSigner(p, crypto.SHA256)
	case *rsa.PrivateKey:
		if k.Kind == "rsa-pss" {
			s, err = signature.LoadRSAPSSSigner(p, crypto.SHA256, nil)
		} else {
			s, err = signature.LoadSigner(p, crypto.SHA256)
		}
	}
	if err != nil {
		panic(err)
	}
	return s
}

func libSign(m anyMeta, s signature.Signer) error {
	var err error
	switch x := m.(type) {
	case *metadata.Metadata[metadata.RootType]:
		_, err = x.Sign(s)
	case *metadata.Metadata[metadata.TimestampType]:
		_, err = x.Sign(s)
	case *metadata.Metadata[metadata.SnapshotType]:
		_, err = x.Sign(s)
	case *metadata.Metadata[metadata.TargetsType]:
		_, err = x.Sign(s)
	}
	return err
}

// relayout passes a document through one write/read step.
func relayout(c *Case, typ string, m anyMeta, step int) (anyMeta, string, error) {
	r := c.Rng
	var raw []byte
	var err error
	how := ""
	switch r.Intn(6) {
	case 0:
		how = "compact"
		raw, err = m.ToBytes(false)
	case 1:
		how = "pretty"
		raw, err = m.ToBytes(true)
	case 2, 3:
		pretty := r.Intn(2) == 0
		how = fmt.Sprintf("file(%v)", pretty)
		f := filepath.Join(c.Dir(), fmt.Sprintf("%d.json", step))
		if err := m.ToFile(f, pretty); err != nil {
			return nil, how, err
		}
		if r.Intn(2) == 0 {
			n, err := libLoadFile(typ, f)
			return n, how, err
		}
		raw, err = os.ReadFile(f)
	default:
		raw, err = m.ToBytes(false)
		if err == nil {
			v, perr := ref.ParseJSON(raw)
			if perr != nil {
				return nil, how, perr
			}
			if r.Intn(2) == 0 {
				how = "indent"
				raw = ref.Encode(v, ref.Indent)
			} else {
				how = "shuffled"
				raw = shuffled(r, v)
			}
		}
	}
	if err != nil {
		return nil, how, err
	}
	n, err := libLoad(typ, raw)
	return n, how, err
}

// libDelegator delegates role to keys with the library's own means.
func libDelegator(c *Case, role string, delegated bool, keys []*ref.Key, threshold int) (anyMeta, error) {
	r := c.Rng
	var ks []*metadata.Key
	for _, k := range keys {
		var mk *metadata.Key
		var err error
		if k.Extra == nil && r.Intn(2) == 0 && k.Kind != "ecdsa-compat" {
			mk, err = metadata.KeyFromPublicKey(k.Signer.Public())
		} else {
			mk = &metadata.Key{}
			b, _ := json.Marshal(k.Dict())
			err = json.Unmarshal(b, mk)
		}
		if err != nil {
			return nil, err
		}
		ks = append(ks, mk)
	}
	if !delegated {
		root := metadata.Root(time.Now().Add(time.Hour))
		for _, k := range ks {
			if err := root.Signed.AddKey(k, role); err != nil {
				return nil, err
			}
		}
		root.Signed.Roles[role].Threshold = threshold
		return root, nil
	}
	t := metadata.Targets(time.Now().Add(time.Hour))
	t.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{{Name: role, KeyIDs: []string{}, Threshold: threshold, Paths: []string{"*"}}}}
	for _, k := range ks {
		if err := t.Signed.AddKey(k, role); err != nil {
			return nil, err
		}
	}
	return t, nil
}

func distinctKeys(c *Case, n int) []*ref.Key {
	var out []*ref.Key
	seen := map[string]bool{}
	for i := 0; len(out) < n && i < 50; i++ {
		k := anyKey(c, fmt.Sprint("d", i))
		if !seen[k.Public] {
			seen[k.Public] = true
			out = append(out, k)
		}
	}
	return out
}

// signCase: library signatures survive any number of write/read steps.
func signCase(c *Case) {
	r := c.Rng
	typ := pick(r, allTypes)
	var m anyMeta
	var err error
	src := "document"
	if chance(r, 0.75) {
		d := richDoc(r, typ, pick(r, []float64{0, 0.1, 0.4}))
		m, err = libLoad(typ, d.Bytes(ref.Compact))
		if err != nil {
			c.FailTags(Tags{"C02", "C03"}, "load:"+typ, "well-formed %s refused: %v: %s", typ, err, shortJSON(d.Bytes(ref.Compact)))
			return
		}
	} else {
		src = "constructor"
		m = apiDoc(r, typ)
	}
	keys := distinctKeys(c, 1+r.Intn(3))
	kinds := ""
	for _, k := range keys {
		if k.Kind == "ecdsa-compat" { // the signer computes the id of its own key form
			*k = *ref.ECDSA(0, false)
		}
	}
	seen := map[string]bool{}
	var ks []*ref.Key
	for _, k := range keys {
		if !seen[k.ID()] {
			seen[k.ID()] = true
			ks = append(ks, k)
			kinds += k.Kind + " "
		}
	}
	keys = ks
	before, err := m.ToBytes(false)
	if err != nil {
		c.FailTags(Tags{"C02", "C03"}, "write:"+typ, "%s cannot be written: %v", typ, err)
		return
	}
	for _, k := range keys {
		if err := libSign(m, libSigner(k)); err != nil {
			c.Fail("sign:"+k.Kind, "signing %s with %s fails: %v", typ, k.Kind, err)
			return
		}
	}
	after, _ := m.ToBytes(false)
	if !sameSigned(before, after) {
		c.FailTags(Tags{"C02", "C03"}, "sign-changes", "signing changed the content of %s", typ)
	}
	delegated := typ == "targets" && r.Intn(2) == 0
	role := typ
	if delegated {
		role = "a-role"
	}
	del, err := libDelegator(c, role, delegated, keys, len(keys))
	if err != nil {
		c.FailTags(Tags{"C02", "C19"}, "delegator", "no delegator for keys of %s: %v", kinds, err)
		return
	}
	if r.Intn(2) == 0 { // the delegator is written and read too
		dt := "root"
		if delegated {
			dt = "targets"
		}
		d2, how, err := relayout(c, dt, del, 90)
		if err != nil {
			c.FailTags(Tags{"C02", "C03"}, "delegator-reload", "delegator cannot be written and read (%s): %v", how, err)
			return
		}
		del = d2
	}
	trail := ""
	cur := m
	for i := 0; i <= 1+r.Intn(4); i++ {
		c.Eval()
		c.Count("honest verifications")
		if err := del.VerifyDelegate(role, cur); err != nil {
			c.Logf("document %s", after)
			c.Fail("honest-reject:"+typ+":"+kindSet(keys), "%s from %s signed with %s does not verify after layouts [%s]: %v", typ, src, kinds, trail, err)
			return
		}
		n, how, err := relayout(c, typ, cur, i)
		trail += how + " "
		if err != nil {
			c.Logf("document %s", after)
			c.FailTags(Tags{"C02", "C03"}, "reload:"+typ, "signed %s from %s cannot be written and read again (%s): %v", typ, src, trail, err)
			return
		}
		cur = n
	}
	// an independent implementation agrees with the signatures
	v, err := ref.ParseJSON(after)
	if err == nil {
		o := v.(J)
		payload := ref.Canon(o["signed"])
		for i, k := range keys {
			s := o["signatures"].([]any)[i].(J)
			pk, err := ref.ParsePub(k.Type, k.Public)
			if err != nil {
				panic(err)
			}
			sig := hexBytes(s["sig"].(string))
			c.Count("signatures checked independently")
			if s["keyid"] != k.ID() {
				c.FailTags(Tags{"C02", "C20"}, "sign-keyid", "signature of %s under id %v, expected %s", k.Kind, s["keyid"], k.ID())
			}
			if !pk.Verify(payload, sig) {
				c.Fail("independent:"+k.Kind, "signature of %s over %s is not over its canonical form", k.Kind, typ)
			}
		}
	}
	c.Distinct("sign", typ, src, kindSet(keys), trail)
	c.Sample(map[string]any{"type": typ, "keys": kinds, "layouts": trail, "bytes": len(after)})
}

func kindSet(keys []*ref.Key) string {
	m := map[string]bool{}
	for _, k := range keys {
		m[k.Kind] = true
	}
	return strings.Join(ref.SortedKeys(m), "+")
}

func hexBytes(s string) []byte {
	b := make([]byte, len(s)/2)
	fmt.Sscanf(s, "%x", &b)
	return b
}

func sameSigned(a, b []byte) bool {
	x, e1 := ref.ParseJSON(a)
	y, e2 := ref.ParseJSON(b)
	if e1 != nil || e2 != nil {
		return false
	}
	return ref.Same(x.(J)["signed"], y.(J)["signed"])
}

// apiDoc is made by the library's constructors and field assignments.
func apiDoc(r *rand.Rand, typ string) anyMeta {
	exp := time.Date(2000+r.Intn(90), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	extra := func() map[string]any {
		if r.Intn(2) == 0 {
			return nil
		}
		m := map[string]any{"x-a": "v", "x-n": 7, "x-f": []any{"x", 1.0, nil}}
		return m
	}
	switch typ {
	case "root":
		m := metadata.Root(exp)
		m.Signed.Version = int64(1 + r.Intn(9))
		m.Signed.ConsistentSnapshot = r.Intn(2) == 0
		for i := r.Intn(3); i > 0; i-- {
			k, _ := metadata.KeyFromPublicKey(ref.Ed25519(fmt.Sprint("api", i)).Signer.Public())
			m.Signed.AddKey(k, pick(r, allTypes))
		}
		m.Signed.UnrecognizedFields = extra()
		m.UnrecognizedFields = extra()
		return m
	case "timestamp":
		m := metadata.Timestamp(exp)
		m.Signed.Version = int64(1 + r.Intn(9))
		m.Signed.Meta["snapshot.json"].UnrecognizedFields = extra()
		m.Signed.Meta["snapshot.json"].Length = int64(r.Intn(2) * 99)
		m.Signed.UnrecognizedFields = extra()
		return m
	case "snapshot":
		m := metadata.Snapshot(exp)
		m.Signed.Version = int64(1 + r.Intn(9))
		m.Signed.Meta["a.json"] = metadata.MetaFile(3)
		m.Signed.Meta["b.json"] = &metadata.MetaFiles{Version: 4, Length: 5, Hashes: metadata.Hashes{"sha256": []byte{1, 2, 3}}}
		m.Signed.UnrecognizedFields = extra()
		return m
	}
	m := metadata.Targets(exp)
	m.Signed.Version = int64(1 + r.Intn(9))
	for i := r.Intn(3); i > 0; i-- {
		tf, _ := metadata.TargetFile().FromBytes("x", []byte(richString(r)), pick(r, []string{"sha256", "sha512"}))
		if r.Intn(3) == 0 {
			raw := json.RawMessage(`{"k": [1, "two", {"b": true, "a": null}]}`)
			tf.Custom = &raw
		}
		m.Signed.Targets[richString(r)] = tf
	}
	if r.Intn(2) == 0 {
		m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
		if r.Intn(2) == 0 {
			m.Signed.Delegations.Roles = []metadata.DelegatedRole{{Name: "r", KeyIDs: []string{}, Threshold: 1, Paths: []string{"*"}, UnrecognizedFields: extra()}}
		} else {
			m.Signed.Delegations.SuccinctRoles = &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: 4, NamePrefix: "b"}
		}
		role := "r"
		k, _ := metadata.KeyFromPublicKey(ref.Ed25519("apid").Signer.Public())
		m.Signed.AddKey(k, role)
	}
	m.Signed.UnrecognizedFields = extra()
	return m
}

// refSignedCase: documents signed elsewhere over the canonical form verify.
func refSignedCase(c *Case) {
	r := c.Rng
	typ := pick(r, allTypes)
	d := richDoc(r, typ, pick(r, []float64{0, 0.1, 0.4}))
	keys := distinctKeys(c, 1+r.Intn(2))
	d.Sign(keys...)
	raw := d.Bytes(ref.Fmt(r.Intn(3)))
	if r.Intn(3) == 0 {
		raw = shuffled(r, d.JSON())
	}
	m, err := libLoad(typ, raw)
	c.Eval()
	c.Logf("document %s", raw)
	if err != nil {
		c.FailTags(Tags{"C02", "C03"}, "load:"+typ, "well-formed %s refused: %v", typ, err)
		return
	}
	del, err := libLoad("root", delegRoot(typ, keys, len(keys)))
	if err != nil {
		c.FailTags(Tags{"C02", "C03"}, "load:delegator", "delegator refused: %v", err)
		return
	}
	c.Count("foreign signatures verified")
	c.Distinct("foreign", typ, kindSet(keys), len(raw)/512)
	if err := del.VerifyDelegate(typ, m); err != nil {
		c.Fail("foreign-reject:"+typ, "%s signed by another implementation with %s does not verify: %v", typ, kindSet(keys), err)
	}
}

func delegRoot(role string, keys []*ref.Key, threshold int) []byte {
	d := minimalDoc("root", "")
	for id, k := range keyTable(keys) {
		d.Signed["keys"].(J)[id] = k
	}
	d.Signed["roles"].(J)[role] = J{"keyids": keyIDs(keys), "threshold": int64(threshold)}
	return d.Bytes(ref.Compact)
}

// ---- alterations ----

type slot struct {
	parent any // J or []any
	key    string
	idx    int
	path   string
}

func slots(v any, path string, out *[]slot) {
	switch x := v.(type) {
	case J:
		for _, k := range ref.SortedKeys(x) {
			*out = append(*out, slot{parent: x, key: k, path: path + "/" + k})
			slots(x[k], path+"/"+k, out)
		}
	case []any:
		for i := range x {
			*out = append(*out, slot{parent: x, idx: i, path: fmt.Sprintf("%s/%d", path, i)})
			slots(x[i], fmt.Sprintf("%s/%d", path, i), out)
		}
	}
}

func objects(v any, out *[]J) {
	switch x := v.(type) {
	case J:
		*out = append(*out, x)
		for _, k := range ref.SortedKeys(x) {
			objects(x[k], out)
		}
	case []any:
		for _, e := range x {
			objects(e, out)
		}
	}
}

func (s slot) get() any {
	if m, ok := s.parent.(J); ok {
		return m[s.key]
	}
	return s.parent.([]any)[s.idx]
}

func (s slot) set(v any) {
	if m, ok := s.parent.(J); ok {
		m[s.key] = v
		return
	}
	s.parent.([]any)[s.idx] = v
}

// alter changes a generic document in one place.
func alter(r *rand.Rand, signed J) string {
	var sl []slot
	slots(signed, "", &sl)
	for {
		s := sl[r.Intn(len(sl))]
		switch r.Intn(8) {
		case 0: // drop
			if m, ok := s.parent.(J); ok {
				delete(m, s.key)
				return "drop " + s.path
			}
		case 1: // another name for a member
			if m, ok := s.parent.(J); ok {
				n := s.key + pick(r, []string{" ", "x", "_", "\u0000"})
				if r.Intn(2) == 0 {
					n = strings.ToUpper(s.key)
				}
				if _, ok := m[n]; !ok && n != s.key {
					m[n] = m[s.key]
					delete(m, s.key)
					return "rename " + s.path
				}
			}
		case 2: // a further member
			var os []J
			objects(signed, &os)
			o := os[r.Intn(len(os))]
			n := unknownName(r, o)
			if r.Intn(3) == 0 { // a known member in another spelling, with the value of another
				if ks := ref.SortedKeys(o); len(ks) > 0 {
					k := pick(r, ks)
					n = strings.ToUpper(k)
					if r.Intn(2) == 0 && len(k) > 0 {
						n = strings.ToUpper(k[:1]) + k[1:]
					}
					if _, ok := o[n]; ok {
						continue
					}
					o[n] = ref.Clone(o[k])
					if x, ok := o[n].(int64); ok {
						o[n] = x + 1
					}
					return "respell " + k
				}
			}
			o[n] = pick(r, []any{"v", int64(1), true, J{}, []any{}, J{"a": "b"}})
			return "add " + n
		case 3: // another value of the same kind
			switch x := s.get().(type) {
			case string:
				s.set(alterString(r, x))
				return "string " + s.path
			case int64:
				s.set(pick(r, []int64{x + 1, x - 1, -x, x ^ 1, x + 1<<32}))
				return "number " + s.path
			case json.Number:
				t := []byte(x.String())
				i := len(t) - 1 - r.Intn(3)
				if i < 1 {
					i = len(t) - 1
				}
				if t[i] == '9' {
					t[i] = '8'
				} else {
					t[i]++
				}
				s.set(json.Number(t))
				return "big number " + s.path
			case bool:
				s.set(!x)
				return "flag " + s.path
			case []any:
				switch r.Intn(4) {
				case 0:
					s.set(append(append([]any{}, x...), pick(r, []any{"more", int64(3), J{}})))
					return "append " + s.path
				case 1:
					if len(x) > 0 {
						s.set(append([]any{}, x[1:]...))
						return "shorten " + s.path
					}
				case 2:
					if len(x) > 1 {
						y := append([]any{}, x...)
						y[0], y[1] = y[1], y[0]
						s.set(y)
						return "reorder " + s.path
					}
				case 3:
					if len(x) > 0 {
						s.set(append(append([]any{}, x...), x[0]))
						return "repeat " + s.path
					}
				}
			}
		case 4: // a value of another kind
			switch x := s.get().(type) {
			case string:
				s.set(pick(r, []any{int64(1), true, []any{x}, J{}}))
			case int64:
				s.set(pick(r, []any{fmt.Sprint(x), []any{x}, true}))
			case bool:
				s.set(pick(r, []any{fmt.Sprint(x), int64(1), int64(0)}))
			case nil:
				s.set(pick(r, []any{"null", int64(0), false, J{}}))
			default:
				s.set(pick(r, []any{"x", int64(0), J{"z": "z"}, []any{"z"}}))
			}
			return "retype " + s.path
		case 5: // swap two values
			o := sl[r.Intn(len(sl))]
			if strings.HasPrefix(s.path, o.path) || strings.HasPrefix(o.path, s.path) {
				continue
			}
			a, b := s.get(), o.get()
			s.set(b)
			o.set(a)
			return "swap " + s.path + " " + o.path
		case 6: // copy another value
			o := sl[r.Intn(len(sl))]
			if strings.HasPrefix(s.path, o.path) || strings.HasPrefix(o.path, s.path) {
				continue
			}
			s.set(ref.Clone(o.get()))
			return "copy " + s.path + " " + o.path
		case 7: // empty it
			switch s.get().(type) {
			case J:
				s.set(J{})
				return "empty " + s.path
			case []any:
				s.set([]any{})
				return "empty " + s.path
			}
		}
	}
}

func alterString(r *rand.Rand, s string) string {
	rs := []rune(s)
	switch r.Intn(6) {
	case 0:
		return s + pick(r, []string{" ", "x", "\u0000", "\\", "\"", "0"})
	case 1:
		if len(rs) > 0 {
			i := r.Intn(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 2:
		if len(rs) > 0 {
			i := r.Intn(len(rs))
			rs[i] = rune('a' + (int(rs[i])+1)%26)
			return string(rs)
		}
	case 3:
		return strings.ToUpper(s)
	case 4:
		return s + s
	case 5:
		if t, err := time.Parse(time.RFC3339, s); err == nil {
			return t.Add(time.Duration(r.Intn(3)-1)*time.Second + time.Duration(r.Intn(2))*24*time.Hour).Format("2006-01-02T15:04:05Z")
		}
	}
	return s + "y"
}

// normal is a form in which spellings without a difference in meaning are
// equal: nulls and defaults left out, hex in lower case, times compared as such.
func normal(v any, key string) any {
	switch x := v.(type) {
	case J:
		m := J{}
		both := x["roles"] != nil && x["succinct_roles"] != nil
		for k, e := range x {
			if e == nil || (both && k == "succinct_roles") {
				continue
			}
			n := normal(e, k)
			switch k {
			case "length":
				if isZero(n) {
					continue
				}
			case "hashes":
				if o, ok := n.(J); ok {
					if len(o) == 0 {
						continue
					}
					for a, h := range o {
						if s, ok := h.(string); ok {
							o[a] = strings.ToLower(s)
						}
					}
				}
			case "keytype", "scheme", "public", "name", "name_prefix", "spec_version":
				if n == "" {
					continue
				}
			case "keyval":
				if o, ok := n.(J); ok && len(o) == 0 {
					continue
				}
			case "roles", "paths", "path_hash_prefixes":
				if l, ok := n.([]any); ok && len(l) == 0 {
					continue
				}
			case "terminating", "consistent_snapshot":
				if n == false {
					continue
				}
			case "expires":
				if s, ok := n.(string); ok {
					if t, err := time.Parse(time.RFC3339, s); err == nil {
						n = fmt.Sprint("t", t.UnixNano())
					}
				}
			}
			m[k] = n
		}
		return m
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, normal(e, ""))
		}
		return l
	}
	return v
}

func isZero(v any) bool {
	switch x := v.(type) {
	case int64:
		return x == 0
	case json.Number:
		return x.String() == "0"
	}
	return false
}

// alterCase: a changed document never verifies.
func alterCase(c *Case) {
	r := c.Rng
	typ := pick(r, allTypes)
	d := richDoc(r, typ, pick(r, []float64{0.05, 0.2, 0.4}))
	k := anyKey(c, "alter")
	d.Sign(k)
	del, err := libLoad("root", delegRoot(typ, []*ref.Key{k}, 1))
	if err != nil {
		c.FailTags(Tags{"C03"}, "load:delegator", "delegator refused: %v", err)
		return
	}
	orig := normal(ref.Clone(d.Signed), "")
	for i := 0; i < 12; i++ {
		n := d.Clone()
		what := alter(r, n.Signed)
		if r.Intn(4) == 0 {
			what += ", " + alter(r, n.Signed)
		}
		c.Eval()
		if ref.Same(orig, normal(ref.Clone(n.Signed), "")) {
			c.Count("alterations without effect")
			continue
		}
		var raw []byte
		if r.Intn(3) == 0 {
			raw = shuffled(r, n.JSON())
		} else {
			raw = n.Bytes(ref.Fmt(r.Intn(3)))
		}
		m, err := libLoad(typ, raw)
		if err != nil {
			c.Count("altered documents refused on loading")
			continue
		}
		c.Count("altered documents loaded")
		c.Distinct("alter", typ, strings.Fields(what)[0], depthOf(what))
		if err := del.VerifyDelegate(typ, m); err == nil {
			c.Logf("original %s", d.Bytes(ref.Compact))
			c.Logf("altered %s", raw)
			c.Fail("altered-accepted:"+typ+":"+strings.Fields(what)[0], "%s with an alteration (%s) still verifies", typ, what)
			return
		}
	}
	// confusion about where the signed part is
	j := d.JSON()
	evil := ref.Clone(j["signed"]).(J)
	evil["version"] = int64(424242)
	for _, n := range []string{"Signed", "SIGNED", "\u017figned", "signed ", "signed\u0000"} {
		o := ref.Clone(j).(J)
		o[n] = evil
		raw := shuffled(r, o)
		m, err := libLoad(typ, raw)
		c.Eval()
		if err != nil {
			continue
		}
		out, err := m.ToBytes(false)
		if err != nil {
			continue
		}
		v, _ := ref.ParseJSON(out)
		s, _ := v.(J)["signed"].(J)
		if num, ok := s["version"].(json.Number); ok && num.String() == "424242" && del.VerifyDelegate(typ, m) == nil {
			c.Fail("signed-confusion", "member %q replaces the signed part of %s and still verifies", n, typ)
		}
		c.Count("signed part confusions tried")
	}
	// signatures of one document on another
	o := richDoc(r, typ, 0.2)
	if !ref.Same(orig, normal(ref.Clone(o.Signed), "")) {
		o.Sigs = ref.Clone(any(d.Sigs)).([]any)
		if m, err := libLoad(typ, o.Bytes(ref.Compact)); err == nil && del.VerifyDelegate(typ, m) == nil {
			c.Fail("transplanted:"+typ, "signatures of one %s accepted on another", typ)
		}
	}
}

func depthOf(what string) int { return strings.Count(strings.SplitN(what, ",", 2)[0], "/") }

// mutateObjectCase: changing a loaded, signed object in memory invalidates it.
func mutateObjectCase(c *Case) {
	r := c.Rng
	k := ref.Ed25519("mem")
	typ := pick(r, allTypes)
	m := apiDoc(r, typ)
	if err := libSign(m, libSigner(k)); err != nil {
		c.Fail("sign", "%v", err)
		return
	}
	del, _ := libLoad("root", delegRoot(typ, []*ref.Key{k}, 1))
	if err := del.VerifyDelegate(typ, m); err != nil {
		c.Fail("memory-honest", "%s just signed does not verify: %v", typ, err)
		return
	}
	what := ""
	switch x := m.(type) {
	case *metadata.Metadata[metadata.RootType]:
		switch r.Intn(6) {
		case 0:
			x.Signed.Version++
			what = "version"
		case 1:
			x.Signed.Expires = x.Signed.Expires.Add(time.Second)
			what = "expires"
		case 2:
			x.Signed.ConsistentSnapshot = !x.Signed.ConsistentSnapshot
			what = "consistent"
		case 3:
			x.Signed.Roles["targets"].Threshold++
			what = "threshold"
		case 4:
			nk, _ := metadata.KeyFromPublicKey(ref.Ed25519("other").Signer.Public())
			x.Signed.AddKey(nk, "snapshot")
			what = "key"
		case 5:
			x.Signed.UnrecognizedFields = map[string]any{"x-new": 1}
			what = "unrecognised"
		}
	case *metadata.Metadata[metadata.TimestampType]:
		switch r.Intn(4) {
		case 0:
			x.Signed.Version++
			what = "version"
		case 1:
			x.Signed.Meta["snapshot.json"].Version++
			what = "meta"
		case 2:
			x.Signed.Meta["snapshot.json"].Hashes = metadata.Hashes{"sha256": []byte{9}}
			what = "hashes"
		case 3:
			x.Signed.Meta["snapshot.json"].Length++
			what = "length"
		}
	case *metadata.Metadata[metadata.SnapshotType]:
		switch r.Intn(3) {
		case 0:
			delete(x.Signed.Meta, "a.json")
			what = "unlist"
		case 1:
			x.Signed.Meta["c.json"] = metadata.MetaFile(1)
			what = "list"
		case 2:
			x.Signed.Meta["b.json"].Hashes["sha256"][0] ^= 1
			what = "hash byte"
		}
	case *metadata.Metadata[metadata.TargetsType]:
		switch r.Intn(4) {
		case 0:
			tf, _ := metadata.TargetFile().FromBytes("x", []byte("new"), "sha256")
			x.Signed.Targets["brand-new"] = tf
			what = "target"
		case 1:
			x.Signed.SpecVersion += "9"
			what = "spec"
		case 2:
			x.Signed.Version--
			what = "version"
		case 3:
			if x.Signed.Delegations != nil && len(x.Signed.Delegations.Roles) > 0 {
				x.Signed.Delegations.Roles[0].Terminating = !x.Signed.Delegations.Roles[0].Terminating
				what = "terminating"
			} else {
				x.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{"q"}, Threshold: 1, BitLength: 9, NamePrefix: "q"}}
				what = "delegations"
			}
		}
	}
	c.Eval()
	c.Count("objects changed in memory")
	c.Distinct("memory", typ, what)
	if err := del.VerifyDelegate(typ, m); err == nil {
		c.Fail("memory-accepted:"+typ+":"+what, "%s changed in memory (%s) still verifies", typ, what)
	}
}

// unsignableCase: content without a canonical form cannot be signed; whatever
// was signed verifies, and nothing is signed by an error.
func unsignableCase(c *Case) {
	r := c.Rng
	typ := pick(r, allTypes)
	d := richDoc(r, typ, pick(r, []float64{0.1, 0.4}))
	var os []J
	objects(d.Signed, &os)
	var members []J
	for _, o := range os {
		for _, k := range ref.SortedKeys(o) {
			if strings.HasPrefix(k, "x-") {
				members = append(members, o)
				break
			}
		}
	}
	members = append(members, d.Signed)
	how := "loaded"
	var odd any = json.Number(pick(r, []string{"0.5", "-3.25", "1e-3", "1.5e3", "12345678901234567890.5", "1e400", "0.1", "1e3", "2.0", "-0.0", "1E2"}))
	if r.Intn(2) == 0 {
		odd = pick(r, []any{[]any{odd}, J{"deep": []any{J{"n": odd}}}})
	}
	pick(r, members)["x-odd"] = odd
	m, err := libLoad(typ, d.Bytes(ref.Fmt(r.Intn(2))))
	c.Eval()
	if err != nil {
		c.Count("documents with odd numbers refused")
		return
	}
	if r.Intn(3) == 0 {
		how = "set"
		odd = pick(r, []any{0.5, math.NaN(), math.Inf(1), make(chan int), func() {}, map[int]int{1: 2}, struct{ A float64 }{0.25}, 3.0, json.Number("x"), json.Number("1.5"), complex(1, 2)})
		setUnrecognised(m, J{"x-set": odd})
	}
	before := c02Signatures(m)
	key := ref.Ed25519("odd")
	if r.Intn(3) == 0 {
		key = ref.ECDSA(0, false)
	}
	err = libSign(m, libSigner(key))
	after := c02Signatures(m)
	c.Logf("%s with %s %v: sign %v", typ, how, odd, err)
	c.Distinct("odd", typ, how, fmt.Sprintf("%T %v", odd, err == nil))
	if err != nil {
		if before != after {
			c.Fail("unsignable-changed", "failing to sign %s with %v changes its signatures", typ, odd)
		}
		c.Count("odd content not signed")
		return
	}
	c.Count("odd content signed")
	del, err := libDelegator(c, typ, false, []*ref.Key{key}, 1)
	if err != nil {
		c.FailTags(Tags{"C02", "C19"}, "delegator", "no delegator: %v", err)
		return
	}
	if err := del.VerifyDelegate(typ, m); err != nil {
		c.Fail("odd-reject", "%s with %v, signed by the library, does not verify: %v", typ, odd, err)
		return
	}
	if n, how, err := relayout(c, typ, m, 0); err == nil {
		if err := del.VerifyDelegate(typ, n); err != nil {
			c.Fail("odd-reject-reloaded", "%s with %v, signed by the library, does not verify once written and read (%s): %v", typ, odd, how, err)
		}
	}
}

func c02Signatures(m anyMeta) string {
	switch x := m.(type) {
	case *metadata.Metadata[metadata.RootType]:
		return fmt.Sprint(x.Signatures)
	case *metadata.Metadata[metadata.TimestampType]:
		return fmt.Sprint(x.Signatures)
	case *metadata.Metadata[metadata.SnapshotType]:
		return fmt.Sprint(x.Signatures)
	case *metadata.Metadata[metadata.TargetsType]:
		return fmt.Sprint(x.Signatures)
	}
	panic("no document")
}

func setUnrecognised(m anyMeta, f map[string]any) {
	switch x := m.(type) {
	case *metadata.Metadata[metadata.RootType]:
		x.Signed.UnrecognizedFields = f
	case *metadata.Metadata[metadata.TimestampType]:
		x.Signed.UnrecognizedFields = f
	case *metadata.Metadata[metadata.SnapshotType]:
		x.Signed.UnrecognizedFields = f
	case *metadata.Metadata[metadata.TargetsType]:
		x.Signed.UnrecognizedFields = f
	}
}

func init() {
	registry["C02"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "rich documents of every role type signed by the library with every key kind and carried through chains of layouts, documents signed by an independent implementation, and random alterations of signed documents anywhere in their tree; the oracle is an independent canonical form and a normal form of the content; non-trivial cases are distinct combinations of type, key kinds and layout chain, or type, alteration and depth",
		F: func(r *Run) {
			r.Cases("sign", r.N(6000, 150000), signCase)
			r.Cases("foreign", r.N(6000, 150000), refSignedCase)
			r.Cases("alter", r.N(5000, 150000), alterCase)
			r.Cases("memory", r.N(800, 10000), mutateObjectCase)
			r.Cases("unsignable", r.N(1500, 30000), unsignableCase)
			tRun(r, "t-mixed", r.N(200, 5000), profMixed)
			r.Need("honest verifications", 5000)
			r.Need("foreign signatures verified", 3000)
			r.Need("altered documents loaded", 5000)
		}}
}

var _ = bytes.Equal
var _ = sort.Strings
