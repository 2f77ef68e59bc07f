package ref

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"time"
)

// J is a generic JSON object.
type J = map[string]any

// Doc is a metadata document under construction.
type Doc struct {
	Signed J
	Sigs   []any
	Extra  J
}

// Fmt controls layout of the serialised document.
type Fmt int

const (
	Compact Fmt = iota
	Indent
	Canonical
)

// TimeStr formats an expiry as the specification asks.
func TimeStr(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05Z") }

// NewDoc makes an unsigned document with the common members.
func NewDoc(typ string, version int64, expires time.Time, uid string) *Doc {
	return &Doc{Signed: J{"_type": typ, "spec_version": "1.0.31", "version": version, "expires": TimeStr(expires), "x-uid": uid}}
}

// Clone deep-copies the document.
func (d *Doc) Clone() *Doc {
	n := &Doc{Signed: Clone(d.Signed).(J)}
	n.Sigs = Clone(append([]any{}, d.Sigs...)).([]any)
	if d.Extra != nil {
		n.Extra = Clone(d.Extra).(J)
	}
	return n
}

// Payload is what signatures are made over.
func (d *Doc) Payload() []byte { return Canon(d.Signed) }

// Sign appends signatures by the keys.
func (d *Doc) Sign(keys ...*Key) *Doc {
	p := d.Payload()
	for _, k := range keys {
		d.Sigs = append(d.Sigs, J{"keyid": k.ID(), "sig": hex.EncodeToString(k.SignPayload(p))})
	}
	return d
}

// SignAs appends a signature by k under a chosen key id.
func (d *Doc) SignAs(id string, k *Key) *Doc {
	d.Sigs = append(d.Sigs, J{"keyid": id, "sig": hex.EncodeToString(k.SignPayload(d.Payload()))})
	return d
}

// JSON is the generic document value.
func (d *Doc) JSON() J {
	m := J{"signed": d.Signed, "signatures": d.Sigs}
	if d.Sigs == nil {
		m["signatures"] = []any{}
	}
	for k, v := range d.Extra {
		m[k] = v
	}
	return m
}

// Bytes serialises the document.
func (d *Doc) Bytes(f Fmt) []byte { return Encode(d.JSON(), f) }

// Encode serialises a generic JSON value.
func Encode(v any, f Fmt) []byte {
	switch f {
	case Canonical:
		b := Canon(v)
		for _, x := range b {
			if x < 0x20 { // canonical form of control characters is no JSON
				return Encode(v, Compact)
			}
		}
		return b
	case Indent:
		b, err := json.MarshalIndent(v, "", "  ")
		if err != nil {
			panic(err)
		}
		return b
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// Sha256Hex and Sha512Hex are hex digests.
func Sha256Hex(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }
func Sha512Hex(b []byte) string { h := sha512.Sum512(b); return hex.EncodeToString(h[:]) }

// KeyInfo, RoleInfo, MetaInfo, TargetInfo, Deleg are parsed views.
type KeyInfo struct {
	Type, Scheme, Public string
}
type RoleInfo struct {
	Name        string
	KeyIDs      []string
	Threshold   int64
	Terminating bool
	Paths       []string
	Prefixes    []string
	HasPaths    bool
	HasPrefixes bool
}
type MetaInfo struct {
	Version   int64
	Length    int64 // 0: not given
	Hashes    map[string]string
	HasHashes bool
}
type TargetInfo struct {
	Length int64
	Hashes map[string]string
	Raw    any
}
type Succinct struct {
	RoleInfo
	BitLength int64
	Prefix    string
}
type Deleg struct {
	Keys     map[string]KeyInfo
	Roles    []RoleInfo
	HasRoles bool
	Succinct *Succinct
}

// View is a parsed document.
type View struct {
	Raw        []byte
	Type       string
	Version    int64
	Expires    time.Time
	UID        string
	Consistent bool
	Keys       map[string]KeyInfo  // root
	Roles      map[string]RoleInfo // root
	Meta       map[string]MetaInfo
	Targets    map[string]TargetInfo
	Deleg      *Deleg
	Payload    []byte
	Sigs       map[string][]byte
	DupSig     bool
	Signed     J
}

type perr struct{ s string }

func bad(f string, a ...any) { panic(perr{fmt.Sprintf(f, a...)}) }

func asObj(v any, what string) J {
	m, ok := v.(map[string]any)
	if !ok {
		bad("%s is not an object", what)
	}
	return m
}
func asInt(v any, what string) int64 {
	n, ok := v.(json.Number)
	if !ok {
		bad("%s is not a number", what)
	}
	i, err := n.Int64()
	if err != nil {
		bad("%s is not an integer", what)
	}
	return i
}
func asStr(v any, what string) string {
	s, ok := v.(string)
	if !ok {
		bad("%s is not a string", what)
	}
	return s
}
func asStrs(v any, what string) []string {
	l, ok := v.([]any)
	if !ok {
		bad("%s is not a list", what)
	}
	out := []string{}
	for _, e := range l {
		out = append(out, asStr(e, what))
	}
	return out
}

// ParseView parses a well-formed document. It returns an error for anything it
// does not consider well formed; documents of the checks' generators are
// either clearly well formed or clearly not.
func ParseView(raw []byte) (v *View, err error) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(perr); ok {
				v, err = nil, fmt.Errorf("%s", p.s)
				return
			}
			panic(r)
		}
	}()
	x, err := ParseJSON(raw)
	if err != nil {
		return nil, err
	}
	top := asObj(x, "document")
	signed := asObj(top["signed"], "signed")
	v = &View{Raw: raw, Signed: signed, Payload: Canon(signed), Sigs: map[string][]byte{}}
	v.Type = asStr(signed["_type"], "_type")
	v.Version = asInt(signed["version"], "version")
	t, e := time.Parse(time.RFC3339, asStr(signed["expires"], "expires"))
	if e != nil {
		bad("expires: %v", e)
	}
	v.Expires = t
	v.UID, _ = signed["x-uid"].(string)
	sigs, ok := top["signatures"].([]any)
	if !ok {
		bad("signatures is not a list")
	}
	for _, s := range sigs {
		o := asObj(s, "signature")
		id := asStr(o["keyid"], "keyid")
		b, e := hex.DecodeString(asStr(o["sig"], "sig"))
		if e != nil {
			bad("sig: %v", e)
		}
		if _, dup := v.Sigs[id]; dup {
			v.DupSig = true
		}
		v.Sigs[id] = b
	}
	if v.DupSig {
		bad("two signatures under one key id")
	}
	switch v.Type {
	case "root":
		v.Consistent, _ = signed["consistent_snapshot"].(bool)
		v.Keys = parseKeys(signed["keys"])
		v.Roles = map[string]RoleInfo{}
		for n, r := range asObj(signed["roles"], "roles") {
			v.Roles[n] = parseRole(asObj(r, "role"), n)
		}
	case "timestamp", "snapshot":
		v.Meta = map[string]MetaInfo{}
		for n, m := range asObj(signed["meta"], "meta") {
			o := asObj(m, "meta entry")
			mi := MetaInfo{Version: asInt(o["version"], "version")}
			if l, ok := o["length"]; ok {
				mi.Length = asInt(l, "length")
			}
			if h, ok := o["hashes"]; ok {
				mi.HasHashes = true
				mi.Hashes = parseHashes(h)
			}
			v.Meta[n] = mi
		}
	case "targets":
		v.Targets = map[string]TargetInfo{}
		for n, m := range asObj(signed["targets"], "targets") {
			o := asObj(m, "target")
			v.Targets[n] = TargetInfo{Length: asInt(o["length"], "length"), Hashes: parseHashes(o["hashes"]), Raw: m}
		}
		if d, ok := signed["delegations"]; ok {
			o := asObj(d, "delegations")
			v.Deleg = &Deleg{Keys: parseKeys(o["keys"])}
			if rs, ok := o["roles"]; ok {
				l, ok := rs.([]any)
				if !ok {
					bad("delegated roles not a list")
				}
				v.Deleg.HasRoles = true
				for _, r := range l {
					ro := asObj(r, "delegated role")
					ri := parseRole(ro, asStr(ro["name"], "name"))
					switch ri.Name {
					case "", "root", "timestamp", "snapshot", "targets":
						bad("delegated role named %q", ri.Name)
					}
					ri.Terminating, _ = ro["terminating"].(bool)
					if p, ok := ro["paths"]; ok {
						ri.HasPaths = true
						ri.Paths = asStrs(p, "paths")
					}
					if p, ok := ro["path_hash_prefixes"]; ok {
						ri.HasPrefixes = true
						ri.Prefixes = asStrs(p, "path_hash_prefixes")
					}
					v.Deleg.Roles = append(v.Deleg.Roles, ri)
				}
			}
			if sr, ok := o["succinct_roles"]; ok {
				so := asObj(sr, "succinct_roles")
				v.Deleg.Succinct = &Succinct{RoleInfo: parseRole(so, ""), BitLength: asInt(so["bit_length"], "bit_length"), Prefix: asStr(so["name_prefix"], "name_prefix")}
				if v.Deleg.Succinct.BitLength < 1 || v.Deleg.Succinct.BitLength > 32 {
					bad("bit_length out of range")
				}
			}
		}
	default:
		bad("unknown type %q", v.Type)
	}
	return v, nil
}

func parseKeys(x any) map[string]KeyInfo {
	out := map[string]KeyInfo{}
	for id, k := range asObj(x, "keys") {
		o := asObj(k, "key")
		kv := asObj(o["keyval"], "keyval")
		sc, _ := o["scheme"].(string)
		out[id] = KeyInfo{Type: asStr(o["keytype"], "keytype"), Scheme: sc, Public: asStr(kv["public"], "public")}
	}
	return out
}

func parseRole(o J, name string) RoleInfo {
	r := RoleInfo{Name: name, KeyIDs: asStrs(o["keyids"], "keyids"), Threshold: asInt(o["threshold"], "threshold")}
	if r.Threshold < 1 {
		bad("threshold below one")
	}
	return r
}

func parseHashes(x any) map[string]string {
	out := map[string]string{}
	for a, h := range asObj(x, "hashes") {
		s := asStr(h, "hash")
		if _, err := hex.DecodeString(s); err != nil {
			bad("hash is not hex")
		}
		out[a] = s
	}
	return out
}

// SortedKeys lists map keys in order.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Verdict of the signature threshold check.
type Verdict int

const (
	Reject Verdict = iota
	Accept
	Unjudged
)

// Threshold decides whether sigs over payload satisfy the role.
// The count is returned for reports.
func Threshold(keys map[string]KeyInfo, keyids []string, threshold int64, payload []byte, sigs map[string][]byte) (Verdict, int) {
	valid := map[string]bool{}
	unusable := false
	for _, id := range keyids {
		ki, ok := keys[id]
		if !ok {
			unusable = true
			continue
		}
		pk, err := ParsePub(ki.Type, ki.Public)
		if err != nil {
			unusable = true
			continue
		}
		if sig, ok := sigs[id]; ok && pk.Verify(payload, sig) {
			valid[pk.DER] = true
		}
	}
	if len(keyids) == 0 || int64(len(valid)) < threshold || len(valid) == 0 {
		return Reject, len(valid)
	}
	if unusable {
		return Unjudged, len(valid)
	}
	return Accept, len(valid)
}

// FindRole resolves a role in a delegator document; ok is false if it is not delegated.
func (v *View) FindRole(name string) (RoleInfo, map[string]KeyInfo, bool) {
	if v.Type == "root" {
		r, ok := v.Roles[name]
		return r, v.Keys, ok
	}
	if v.Deleg == nil {
		return RoleInfo{}, nil, false
	}
	if v.Deleg.HasRoles {
		for _, r := range v.Deleg.Roles {
			if r.Name == name {
				return r, v.Deleg.Keys, true
			}
		}
		return RoleInfo{}, nil, false
	}
	if s := v.Deleg.Succinct; s != nil && s.IsBin(name) {
		r := s.RoleInfo
		r.Name = name
		r.Terminating = true
		return r, v.Deleg.Keys, true
	}
	return RoleInfo{}, nil, false
}

// Verify decides whether delegator v accepts doc d for role name.
func (v *View) Verify(name string, d *View) Verdict {
	r, keys, ok := v.FindRole(name)
	if !ok {
		return Reject
	}
	verdict, _ := Threshold(keys, r.KeyIDs, r.Threshold, d.Payload, d.Sigs)
	return verdict
}
