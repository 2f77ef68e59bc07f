package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"

	"verif/harness/ref"
)

// fieldsDiffer loads raw with the library and compares the fields of the
// object with what an independent reading of the document gives.
func fieldsDiffer(typ string, raw, loaded []byte) string {
	x, err := ref.ParseJSON(raw)
	if err != nil {
		panic(err)
	}
	doc := x.(J)
	s := doc["signed"].(J)
	m, err := libLoad(typ, loaded)
	if err != nil {
		return "an error: " + err.Error()
	}
	var out []string
	diff := func(what string, got, want any) {
		if !reflect.DeepEqual(got, want) && len(out) < 4 {
			out = append(out, fmt.Sprintf("%s %v, want %v", what, got, want))
		}
	}
	num := func(v any) int64 {
		if v == nil {
			return 0
		}
		var n int64
		fmt.Sscan(fmt.Sprint(v), &n)
		return n
	}
	strs := func(v any) []string {
		l, _ := v.([]any)
		o := []string{}
		for _, e := range l {
			o = append(o, e.(string))
		}
		return o
	}
	common := func(t, spec string, ver int64, exp time.Time, sigs []metadata.Signature) {
		diff("_type", t, s["_type"])
		diff("spec_version", spec, s["spec_version"])
		diff("version", ver, num(s["version"]))
		w, _ := time.Parse(time.RFC3339, s["expires"].(string))
		diff("expires", exp.Unix(), w.Unix())
		l, _ := doc["signatures"].([]any)
		diff("signatures", len(sigs), len(l))
		for i := 0; i < len(sigs) && i < len(l); i++ {
			diff("keyid of signature", sigs[i].KeyID, l[i].(J)["keyid"])
			diff("signature", sigs[i].Signature.String(), l[i].(J)["sig"])
		}
	}
	hashes := func(h metadata.Hashes, v any) {
		w, _ := v.(J)
		diff("number of hashes", len(h), len(w))
		for a, d := range w {
			diff("hash "+a, h[a].String(), d)
		}
	}
	keys := func(ks map[string]*metadata.Key, v any) {
		w, _ := v.(J)
		diff("number of keys", len(ks), len(w))
		for id, k := range w {
			got := ks[id]
			if got == nil {
				diff("key "+id, nil, "present")
				continue
			}
			diff("keytype", got.Type, k.(J)["keytype"])
			diff("scheme", got.Scheme, k.(J)["scheme"])
			diff("public", got.Value.PublicKey, k.(J)["keyval"].(J)["public"])
		}
	}
	meta := func(ms map[string]*metadata.MetaFiles) {
		w, _ := s["meta"].(J)
		diff("number of meta files", len(ms), len(w))
		for n, e := range w {
			got := ms[n]
			if got == nil {
				diff("meta file "+n, nil, "present")
				continue
			}
			diff("listed version", got.Version, num(e.(J)["version"]))
			diff("listed length", got.Length, num(e.(J)["length"]))
			hashes(got.Hashes, e.(J)["hashes"])
		}
	}
	same := func(what string, got []string, want any) {
		if got == nil {
			got = []string{}
		}
		diff(what, got, strs(want))
	}
	switch x := m.(type) {
	case *metadata.Metadata[metadata.RootType]:
		common(x.Signed.Type, x.Signed.SpecVersion, x.Signed.Version, x.Signed.Expires, x.Signatures)
		diff("consistent_snapshot", x.Signed.ConsistentSnapshot, s["consistent_snapshot"] == true)
		keys(x.Signed.Keys, s["keys"])
		w := s["roles"].(J)
		diff("number of roles", len(x.Signed.Roles), len(w))
		for n, e := range w {
			got := x.Signed.Roles[n]
			if got == nil {
				diff("role "+n, nil, "present")
				continue
			}
			same("keyids", got.KeyIDs, e.(J)["keyids"])
			diff("threshold", int64(got.Threshold), num(e.(J)["threshold"]))
		}
	case *metadata.Metadata[metadata.TimestampType]:
		common(x.Signed.Type, x.Signed.SpecVersion, x.Signed.Version, x.Signed.Expires, x.Signatures)
		meta(x.Signed.Meta)
	case *metadata.Metadata[metadata.SnapshotType]:
		common(x.Signed.Type, x.Signed.SpecVersion, x.Signed.Version, x.Signed.Expires, x.Signatures)
		meta(x.Signed.Meta)
	case *metadata.Metadata[metadata.TargetsType]:
		common(x.Signed.Type, x.Signed.SpecVersion, x.Signed.Version, x.Signed.Expires, x.Signatures)
		w := s["targets"].(J)
		diff("number of targets", len(x.Signed.Targets), len(w))
		for n, e := range w {
			got := x.Signed.Targets[n]
			if got == nil {
				diff("target "+n, nil, "present")
				continue
			}
			diff("length", got.Length, num(e.(J)["length"]))
			hashes(got.Hashes, e.(J)["hashes"])
			cu := e.(J)["custom"]
			if (got.Custom != nil) != (cu != nil) {
				diff("custom", got.Custom != nil, cu != nil)
			} else if cu != nil {
				v, err := ref.ParseJSON(*got.Custom)
				if err != nil || !ref.Same(v, cu) {
					diff("custom", string(*got.Custom), cu)
				}
			}
		}
		dl, ok := s["delegations"].(J)
		if (x.Signed.Delegations != nil) != ok {
			diff("delegations", x.Signed.Delegations != nil, ok)
			break
		}
		if !ok {
			break
		}
		g := x.Signed.Delegations
		keys(g.Keys, dl["keys"])
		rs, _ := dl["roles"].([]any)
		diff("number of delegated roles", len(g.Roles), len(rs))
		for i := 0; i < len(rs) && i < len(g.Roles); i++ {
			e, got := rs[i].(J), g.Roles[i]
			diff("role name", got.Name, e["name"])
			same("keyids", got.KeyIDs, e["keyids"])
			diff("threshold", int64(got.Threshold), num(e["threshold"]))
			diff("terminating", got.Terminating, e["terminating"] == true)
			same("paths", got.Paths, e["paths"])
			same("path_hash_prefixes", got.PathHashPrefixes, e["path_hash_prefixes"])
		}
		if sr, ok := dl["succinct_roles"].(J); ok != (g.SuccinctRoles != nil) {
			diff("succinct_roles", g.SuccinctRoles != nil, ok)
		} else if ok {
			same("keyids", g.SuccinctRoles.KeyIDs, sr["keyids"])
			diff("threshold", int64(g.SuccinctRoles.Threshold), num(sr["threshold"]))
			diff("bit_length", int64(g.SuccinctRoles.BitLength), num(sr["bit_length"]))
			diff("name_prefix", g.SuccinctRoles.NamePrefix, sr["name_prefix"])
		}
	}
	if len(out) == 0 {
		return ""
	}
	return fmt.Sprint(out)
}
