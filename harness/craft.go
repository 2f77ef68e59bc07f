package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"
	"time"

	"verif/harness/ref"
)

// Fault injection on documents: every function takes an honest document and
// returns bytes that differ from it in a chosen way.

// craftSig re-signs doc with a deliberately chosen, usually insufficient, set
// of keys. keys are the authorised keys, other are keys with no authority.
func (p *Repo) craftSig(d *ref.Doc, keys []*ref.Key, threshold int, other []*ref.Key) (*ref.Doc, string) {
	d = d.Clone()
	d.Sigs = nil
	r := p.Rng
	mode := r.Intn(8)
	switch mode {
	case 0: // one signature too few
		n := threshold - 1
		perm := r.Perm(len(keys))
		for _, i := range perm[:n] {
			d.Sign(keys[i])
		}
		return d, "too-few"
	case 1: // only other keys
		d.Sign(other...)
		return d, "other-keys"
	case 2: // corrupted signatures bring it below the threshold
		d.Sign(keys...)
		spoil := len(keys) - threshold + 1
		perm := r.Perm(len(keys))
		for _, i := range perm[:spoil] {
			flipHexSig(d, i)
		}
		return d, "corrupt-sig"
	case 3: // other keys filling up under authorised ids
		perm := r.Perm(len(keys))
		for j, i := range perm {
			if j < threshold-1 {
				d.Sign(keys[i])
			} else if len(other) > 0 {
				d.SignAs(keys[i].ID(), other[0])
			}
		}
		return d, "forged-id"
	case 4: // signed, then content changed
		d.Sign(keys...)
		d.Signed["x-uid"] = fmt.Sprint(d.Signed["x-uid"], "-tampered")
		return d, "tampered"
	case 5: // unsigned
		return d, "unsigned"
	case 6: // enough good ones among junk: valid
		d.Sign(other...)
		perm := r.Perm(len(keys))
		for _, i := range perm[:threshold] {
			d.Sign(keys[i])
		}
		for _, i := range perm[threshold:] {
			d.Sign(keys[i])
			flipHexSig(d, len(d.Sigs)-1)
		}
		return d, "enough-with-junk"
	default: // exactly the threshold: valid
		perm := r.Perm(len(keys))
		for _, i := range perm[:threshold] {
			d.Sign(keys[i])
		}
		return d, "exact-threshold"
	}
}

// strangers are keys without authority for anything, plus those of other roles.
func (p *Repo) strangers(not string) []*ref.Key {
	out := []*ref.Key{ref.Ed25519("stranger-" + p.tag)}
	for _, n := range ref.SortedKeys(p.Top) {
		t := p.Top[n]
		if n != not && p.Rng.Intn(2) == 0 {
			out = append(out, t.Keys[0])
		}
	}
	// keep ids unique in one signature list
	seen := map[string]bool{}
	var u []*ref.Key
	auth := map[string]bool{}
	if t := p.Top[not]; t != nil {
		for _, k := range t.Keys {
			auth[k.Public] = true
		}
	}
	for _, k := range out {
		if !seen[k.ID()] && !auth[k.Public] {
			seen[k.ID()] = true
			u = append(u, k)
		}
	}
	return u
}

// craftBytes damages serialised bytes so that they are no longer a document.
func (p *Repo) craftBytes(raw []byte) ([]byte, string) {
	switch p.Rng.Intn(7) {
	case 0:
		return []byte{}, "empty"
	case 1:
		return raw[:p.Rng.Intn(len(raw))], "truncated"
	case 2:
		return []byte("{}"), "empty-object"
	case 3:
		return append(append([]byte{}, raw...), '}'), "trailing"
	case 4:
		return []byte("null"), "null"
	case 5:
		return bytes.Replace(raw, []byte(`"signed"`), []byte(`"singed"`), 1), "no-signed"
	default:
		return []byte("<html>404</html>"), "html"
	}
}

type craftOut struct {
	raw   []byte
	desc  string
	uid   string
	clean bool // nothing was damaged
}

// Craft produces a candidate document for a role; nf faults are injected.
// base is the honest next document (unsigned content decided by the caller).
func (p *Repo) Craft(role string, d *ref.Doc, keys []*ref.Key, threshold int, faults int) craftOut {
	d = d.Clone()
	d.Signed["x-uid"] = p.UID("c-" + role)
	desc := ""
	sigMode, bytesMode, substitute := false, false, false
	for i := 0; i < faults; i++ {
		switch p.Rng.Intn(9) {
		case 0, 1:
			sigMode = true
		case 2:
			v := d.Signed["version"].(int64)
			nv := v + []int64{-2, -1, 1, 2, 1000000000, 1 << 32, 1 << 40}[p.Rng.Intn(7)]
			d.Signed["version"] = nv
			desc += fmt.Sprintf(" version%+d", nv-v)
		case 3:
			d.Signed["expires"] = ref.TimeStr(p.Past())
			desc += " expired"
		case 4:
			bytesMode = true
		case 5:
			if m, ok := d.Signed["meta"].(J); ok {
				desc += " " + p.craftMeta(m)
			} else {
				sigMode = true
			}
		case 6:
			substitute = true
		case 7:
			if m, ok := d.Signed["meta"].(J); ok {
				desc += " " + p.craftMeta(m)
			} else {
				d.Signed["expires"] = ref.TimeStr(p.Past())
				desc += " expired"
			}
		case 8:
			d.Signed["expires"] = ref.TimeStr(p.Future())
			desc += " reexpire"
		}
	}
	if substitute {
		desc += " type-confused"
		t := d.Signed["_type"].(string)
		for {
			n := pick(p.Rng, []string{"root", "timestamp", "snapshot", "targets", "Root", "bogus", "mirrors"})
			if n != t {
				d.Signed["_type"] = n
				break
			}
		}
	}
	if sigMode {
		var s string
		d, s = p.craftSig(d, keys, threshold, p.strangers(role))
		desc += " sig:" + s
	} else {
		d.Sigs = nil
		if p.Rng.Intn(2) == 0 {
			perm := p.Rng.Perm(len(keys))
			for _, i := range perm[:threshold+p.Rng.Intn(len(keys)-threshold+1)] {
				d.Sign(keys[i])
			}
		} else {
			d.Sign(keys...)
		}
	}
	raw := d.Bytes(p.fmt())
	if bytesMode {
		var s string
		raw, s = p.craftBytes(raw)
		desc += " bytes:" + s
	}
	if desc == "" {
		desc = " honest"
	}
	return craftOut{raw: raw, desc: role + desc, uid: fmt.Sprint(d.Signed["x-uid"]), clean: faults == 0}
}

// craftMeta changes what a snapshot or timestamp lists.
func (p *Repo) craftMeta(m J) string {
	names := ref.SortedKeys(m)
	n := pick(p.Rng, names)
	e, ok := m[n].(J)
	if !ok {
		return "meta?"
	}
	k := p.Rng.Intn(8)
	if strings.Contains(n, "/") && chance(p.Rng, 0.3) {
		k = 4
	}
	switch k {
	case 0:
		e["version"] = e["version"].(int64) - 1
		return "list-version-1 " + n
	case 1:
		e["version"] = e["version"].(int64) + 1
		return "list-version+1 " + n
	case 2:
		e["length"] = int64(1 + p.Rng.Intn(5000))
		return "list-length " + n
	case 3:
		e["hashes"] = J{pick(p.Rng, []string{"sha256", "sha512"}): ref.Sha256Hex([]byte(n))}
		return "list-hash " + n
	case 4:
		if len(names) > 1 && n != "snapshot.json" {
			delete(m, n)
			if chance(p.Rng, 0.5) { // what it lists instead is only similar
				base := strings.TrimSuffix(n, ".json")
				near := pick(p.Rng, []string{base, strings.ToUpper(base) + ".json", base + ".JSON", "1." + n, "x/" + n, "/" + n, n[strings.LastIndex(n, "/")+1:], base + ".json.json", url.QueryEscape(base) + ".json", url.PathEscape(base) + ".json", " " + n})
				if i := strings.LastIndex(n, "/"); i >= 0 && chance(p.Rng, 0.5) {
					near = n[i+1:]
				}
				if near != n && m[near] == nil {
					m[near] = e
				}
				return "unlist " + n + ", list " + near
			}
			return "unlist " + n
		}
		e["hashes"] = J{"sha256": ref.Sha256Hex([]byte(n))}
		return "list-hash " + n
	case 5:
		delete(e, "length")
		delete(e, "hashes")
		return "list-version-only " + n
	case 6:
		e["hashes"] = J{"md5": "d41d8cd98f00b204e9800998ecf8427e"}
		return "list-unknown-alg " + n
	default:
		m["extra-role.json"] = J{"version": int64(1)}
		return "list-extra"
	}
}

func farFuture() time.Time { return time.Date(2097, 1, 2, 3, 4, 5, 0, time.UTC) }
