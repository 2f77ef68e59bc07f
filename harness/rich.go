package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/ref"
)

// Rich documents: every role type with unusual strings, numbers and
// unrecognised fields at every level.

var richStrings = []string{"", "a", "plain", "with \"quotes\" and \\ backslash", "<tag>&amp;", "é ü ß 漢字", "emoji \U0001F600", "line\nfeed\ttab\r", "\u0000nul", "\u2028\u2029", "\u007f", "/slash//", "\b\f\u001f", "e\u0301", "~!@#$%^&*()", "  lead and trail  ", "null", "true", "0", "\ufeffbom", "\ufffd"}

func richString(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return pick(r, richStrings) + pick(r, richStrings)
	case 1:
		n := r.Intn(20)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(rune([]int{r.Intn(128), 0x80 + r.Intn(0x700), 0x800 + r.Intn(0xd000-0x800), 0x10000 + r.Intn(0x10000)}[r.Intn(4)]))
		}
		return b.String()
	case 2:
		return strings.Repeat(pick(r, richStrings), 1+r.Intn(40))
	}
	return pick(r, richStrings)
}

var richInts = []int64{0, 1, -1, 2, 10, 255, 1 << 31, -(1 << 31), 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 3, 9223372036854775807, -9223372036854775808, 1000000, 100000000000000000, 123456789012345678}

func richInt(r *rand.Rand) any {
	if r.Intn(5) == 0 {
		return r.Int63()
	}
	return pick(r, richInts)
}

// hugeInt does not fit 64 bits: kept on reading and writing, but it has no
// canonical form and cannot be signed.
func hugeInt(r *rand.Rand) json.Number {
	s := fmt.Sprint(1 + r.Intn(9))
	for i := 0; i < 19+r.Intn(12); i++ {
		s += fmt.Sprint(r.Intn(10))
	}
	if r.Intn(3) == 0 {
		s = "-" + s
	}
	return json.Number(s)
}

func richValue(r *rand.Rand, depth int) any {
	switch x := r.Intn(9); {
	case x < 2:
		return richString(r)
	case x < 4:
		return richInt(r)
	case x == 4:
		return r.Intn(2) == 0
	case x == 5:
		return nil
	case depth <= 0:
		return pick(r, []any{[]any{}, J{}, "leaf"})
	case x == 6 || x == 7:
		l := []any{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, richValue(r, depth-1))
		}
		return l
	}
	m := J{}
	for i := r.Intn(4); i > 0; i-- {
		m[richString(r)] = richValue(r, depth-1)
	}
	return m
}

var knownNames = []string{"_type", "spec_version", "version", "expires", "keys", "roles", "meta", "targets", "delegations", "length", "hashes", "custom", "keyid", "sig", "signed", "signatures", "keyids", "threshold", "keytype", "scheme", "keyval", "public", "name", "terminating", "paths", "path_hash_prefixes", "bit_length", "name_prefix", "succinct_roles", "consistent_snapshot"}

// unknownName is a field name no level of the format knows.
func unknownName(r *rand.Rand, taken J) string {
	for {
		var n string
		switch r.Intn(5) {
		case 0: // a known name in another spelling
			n = pick(r, knownNames)
			switch r.Intn(4) {
			case 0:
				n = strings.ToUpper(n)
			case 1:
				n = strings.ToUpper(n[:1]) + n[1:]
			case 2:
				n = strings.ReplaceAll(n, "s", "\u017f") // folds to s
			case 3:
				n = n + " "
			}
		case 1:
			n = richString(r)
		case 2:
			n = pick(r, []string{"UnrecognizedFields", "Path", "Signed", "Type", "Signature", "KeyID", "PublicKey", "SpecVersion", "ConsistentSnapshot", "BitLength", "id", "path", "ID", "Value", "x",
				"private", "keyid_hash_algorithms", "ephemeral", "annotations", "created", "description", "size", "url", "type", "algorithm", "method", "certificate", "role", "comment", "other_headers", "mirrors", "parent", "prefix", "sha256", "date"})
		default:
			n = fmt.Sprintf("x-%d", r.Intn(30))
		}
		known := false
		for _, k := range knownNames {
			known = known || k == n
		}
		if _, ok := taken[n]; !ok && !known {
			return n
		}
	}
}

// richer adds unrecognised fields to an object with some probability.
func richer(r *rand.Rand, m J, p float64) J {
	for chance(r, p) {
		m[unknownName(r, m)] = richValue(r, 2)
	}
	return m
}

func richKeys(r *rand.Rand, p float64) J {
	keys := J{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		var d J
		switch r.Intn(5) {
		case 0:
			d = ref.ECDSA(r.Intn(ref.NumECDSA()), r.Intn(2) == 0).Dict()
		case 1:
			d = ref.RSA(r.Intn(ref.NumRSA())).Dict()
		case 2: // of a kind the library does not know
			d = J{"keytype": richString(r), "scheme": richString(r), "keyval": J{"public": richString(r)}}
		default:
			d = ref.Ed25519(fmt.Sprint("rich", r.Intn(9))).Dict()
		}
		d = ref.Clone(d).(J)
		richer(r, d["keyval"].(J), p)
		richer(r, d, p)
		id := ref.KeyID(d)
		if chance(r, 0.1) {
			id = richString(r) // ids are not computed by the reader
		}
		keys[id] = d
	}
	return keys
}

func richKeyIDs(r *rand.Rand, keys J) []any {
	out := []any{}
	for id := range keys {
		if chance(r, 0.7) {
			out = append(out, id)
		}
	}
	sortAny(out)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if chance(r, 0.2) {
		out = append(out, richString(r))
	}
	return out
}

func sortAny(l []any) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].(string) < l[i].(string) {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

func richHashes(r *rand.Rand) J {
	h := J{}
	b := make([]byte, 4+r.Intn(40))
	r.Read(b)
	h[pick(r, []string{"sha256", "sha512"})] = fmt.Sprintf("%x", b)
	for chance(r, 0.3) {
		h[pick(r, []string{"sha256", "sha512", "blake2b", "md5", "x"})] = fmt.Sprintf("%x", b[:r.Intn(len(b))])
	}
	return h
}

// richDoc is a well-formed document; p is the density of unrecognised fields.
func richDoc(r *rand.Rand, typ string, p float64) *ref.Doc {
	d := ref.NewDoc(typ, int64(1+r.Intn(1000)), farFuture(), "")
	s := d.Signed
	delete(s, "x-uid")
	s["spec_version"] = pick(r, []string{"1.0.31", "1.0.0", "1.0.28", "1.1"})
	if r.Intn(8) == 0 {
		s["version"] = pick(r, []int64{1 << 31, 1<<53 + 1, 9223372036854775806})
	}
	s["expires"] = fmt.Sprintf("20%02d-%02d-%02dT%02d:%02d:%02dZ", 10+r.Intn(80), 1+r.Intn(12), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60))
	switch typ {
	case "root":
		s["consistent_snapshot"] = r.Intn(2) == 0
		keys := richKeys(r, p)
		s["keys"] = keys
		roles := J{}
		for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
			roles[n] = richer(r, J{"keyids": richKeyIDs(r, keys), "threshold": int64(1 + r.Intn(3))}, p)
		}
		if chance(r, 0.2) {
			roles["mirrors"] = J{"keyids": []any{}, "threshold": int64(1)}
		}
		s["roles"] = roles
	case "timestamp", "snapshot":
		meta := J{}
		entry := func() J {
			e := J{"version": int64(1 + r.Intn(99))}
			if chance(r, 0.5) {
				e["length"] = int64(1 + r.Intn(1<<20))
			}
			if chance(r, 0.5) {
				e["hashes"] = richHashes(r)
			}
			return richer(r, e, p)
		}
		if typ == "timestamp" {
			meta["snapshot.json"] = entry()
		} else {
			meta["targets.json"] = entry()
			for chance(r, 0.6) {
				meta[pick(r, []string{richString(r) + ".json", "role1.json", "bin-0.json", richString(r)})] = entry()
			}
		}
		s["meta"] = meta
	case "targets":
		t := J{}
		for chance(r, 0.7) {
			e := J{"length": int64(r.Intn(1 << 20)), "hashes": richHashes(r)}
			if chance(r, 0.4) {
				e["custom"] = pick(r, []any{J{"a": int64(1)}, "text", int64(5), []any{}, J{}, false, richNonNull(r)})
			}
			t[pick(r, []string{richString(r), "dir/file.txt", "a", "b"})] = richer(r, e, p)
		}
		s["targets"] = t
		if chance(r, 0.7) {
			keys := richKeys(r, p)
			dl := J{"keys": keys}
			if chance(r, 0.7) {
				roles := []any{}
				used := map[string]bool{"": true, "root": true, "timestamp": true, "snapshot": true, "targets": true}
				for i := r.Intn(4); i > 0; i-- {
					n := pick(r, []string{richString(r), "role1", "role2", "Root", "é"})
					if used[n] {
						continue
					}
					used[n] = true
					e := J{"name": n, "keyids": richKeyIDs(r, keys), "threshold": int64(1 + r.Intn(3)), "terminating": r.Intn(2) == 0}
					switch r.Intn(3) {
					case 0:
						e["paths"] = []any{pick(r, patterns), richString(r)}
					case 1:
						e["path_hash_prefixes"] = []any{"0a", "ff", "1"}
					case 2:
						e[pick(r, []string{"paths", "path_hash_prefixes"})] = []any{}
					}
					roles = append(roles, richer(r, e, p))
				}
				dl["roles"] = roles
			} else {
				dl["succinct_roles"] = richer(r, J{"keyids": richKeyIDs(r, keys), "threshold": int64(1 + r.Intn(3)), "bit_length": int64(1 + r.Intn(32)), "name_prefix": richString(r)}, p)
			}
			s["delegations"] = richer(r, dl, p)
		}
	}
	richer(r, s, p)
	return d
}

func richNonNull(r *rand.Rand) any {
	for {
		if v := richValue(r, 2); v != nil && !hasNull(v) {
			return v
		}
	}
}

func hasNull(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case J:
		for _, e := range x {
			if hasNull(e) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if hasNull(e) {
				return true
			}
		}
	}
	return false
}

// shuffled writes a value with object members in random order and random
// white space and escapes.
func shuffled(r *rand.Rand, v any) []byte {
	var b strings.Builder
	ws := func() {
		for r.Intn(4) == 0 {
			b.WriteString(pick(r, []string{" ", "\n", "\t", "\r\n"}))
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		for _, c := range s {
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c < 0x20:
				fmt.Fprintf(&b, "\\u%04x", c)
			case c == '/' && r.Intn(2) == 0:
				b.WriteString("\\/")
			case r.Intn(10) == 0 && c < 0x10000:
				fmt.Fprintf(&b, pick(r, []string{"\\u%04x", "\\u%04X"}), c)
			case r.Intn(3) == 0 && c >= 0x10000:
				x := c - 0x10000
				fmt.Fprintf(&b, "\\u%04x\\u%04x", 0xd800+(x>>10), 0xdc00+(x&0x3ff))
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	}
	var put func(v any)
	put = func(v any) {
		ws()
		switch x := v.(type) {
		case J:
			b.WriteByte('{')
			ks := ref.SortedKeys(x)
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				ws()
				str(k)
				ws()
				b.WriteByte(':')
				put(x[k])
			}
			ws()
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				put(e)
			}
			ws()
			b.WriteByte(']')
		case string:
			str(x)
		default:
			j, err := json.Marshal(x)
			if err != nil {
				panic(err)
			}
			b.Write(j)
		}
		ws()
	}
	put(v)
	return []byte(b.String())
}
