package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/ref"
)

// C03: what is read is what is written.

// addOddities puts further content into a document: wide integers, plain
// decimal fractions, unrecognised members of the outer object and of
// signatures.
func addOddities(r *rand.Rand, d *ref.Doc) {
	var os []J
	objects(d.Signed["x-a"], &os)
	if chance(r, 0.3) {
		d.Signed["x-wide"] = []any{hugeInt(r), J{"n": hugeInt(r)}}
	}
	if chance(r, 0.3) {
		d.Signed["x-fraction"] = json.Number(pick(r, []string{"0.5", "12.25", "-3.75", "1000000.125", "-0.001"}))
	}
	for chance(r, 0.4) {
		if d.Extra == nil {
			d.Extra = J{}
		}
		n := unknownName(r, d.Extra)
		if n != "signed" && n != "signatures" {
			d.Extra[n] = richValue(r, 2)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		b := make([]byte, r.Intn(70))
		r.Read(b)
		d.Sigs = append(d.Sigs, richer(r, J{"keyid": fmt.Sprint(richString(r), i), "sig": fmt.Sprintf("%x", b)}, 0.3))
	}
}

func sameContent(raw, out []byte) string {
	a, err := ref.ParseJSON(raw)
	if err != nil {
		panic(err)
	}
	b, err := ref.ParseJSON(out)
	if err != nil {
		return "no JSON: " + err.Error()
	}
	return ref.Diff("", a, b)
}

func roundCase(c *Case) {
	r := c.Rng
	typ := pick(r, allTypes)
	d := richDoc(r, typ, pick(r, []float64{0, 0.1, 0.3, 0.5}))
	addOddities(r, d)
	raw := ref.Encode(d.JSON(), ref.Compact)
	layouts := [][]byte{raw, ref.Encode(d.JSON(), ref.Indent), ref.Encode(d.JSON(), ref.Canonical), shuffled(r, d.JSON())}
	var first, firstPretty []byte
	c.Logf("document %s", raw)
	bad := func(key, f string, a ...any) { c.Fail(key+":"+typ, f, a...) }
	custom := false
	if t, ok := d.Signed["targets"].(J); ok {
		for _, e := range t {
			custom = custom || e.(J)["custom"] != nil
		}
	}
	for i, l := range layouts {
		if i == 3 && custom { // custom data stay as they were spelled
			first, firstPretty = nil, nil
		}
		var m anyMeta
		var err error
		viaFile := r.Intn(3) == 0
		if viaFile {
			f := filepath.Join(c.Dir(), fmt.Sprintf("in%d", i))
			if err := os.WriteFile(f, l, 0644); err != nil {
				panic(err)
			}
			m, err = libLoadFile(typ, f)
		} else {
			m, err = libLoad(typ, l)
		}
		c.Eval()
		if err != nil {
			bad("refused", "well-formed %s (layout %d, file %v) refused: %v", typ, i, viaFile, err)
			return
		}
		c.Count("documents loaded")
		for rep := 0; rep < 2; rep++ {
			out, err := m.ToBytes(false)
			if err != nil {
				bad("write", "%s cannot be written: %v", typ, err)
				return
			}
			pretty, err := m.ToBytes(true)
			if err != nil {
				bad("write", "%s cannot be written indented: %v", typ, err)
				return
			}
			if first == nil {
				first, firstPretty = out, pretty
				if w := sameContent(raw, out); w != "" {
					bad("content", "%s written again differs at %s", typ, w)
					return
				}
				if w := sameContent(raw, pretty); w != "" {
					bad("content-indented", "%s written again, indented, differs at %s", typ, w)
					return
				}
			}
			if !bytes.Equal(out, first) || !bytes.Equal(pretty, firstPretty) {
				bad("bytes", "the same content of %s is written differently (layout %d, time %d)", typ, i, rep)
				return
			}
			c.Count("documents written")
		}
		// files, also over longer or shorter ones
		f := filepath.Join(c.Dir(), fmt.Sprintf("out%d", i))
		if r.Intn(2) == 0 {
			os.WriteFile(f, bytes.Repeat([]byte("x"), r.Intn(2*len(raw)+2)), 0644)
		}
		p := r.Intn(2) == 0
		if err := m.ToFile(f, p); err != nil {
			bad("tofile", "%s cannot be written to a file: %v", typ, err)
			return
		}
		got, _ := os.ReadFile(f)
		want := first
		if p {
			want = firstPretty
		}
		if !bytes.Equal(got, want) {
			bad("tofile-bytes", "%s written to a file (indented %v) is not what it is written to bytes", typ, p)
			return
		}
		n, err := libLoadFile(typ, f)
		if err != nil {
			bad("reread", "%s written by the library cannot be read: %v", typ, err)
			return
		}
		if out, err := n.ToBytes(false); err != nil || !bytes.Equal(out, first) {
			bad("reread-bytes", "%s read from the library's own file is written differently (%v)", typ, err)
			return
		}
		c.Count("files written and read")
	}
	// the loaded fields themselves
	if w := fieldsDiffer(typ, raw, layouts[3]); w != "" {
		bad("fields", "loaded %s has %s", typ, w)
	}
	c.Distinct("round", typ, len(d.Sigs), len(d.Extra), len(raw)/400)
	c.Sample(map[string]any{"type": typ, "bytes": len(raw), "signatures": len(d.Sigs)})
}

// constructed: fresh objects survive as well.
func constructedCase(c *Case) {
	r := c.Rng
	typ := pick(r, allTypes)
	m := apiDoc(r, typ)
	for i := r.Intn(3); i > 0; i-- {
		if err := libSign(m, libSigner(ref.Ed25519(fmt.Sprint("constructed", i)))); err != nil {
			c.FailTags(Tags{"C02", "C03"}, "sign", "%v", err)
			return
		}
	}
	a, err := m.ToBytes(r.Intn(2) == 0)
	c.Eval()
	if err != nil {
		c.Fail("constructed-write:"+typ, "%v", err)
		return
	}
	n, err := libLoad(typ, a)
	if err != nil {
		c.Fail("constructed-read:"+typ, "%s made by the library is refused: %v: %s", typ, err, shortJSON(a))
		return
	}
	b, _ := n.ToBytes(false)
	if w := sameContent(a, b); w != "" {
		c.Fail("constructed-content:"+typ, "%s made by the library changes on reading: %s", typ, w)
	}
	if w := fieldsDiffer(typ, a, a); w != "" {
		c.Fail("constructed-fields:"+typ, "loaded %s has %s", typ, w)
	}
	c.Count("constructed objects written and read")
	c.Distinct("constructed", typ, len(a)/64)
}

// refuseCase: everything that is no document of the type is refused.
func refuseCase(c *Case) {
	r := c.Rng
	typ := pick(r, allTypes)
	d := richDoc(r, typ, 0.1)
	addOddities(r, d)
	raw := d.Bytes(ref.Compact)
	what := ""
	ask := typ
	switch r.Intn(9) {
	case 7, 8: // a recognised member holding another kind of value
		n := d.Clone()
		doc := n.JSON()
		var at []wrongAt
		knownPlaces(docShapes[typ], doc, "", &at)
		place := pick(r, at)
		v := pick(r, []any{"x", int64(3), true, J{}, J{"x": "y"}, []any{}, []any{"x"}, json.Number("1.5")})
		for jsonKind(v) == place.kind {
			v = pick(r, []any{"x", int64(3), true, J{}, J{"x": "y"}, []any{}, []any{"x"}, json.Number("1.5")})
		}
		place.set(v)
		raw = ref.Encode(doc, ref.Fmt(r.Intn(2)))
		what = "kind " + place.path + " " + jsonKind(v)
	case 0: // another type
		for ask == typ {
			ask = pick(r, allTypes)
		}
		what = "other type"
	case 1:
		v := pick(r, []any{"", "Root", "ROOT", typ + " ", " " + typ, "\u0000", strings.ToUpper(typ), typ[:len(typ)-1], typ + "s", "mirrors", "delegated", nil, int64(1), true, []any{typ}, J{"_type": typ}, J{}})
		n := d.Clone()
		n.Signed["_type"] = v
		raw = n.Bytes(ref.Fmt(r.Intn(2)))
		what = fmt.Sprintf("type %T", v)
	case 2:
		n := d.Clone()
		delete(n.Signed, "_type")
		what = "no type"
		if r.Intn(2) == 0 { // elsewhere or in another spelling
			n.Signed[pick(r, []string{"_Type", "_TYPE", "type", " _type"})] = typ
			n.Extra = J{"_type": typ}
			what = "type elsewhere"
		}
		raw = n.Bytes(ref.Fmt(r.Intn(2)))
	case 3, 4: // no JSON
		b := append([]byte{}, raw...)
		if r.Intn(2) == 0 {
			b = d.Bytes(ref.Indent)
		}
		b, what = breakJSON(r, b)
		if _, err := ref.ParseJSON(b); err == nil {
			c.Count("damage without effect on the syntax")
			return
		}
		raw = b
	case 5: // two signatures under one id
		id := fmt.Sprint("id", richString(r))
		sigs := append([]any{}, d.Sigs...)
		a, b := J{"keyid": id, "sig": "00aa"}, J{"keyid": id, "sig": pick(r, []string{"00aa", "00bb", ""})}
		sigs = append(sigs, a)
		for i := r.Intn(3); i > 0; i-- {
			sigs = append(sigs, J{"keyid": fmt.Sprint("between", i), "sig": "11"})
		}
		sigs = append(sigs, b)
		n := d.Clone()
		n.Sigs = sigs
		raw = n.Bytes(ref.Fmt(r.Intn(2)))
		if r.Intn(3) == 0 {
			raw = shuffled(r, n.JSON())
		}
		what = "duplicate signature"
	case 6:
		n := d.JSON()
		switch r.Intn(3) {
		case 0:
			delete(n, "signed")
		case 1:
			n["signed"] = pick(r, []any{nil, "x", int64(1), []any{d.Signed}, true})
		case 2:
			n[pick(r, []string{"Signed", "SIGNED", "signed "})] = n["signed"]
			delete(n, "signed")
		}
		raw = ref.Encode(n, ref.Compact)
		what = "no signed part"
	}
	c.Eval()
	_, err := libLoad(ask, raw)
	if err == nil {
		c.Logf("bytes %s", raw)
		c.Fail("accepted:"+what, "%s with %s loaded as %s", typ, what, ask)
		return
	}
	f := filepath.Join(c.Dir(), "f.json")
	if err := os.WriteFile(f, raw, 0644); err != nil {
		panic(err)
	}
	if _, err := libLoadFile(ask, f); err == nil {
		c.Fail("file-accepted:"+what, "%s with %s loaded as %s from a file", typ, what, ask)
	}
	if r.Intn(10) == 0 {
		if _, err := libLoadFile(ask, f+".missing"); err == nil {
			c.Fail("missing-file", "a missing file was loaded")
		}
		if _, err := libLoadFile(ask, c.Dir()); err == nil {
			c.Fail("directory", "a directory was loaded")
		}
	}
	c.Count("refusals: " + strings.Fields(what)[0])
	c.Distinct("refuse", typ, ask, what)
}

// wrongAt is a recognised member of a document.
type wrongAt struct {
	path, kind string
	set        func(any)
}

func jsonKind(v any) string {
	switch v := v.(type) {
	case string:
		return "string"
	case bool:
		return "bool"
	case J:
		return "object"
	case []any:
		return "array"
	case json.Number:
		if _, err := v.Int64(); err != nil {
			return "fraction"
		}
	}
	return "integer"
}

// shapes of what the specification names: a string is a plain kind, a J an
// object with its recognised members ("*" for every member), a []any an array
// with its elements.
var (
	keyShape      = J{"keytype": "string", "scheme": "string", "keyval": J{"public": "string"}}
	keysShape     = J{"*": keyShape}
	fileShape     = J{"version": "integer", "length": "integer", "hashes": J{"*": "string"}}
	docShapes     = map[string]J{}
	commonMembers = J{"_type": "string", "spec_version": "string", "version": "integer", "expires": "string"}
)

func init() {
	more := map[string]J{
		"root": {"consistent_snapshot": "bool", "keys": keysShape,
			"roles": J{"*": J{"keyids": []any{"string"}, "threshold": "integer"}}},
		"timestamp": {"meta": J{"*": fileShape}},
		"snapshot":  {"meta": J{"*": fileShape}},
		"targets": {"targets": J{"*": J{"length": "integer", "hashes": J{"*": "string"}}},
			"delegations": J{"keys": keysShape,
				"roles":          []any{J{"name": "string", "keyids": []any{"string"}, "threshold": "integer", "terminating": "bool", "paths": []any{"string"}, "path_hash_prefixes": []any{"string"}}},
				"succinct_roles": J{"keyids": []any{"string"}, "threshold": "integer", "bit_length": "integer", "name_prefix": "string"}}},
	}
	for typ, m := range more {
		for k, v := range commonMembers {
			m[k] = v
		}
		docShapes[typ] = J{"signed": m, "signatures": []any{J{"keyid": "string", "sig": "string"}}}
	}
}

// knownPlaces collects the recognised members of a document that are there.
func knownPlaces(shape, v any, path string, out *[]wrongAt) {
	visit := func(s, v any, path string, set func(any)) {
		kind, ok := s.(string)
		if !ok {
			kind = jsonKind(s)
		}
		if v == nil || jsonKind(v) != kind {
			return
		}
		*out = append(*out, wrongAt{path, kind, set})
		if !ok {
			knownPlaces(s, v, path, out)
		}
	}
	switch s := shape.(type) {
	case J:
		o := v.(J)
		for _, k := range sortedNames(s) {
			if k != "*" {
				visit(s[k], o[k], path+"/"+k, func(x any) { o[k] = x })
				continue
			}
			for _, n := range sortedNames(o) {
				visit(s[k], o[n], path+"/*", func(x any) { o[n] = x })
			}
		}
	case []any:
		a := v.([]any)
		for i := range a {
			visit(s[0], a[i], path+"/*", func(x any) { a[i] = x })
		}
	}
}

// breakJSON damages the bytes of a document.
func breakJSON(r *rand.Rand, b []byte) ([]byte, string) {
	i := r.Intn(len(b))
	switch r.Intn(12) {
	case 0:
		return b[:i], "truncated"
	case 1:
		return append(b, pick(r, []string{"x", "{}", "}", "]", ",", "null", "\x00", "//c", string(b)})...), "trailing"
	case 2:
		return append([]byte(pick(r, []string{"\ufeff", "x", "[", "}", "\x00", ",", "// c\n"})), b...), "leading"
	case 3:
		return append(append(append([]byte{}, b[:i]...), pick(r, []string{",", "\"", "{", "}", "\\", "\x01", "'", "NaN", "+"})...), b[i:]...), "inserted"
	case 4:
		return append(append([]byte{}, b[:i]...), b[i+1:]...), "dropped"
	case 5:
		b = append([]byte{}, b...)
		b[i] ^= 1 << r.Intn(7)
		return b, "flipped"
	case 6:
		return []byte(pick(r, []string{"", " ", "\n", "x", "{", "}", "nul", "\"", "{\"signed\"", "<html></html>"})), "no document"
	case 7:
		j := bytes.LastIndexByte(b, '}')
		return append(append(append([]byte{}, b[:j]...), ','), b[j:]...), "trailing comma"
	case 8:
		return bytes.ReplaceAll(b, []byte(`"`), []byte("'")), "single quotes"
	case 9:
		return bytes.Replace(b, []byte(`:`), []byte(pick(r, []string{"=", "", "::", ": 0x1,"})), 1), "colon"
	case 10:
		return bytes.Replace(b, []byte(`"version":`), []byte(`"version":0`), 1), "leading zero"
	}
	return bytes.Replace(b, []byte(`"spec_version":"`), []byte("\"spec_version\":\"\n"), 1), "control character"
}

func init() {
	registry["C03"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "rich documents of every role type, with unrecognised members at every level, in four layouts, through bytes and files; content compared as JSON by an independent parser, bytes compared with each other; and documents made wrong in type, syntax or signature ids, which must be refused; non-trivial cases are distinct shapes of document and kinds of wrongness",
		F: func(r *Run) {
			r.Cases("round", r.N(9000, 200000), roundCase)
			r.Cases("constructed", r.N(1500, 20000), constructedCase)
			r.Cases("refuse", r.N(12000, 200000), refuseCase)
			r.Need("documents loaded", 20000)
			r.Need("refusals: duplicate", 500)
			r.Need("refusals: other", 500)
			r.Need("refusals: kind", 1000)
			r.Need("files written and read", 10000)
		}}
}

func sortedNames(o J) []string {
	var names []string
	for n := range o {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}
