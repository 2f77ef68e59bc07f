package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"

	"verif/harness/ref"
)

func randData(r *rand.Rand) []byte {
	n := pick(r, []int{0, 0, 1, 1, 2, 3, 7, 31, 32, 63, 64, 100, 127, 128, 129, 500, 4095, 4096, 32767, 32768, 32769, 65536, 100000})
	d := make([]byte, n)
	if chance(r, 0.8) {
		r.Read(d)
	}
	return d
}

// neighbour is other data than d, mostly close to it.
func neighbour(r *rand.Rand, d []byte) []byte {
	b := append([]byte{}, d...)
	switch r.Intn(9) {
	case 0:
		return append(b, 0)
	case 1:
		return append(b, pick(r, []byte{' ', '\n', 'x'}))
	case 2:
		return append([]byte{0}, b...)
	case 3:
		if len(b) > 0 {
			return b[:len(b)-1]
		}
		return []byte{1}
	case 4:
		if len(b) > 1 {
			return b[1:]
		}
		return []byte{9, 9}
	case 5:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			return b
		}
		return []byte("\n")
	case 6:
		if len(b) > 0 {
			b[len(b)-1] ^= 0x80
			return b
		}
		return []byte("null")
	case 7:
		if len(b) > 0 {
			return nil
		}
		return []byte("a")
	}
	o := make([]byte, len(b)+1)
	r.Read(o)
	return o[:max(1, len(b))]
}

func digests(d []byte) map[string]string {
	return map[string]string{"sha256": ref.Sha256Hex(d), "sha512": ref.Sha512Hex(d)}
}

func asHashes(m map[string]string) metadata.Hashes {
	h := metadata.Hashes{}
	for k, v := range m {
		h[k] = hexBytes(v)
	}
	return h
}

// listedHashes lists hashes which hold for d, or nearly so.
func listedHashes(r *rand.Rand, d []byte) (m map[string]string, ok bool) {
	m, ok = map[string]string{}, true
	dg := digests(d)
	for _, a := range pick(r, [][]string{{}, {"sha256"}, {"sha256"}, {"sha512"}, {"sha256", "sha512"}, {"sha256", "sha512"}}) {
		x := dg[a]
		switch r.Intn(16) {
		case 0:
			b := hexBytes(x)
			b[pick(r, []int{0, len(b) - 1, r.Intn(len(b))})] ^= byte(1 << r.Intn(8))
			x = fmt.Sprintf("%x", []byte(b))
		case 1:
			x = x[:2*r.Intn(len(x)/2)]
		case 2:
			x += pick(r, []string{"00", x, "ff"})
		case 3: // the digest of the other algorithm
			x = dg[map[string]string{"sha256": "sha512", "sha512": "sha256"}[a]]
		case 4:
			x = digests(neighbour(r, d))[a]
		case 5:
			x = ""
		}
		ok = ok && x == dg[a]
		m[a] = x
	}
	if r.Intn(10) == 0 {
		a := pick(r, []string{"md5", "sha1", "SHA256", "sha-256", "sha3-256", "", "sha384", "sha512 ", "blake2b-256"})
		m[a] = pick(r, []string{dg["sha256"], dg["sha512"], "", "00"})
		ok = false
	}
	return
}

func lenHashCase(c *Case) {
	r := c.Rng
	for k := 0; k < 20; k++ {
		d := randData(r)
		hs, hok := listedHashes(r, d)
		n := int64(len(d))
		switch r.Intn(8) {
		case 0:
			n += pick(r, []int64{1, -1, 2, 1 << 32, 1 << 62})
		case 1:
			n = r.Int63n(1 << 40)
		case 2:
			n = 0
		}
		if r.Intn(12) == 0 && len(d) > 0 {
			d = neighbour(r, d)
			dg := digests(d)
			hok = true
			for a, h := range hs {
				hok = hok && dg[a] != "" && dg[a] == h
			}
			if len(d) == 0 {
				d = nil
			}
		}
		target := chance(r, 0.5)
		var err error
		var want bool
		keep := append([]byte{}, d...)
		what := ""
		if target {
			tf := metadata.TargetFile()
			tf.Length, tf.Hashes, tf.Path = n, asHashes(hs), "x"
			if chance(r, 0.3) { // as loaded from a document
				x, ok := jsonTarget(c, n, hs)
				if !ok {
					continue
				}
				tf = x
			}
			if len(hs) == 0 && len(d) == 0 && n == 0 {
				continue
			}
			err = tf.VerifyLengthHashes(d)
			want = hok && n == int64(len(d)) && (len(hs) > 0 || len(d) == 0)
			what = "target"
		} else {
			if n < 0 {
				continue
			}
			mf := metadata.MetaFile(1)
			mf.Length, mf.Hashes = n, asHashes(hs)
			if len(hs) == 0 && chance(r, 0.5) {
				mf.Hashes = nil
			}
			err = mf.VerifyLengthHashes(d)
			want = hok && (n == 0 || n == int64(len(d)))
			what = "metadata"
		}
		c.Eval()
		c.Distinct("verify", what, want, len(hs), hok, n == int64(len(d)), n == 0, len(d) == 0)
		desc := fmt.Sprintf("%d bytes against a %s entry of length %d with hashes %v", len(d), what, n, hs)
		if want != (err == nil) {
			c.Fail(fmt.Sprintf("verify:%s:%v", what, err == nil), "%s: %v", desc, err)
			return
		}
		if want {
			c.Count("data verified: " + what)
		} else {
			c.Count("data refused: " + what)
			k := classify(err)
			sup := true
			for a := range hs {
				sup = sup && (a == "sha256" || a == "sha512")
			}
			if sup && (!k.LenHash || !k.Repo || k.Download || k.Expired || k.Unsigned || k.BadVersion) {
				c.FailTags(Tags{"C25", "C26"}, "verify-kind", "%s: reported as %v", desc, err)
				return
			}
		}
		if !bytes.Equal(d, keep) {
			c.Fail("verify-data", "%s: verification changes the data", desc)
		}
	}
}

// jsonTarget is a target entry loaded from metadata.
func jsonTarget(c *Case, n int64, hs map[string]string) (*metadata.TargetFiles, bool) {
	for a, h := range hs {
		if a == "" || len(h)%2 != 0 || len(h) == 0 {
			return nil, false
		}
	}
	if len(hs) == 0 || n < 0 {
		return nil, false
	}
	b, _ := json.Marshal(map[string]any{"length": n, "hashes": hs})
	tf := &metadata.TargetFiles{}
	if err := json.Unmarshal(b, tf); err != nil {
		c.FailTags(Tags{"C03"}, "entry", "entry %s refused: %v", b, err)
		return nil, false
	}
	c.Count("entries loaded from a document")
	return tf, true
}

func describeCase(c *Case) {
	r := c.Rng
	d := randData(r)
	if c.Idx%300 == 7 { // more than is read at once
		d = make([]byte, pickInt(r, 1<<20, 1<<20+1, 1<<22+7, 1<<24+1, 1<<25+3, 70<<20))
		r.Read(d[len(d)-1000:])
		c.Count("large content described")
	}
	var algs []string
	sup := true
	for k := r.Intn(4); k > 0; k-- {
		if chance(r, 0.1) {
			algs = append(algs, pick(r, []string{"md5", "SHA256", "", "sha1", "sha512/256", "sha384"}))
			sup = false
		} else {
			algs = append(algs, pick(r, []string{"sha256", "sha512"}))
		}
	}
	want := map[string]string{}
	dg := digests(d)
	for _, a := range algs {
		want[a] = dg[a]
	}
	if len(algs) == 0 {
		want["sha256"] = dg["sha256"]
	}
	path := pick(r, []string{"f", "a b", "é", "%41", "-", "x.tar.gz", "deep"})
	file := chance(r, 0.5)
	var tf *metadata.TargetFiles
	var err error
	base := metadata.TargetFile()
	if chance(r, 0.2) { // whatever the receiver holds does not matter
		base.Length, base.Hashes, base.Path = 77, asHashes(digests([]byte("other"))), "other"
	}
	c.Eval()
	desc := fmt.Sprintf("%d bytes described with %q (file=%v)", len(d), algs, file)
	if file {
		path = filepath.Join(c.Dir(), path)
		if chance(r, 0.06) { // no such file
			if chance(r, 0.5) {
				path = filepath.Join(path, "none")
			} else {
				os.MkdirAll(path, 0755)
			}
			tf, err := base.FromFile(path, algs...)
			c.Count("missing files")
			if err == nil || tf != nil {
				c.Fail("missing-file", "a file which is not there is described: %+v, %v", tf, err)
			}
			return
		}
		if chance(r, 0.1) {
			os.WriteFile(path+".real", d, 0644)
			os.Symlink(path+".real", path)
		} else {
			os.WriteFile(path, d, 0644)
		}
		tf, err = base.FromFile(path, algs...)
		if b, e := os.ReadFile(path); e != nil || !bytes.Equal(b, d) {
			c.Fail("file-changed", "describing a file changes it")
			return
		}
	} else {
		keep := append([]byte{}, d...)
		tf, err = base.FromBytes(path, d, algs...)
		if !bytes.Equal(d, keep) {
			c.Fail("data-changed", "describing data changes them")
			return
		}
	}
	c.Distinct("describe", file, len(d), strings.Join(algs, ","))
	if !sup {
		c.Count("unsupported algorithms refused")
		if err == nil {
			c.Fail("unsupported", "%s: no error: %+v", desc, tf)
		}
		return
	}
	if err != nil || tf == nil {
		c.Fail("describe-refused", "%s: %v", desc, err)
		return
	}
	if tf.Length != int64(len(d)) || tf.Path != path || len(tf.Hashes) != len(want) {
		c.Fail("description", "%s: length %d, path %q, %d hashes", desc, tf.Length, tf.Path, len(tf.Hashes))
		return
	}
	for a, h := range want {
		if tf.Hashes[a].String() != h {
			c.Fail("digest", "%s: %s is %s, expected %s", desc, a, tf.Hashes[a], h)
			return
		}
	}
	c.Count("descriptions compared")
	if err := tf.VerifyLengthHashes(d); err != nil {
		c.Fail("own-data", "%s: the data do not verify: %v", desc, err)
		return
	}
	for k := 0; k < 6; k++ {
		if o := neighbour(r, d); !bytes.Equal(o, d) {
			if tf.VerifyLengthHashes(o) == nil {
				c.Fail("other-data", "%s: %d other bytes verify", desc, len(o))
				return
			}
			c.Count("other data refused")
		}
	}
	// a description is a value of its own
	again, err := base.FromBytes(path, d, algs...)
	if err != nil || !again.Equal(*tf) || !tf.Equal(*again) {
		c.Fail("equal-again", "%s: describing it again gives another description: %v", desc, err)
		return
	}
	h := pick(r, ref.SortedKeys(map[string]string(want)))
	again.Hashes[h][0] ^= 1
	if tf.Hashes[h].String() != want[h] || again.Equal(*tf) {
		c.Fail("shared", "%s: two descriptions share their digests", desc)
		return
	}
	// over the wire
	b, err := json.Marshal(tf)
	var back metadata.TargetFiles
	if err == nil {
		err = json.Unmarshal(b, &back)
	}
	if err != nil || !back.Equal(*tf) || !tf.Equal(back) || back.VerifyLengthHashes(d) != nil {
		c.Fail("wire", "%s: written and read again it is another: %s, %v", desc, b, err)
	}
	c.Sample(map[string]any{"desc": desc, "hashes": want})
}

// equalCase: pairs of descriptions.
func equalCase(c *Case) {
	r := c.Rng
	for k := 0; k < 20; k++ {
		pool := [][]byte{{}, {1}, {1, 2}, []byte("abc")}
		mk := func() (*metadata.TargetFiles, map[string]string) {
			d := pick(r, pool)
			m := map[string]string{}
			dg := digests(d)
			if chance(r, 0.2) {
				dg = digests(pick(r, pool))
			}
			for _, a := range pick(r, [][]string{{}, {"sha256"}, {"sha512"}, {"sha256", "sha512"}, {"md5"}, {"md5", "sha256"}}) {
				switch {
				case a == "md5":
					m[a] = pick(r, []string{"00", "01"})
				case chance(r, 0.06):
					m[a] = dg[a][:2*r.Intn(3)]
				default:
					m[a] = dg[a]
				}
			}
			tf := metadata.TargetFile()
			tf.Length, tf.Hashes, tf.Path = int64(len(d)), asHashes(m), pick(r, []string{"a", "b"})
			if chance(r, 0.2) {
				tf.Length = int64(r.Intn(3))
			}
			if len(m) == 0 && chance(r, 0.5) {
				tf.Hashes = nil
			}
			return tf, m
		}
		a, ma := mk()
		b, mb := mk()
		if chance(r, 0.3) {
			b.Length = a.Length
		}
		shared, agree := 0, true
		for x, h := range ma {
			if o, ok := mb[x]; ok {
				shared++
				agree = agree && o == h
			}
		}
		want := a.Length == b.Length && shared > 0 && agree
		c.Eval()
		c.Count("pairs compared")
		if want {
			c.Count("pairs equal")
		}
		c.Distinct("equal", a.Length == b.Length, shared, agree, len(ma), len(mb))
		for i := 0; i < 3; i++ { // maps have no order
			if got := a.Equal(*b); got != want {
				c.Fail("equal", "length %d %v against length %d %v: equal=%v", a.Length, ma, b.Length, mb, got)
				return
			}
			if got := b.Equal(*a); got != want {
				c.Fail("equal-other-way", "length %d %v against length %d %v: equal=%v", b.Length, mb, a.Length, ma, got)
				return
			}
			if got := a.Hashes.Equal(b.Hashes); got != (shared > 0 && agree) {
				c.Fail("equal-hashes", "%v against %v: equal=%v", ma, mb, got)
				return
			}
		}
	}
}

func init() {
	registry["C25"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "data of many sizes against entries with right, wrong, near, truncated, swapped, missing and unsupported digests and lengths; descriptions of data and files compared with independent digests and used on neighbouring data; pairs of descriptions; lookups' and downloads' own verification is exercised by C13; non-trivial cases are distinct shapes and verdicts",
		F: func(r *Run) {
			r.Cases("verify", r.N(6000, 200000), lenHashCase)
			r.Cases("describe", r.N(6000, 150000), describeCase)
			r.Cases("equal", r.N(4000, 100000), equalCase)
			r.Need("data verified: target", 5000)
			r.Need("data refused: target", 5000)
			r.Need("data verified: metadata", 5000)
			r.Need("data refused: metadata", 5000)
			r.Need("descriptions compared", 2000)
			r.Need("other data refused", 10000)
			r.Need("unsupported algorithms refused", 300)
			r.Need("pairs equal", 2000)
		}}
}
