package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"

	"verif/harness/ref"
)

// anyMeta is a loaded metadata object of any role type.
type anyMeta interface {
	ToBytes(pretty bool) ([]byte, error)
	ToFile(name string, pretty bool) error
	VerifyDelegate(role string, m any) error
	ClearSignatures()
}

// libLoad loads raw with the library as the given type.
func libLoad(typ string, raw []byte) (anyMeta, error) {
	switch typ {
	case "root":
		m, err := metadata.Root().FromBytes(raw)
		if err != nil {
			return nil, err
		}
		return m, nil
	case "timestamp":
		m, err := metadata.Timestamp().FromBytes(raw)
		if err != nil {
			return nil, err
		}
		return m, nil
	case "snapshot":
		m, err := metadata.Snapshot().FromBytes(raw)
		if err != nil {
			return nil, err
		}
		return m, nil
	case "targets":
		m, err := metadata.Targets().FromBytes(raw)
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	panic("type " + typ)
}

func libLoadFile(typ, path string) (anyMeta, error) {
	switch typ {
	case "root":
		m, err := metadata.Root().FromFile(path)
		if err != nil {
			return nil, err
		}
		return m, nil
	case "timestamp":
		m, err := metadata.Timestamp().FromFile(path)
		if err != nil {
			return nil, err
		}
		return m, nil
	case "snapshot":
		m, err := metadata.Snapshot().FromFile(path)
		if err != nil {
			return nil, err
		}
		return m, nil
	case "targets":
		m, err := metadata.Targets().FromFile(path)
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	panic("type " + typ)
}

// anyKey draws a key of any kind.
func anyKey(c *Case, label string) *ref.Key {
	r := c.Rng
	switch r.Intn(9) {
	case 0:
		return ref.ECDSA(r.Intn(ref.NumECDSA()), false)
	case 1:
		return ref.ECDSA(r.Intn(ref.NumECDSA()), true)
	case 2:
		return ref.RSA(r.Intn(ref.NumRSA()))
	case 3:
		return ref.RSAPSS(r.Intn(ref.NumRSA()))
	}
	return ref.Ed25519(fmt.Sprintf("%s-%d-%s", c.Section, c.Idx, label))
}

// minimalDoc is a small document of a type.
func minimalDoc(typ, uid string) *ref.Doc {
	d := ref.NewDoc(typ, 1, farFuture(), uid)
	switch typ {
	case "root":
		d.Signed["consistent_snapshot"] = true
		k := ref.Ed25519("minimal")
		roles := J{}
		for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
			roles[n] = J{"keyids": []any{k.ID()}, "threshold": int64(1)}
		}
		d.Signed["keys"], d.Signed["roles"] = keyTable([]*ref.Key{k}), roles
	case "timestamp":
		d.Signed["meta"] = J{"snapshot.json": J{"version": int64(1)}}
	case "snapshot":
		d.Signed["meta"] = J{"targets.json": J{"version": int64(1)}}
	case "targets":
		d.Signed["targets"] = J{}
	}
	return d
}

// verifyCase compares VerifyDelegate with the reference threshold rule.
func verifyCase(c *Case) {
	r := c.Rng
	shape := pick(r, []string{"root", "root", "targets", "targets", "succinct"})
	n := 1 + r.Intn(5)
	var pool []*ref.Key
	many := chance(r, 0.04)
	for i := 0; i < n; i++ {
		pool = append(pool, anyKey(c, fmt.Sprint("k", i)))
	}
	if many { // a large organisation
		for i := 8 + r.Intn(70); i > 0; i-- {
			pool = append(pool, ref.Ed25519(fmt.Sprintf("many-%d-%d", c.Idx, i)))
		}
		c.Count("roles with many keys")
	}
	// aliases: the same public key under another id
	for i := r.Intn(3); i > 0; i-- {
		pool = append(pool, pick(r, pool).WithExtra(J{"x-alias": int64(i)}))
	}
	// keep ids unique
	seen := map[string]bool{}
	var uniq []*ref.Key
	for _, k := range pool {
		if !seen[k.ID()] {
			seen[k.ID()] = true
			uniq = append(uniq, k)
		}
	}
	pool = uniq
	// the role lists a part of the pool
	perm := r.Perm(len(pool))
	na := 1 + r.Intn(len(pool))
	if many && chance(r, 0.7) {
		na = len(pool) - r.Intn(len(pool)/4)
	}
	var auth, rest []*ref.Key
	for j, i := range perm {
		if j < na {
			auth = append(auth, pool[i])
		} else {
			rest = append(rest, pool[i])
		}
	}
	rest = append(rest, ref.Ed25519(fmt.Sprintf("stranger-%d", c.Idx)))
	ids := keyIDs(auth)
	for i := r.Intn(3); i > 0; i-- { // listed again
		ids = append(ids, auth[r.Intn(len(auth))].ID())
	}
	if many && chance(r, 0.3) { // many times over
		x := auth[r.Intn(len(auth))].ID()
		for i := r.Intn(300); i > 0; i-- {
			ids = append(ids, x)
		}
	}
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	table := keyTable(auth, rest)
	note := ""
	if chance(r, 0.06) { // a listed key is missing from the table
		delete(table, auth[r.Intn(len(auth))].ID())
		note += " missing-key"
	}
	if chance(r, 0.06) { // a listed key is unusable
		k := auth[r.Intn(len(auth))]
		if d, ok := table[k.ID()].(J); ok {
			d = ref.Clone(d).(J)
			d["keyval"].(J)["public"] = pick(r, []string{"", "zz", "00", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"})
			table[k.ID()] = d
			note += " unusable-key"
		}
	}
	distinctKeys := map[string]bool{}
	for _, k := range auth {
		distinctKeys[k.Public] = true
	}
	thr := int64(1 + r.Intn(len(distinctKeys)+1))
	if many && chance(r, 0.8) { // about as many as sign
		thr = max(1, int64(len(distinctKeys))*int64(40+r.Intn(40))/100)
	}
	if chance(r, 0.1) {
		thr = int64(len(ids)) + int64(r.Intn(2))
	}
	role := J{"keyids": ids, "threshold": thr}
	// the delegating document
	var d *ref.Doc
	typ := "targets"
	name := "targets"
	child := "targets"
	switch shape {
	case "root":
		typ = "root"
		child = pick(r, []string{"root", "timestamp", "snapshot", "targets"})
		name = child
		d = minimalDoc("root", "delegator")
		for id, k := range table {
			d.Signed["keys"].(J)[id] = k
		}
		d.Signed["roles"].(J)[child] = role
	case "targets":
		name = pick(r, []string{"a", "b", "role/x", "A", "é", "targets2"})
		d = minimalDoc("targets", "delegator")
		role["name"], role["terminating"], role["paths"] = name, false, []any{"*"}
		roles := []any{role}
		if chance(r, 0.5) { // others around it
			o := ref.Clone(role).(J)
			o["name"], o["threshold"], o["keyids"] = "other", int64(1), keyIDs(rest)
			if chance(r, 0.5) {
				roles = []any{o, role}
			} else {
				roles = []any{role, o}
			}
		}
		d.Signed["delegations"] = J{"keys": table, "roles": roles}
	case "succinct":
		d = minimalDoc("targets", "delegator")
		bits := 1 + r.Intn(10)
		role["bit_length"], role["name_prefix"] = int64(bits), pick(r, []string{"bin", "b", "bin-x", "é"})
		d.Signed["delegations"] = J{"keys": table, "succinct_roles": role}
		s := &ref.Succinct{BitLength: int64(bits), Prefix: role["name_prefix"].(string)}
		name = s.Name(uint64(r.Intn(1 << bits)))
	}
	// the signed document
	doc := minimalDoc(child, fmt.Sprint("doc-", c.Idx))
	sigs := ""
	for _, k := range append(append([]*ref.Key{}, auth...), rest...) {
		isAuth := false
		for _, a := range auth {
			isAuth = isAuth || a == k
		}
		switch x := r.Intn(14); {
		case x < 6 || (isAuth && x < 8):
			doc.Sign(k)
			sigs += "g"
		case x == 8: // corrupted
			doc.Sign(k)
			flipHexSig(doc, len(doc.Sigs)-1)
			sigs += "c"
		case x == 9: // another key's signature under this id
			doc.SignAs(k.ID(), rest[r.Intn(len(rest))])
			sigs += "f"
		case x == 10: // signature of something else
			o := doc.Clone()
			o.Signed["version"] = int64(77)
			o.Sigs = nil
			o.Sign(k)
			doc.Sigs = append(doc.Sigs, o.Sigs...)
			sigs += "o"
		case x == 11: // empty or short
			doc.Sign(k)
			last := doc.Sigs[len(doc.Sigs)-1].(J)
			s := last["sig"].(string)
			last["sig"] = s[:2*r.Intn(len(s)/2)]
			sigs += "e"
		case x == 12: // good bytes with something appended
			doc.Sign(k)
			last := doc.Sigs[len(doc.Sigs)-1].(J)
			last["sig"] = last["sig"].(string) + "00"
			sigs += "a"
		}
	}
	if chance(r, 0.2) { // a signature under an unknown id
		doc.SignAs(strings.Repeat("ab", 32), auth[0])
		sigs += "u"
	}
	r.Shuffle(len(doc.Sigs), func(i, j int) { doc.Sigs[i], doc.Sigs[j] = doc.Sigs[j], doc.Sigs[i] })
	ask := name
	if chance(r, 0.2) {
		ask = mutateName(c, name)
		if shape == "root" && chance(r, 0.5) {
			ask = pick(r, []string{"mirrors", "", "bin-0", "Root", "role1", "root.json"})
		}
	}
	raw, draw := doc.Bytes(ref.Fmt(r.Intn(3))), d.Bytes(ref.Fmt(r.Intn(3)))
	dv, err := ref.ParseView(draw)
	if err != nil {
		panic(err)
	}
	v, err := ref.ParseView(raw)
	if err != nil {
		panic(err)
	}
	want := dv.Verify(ask, v)
	deleg, err := libLoad(typ, draw)
	if err != nil {
		c.FailTags(Tags{"C01", "C03", "C20"}, "load-delegator", "delegating document refused: %v", err)
		return
	}
	signed, err := libLoad(child, raw)
	if err != nil {
		c.FailTags(Tags{"C01", "C03"}, "load-doc", "signed document refused: %v", err)
		return
	}
	before, _ := deleg.ToBytes(false)
	sbefore, _ := signed.ToBytes(false)
	got := deleg.VerifyDelegate(ask, signed)
	c.Eval()
	c.Count(fmt.Sprintf("verdict of the rule: %s", []string{"reject", "accept", "open"}[want]))
	c.Distinct(shape, len(auth), len(ids), thr, sortedRunes(sigs), ask == name, note, want)
	c.Logf("%s delegates %q (asked %q) keys=%d ids=%d threshold=%d sigs=%s%s: rule=%v library=%v", shape, name, ask, len(auth), len(ids), thr, sigs, note, want, got)
	c.Logf("delegator %s", draw)
	c.Logf("document %s", raw)
	c.Sample(map[string]any{"shape": shape, "role": name, "asked": ask, "keyids": len(ids), "threshold": thr, "signatures": sigs, "note": note, "rule": want})
	switch {
	case want == ref.Accept && got != nil:
		c.FailTags(Tags{"C01", "C02"}, "false-reject:"+shape, "%s role %q with threshold %d of %d keys, signatures %q: refused: %v", shape, ask, thr, len(auth), sigs, got)
	case want == ref.Reject && got == nil:
		key := "false-accept:" + shape
		if ask != name {
			key = "undelegated:" + shape
		}
		c.FailTags(Tags{"C01"}, key, "%s role %q (delegated %q) with threshold %d of %d keys, signatures %q%s: accepted", shape, ask, name, thr, len(auth), sigs, note)
	case want == ref.Reject && ask == name && note == "" && !classify(got).Unsigned:
		c.FailTags(Tags{"C26"}, "kind:"+shape, "too few signatures reported as %v", got)
	}
	// what is no document has no signatures, and what delegates nothing has no keys
	if chance(r, 0.1) {
		for what, x := range map[string]any{"nil": nil, "text": string(raw), "bytes": raw, "number": 1, "an unsigned value": metadata.Metadata[metadata.TargetsType]{}, "a signed part": &metadata.TargetsType{}, "a view": v.Raw} {
			if deleg.VerifyDelegate(ask, x) == nil {
				c.FailTags(Tags{"C01"}, "no-document", "%s role %q: %s is accepted as its document", shape, ask, what)
			}
		}
		for _, other := range []string{"snapshot", "timestamp"} {
			m, err := libLoad(other, minimalDoc(other, "m").Bytes(ref.Compact))
			if err != nil {
				c.FailTags(Tags{"C03"}, "load-doc", "minimal %s refused: %v", other, err)
				continue
			}
			for _, role := range []string{ask, child, other} {
				if m.VerifyDelegate(role, signed) == nil {
					c.FailTags(Tags{"C01"}, "no-delegator", "%s accepts a document for role %q", other, role)
				}
			}
		}
		c.Count("verifications without a document or a delegator")
	}
	// verifying again gives the same, and changes nothing
	if again := deleg.VerifyDelegate(ask, signed); (again == nil) != (got == nil) {
		c.FailTags(Tags{"C01", "C21"}, "unstable", "second verification differs: %v then %v", got, again)
	}
	after, _ := deleg.ToBytes(false)
	safter, _ := signed.ToBytes(false)
	if string(before) != string(after) || string(sbefore) != string(safter) {
		c.FailTags(Tags{"C01", "C03"}, "changed", "verification changed an object")
	}
}

func sortedRunes(s string) string {
	b := []byte(s)
	n := map[byte]int{}
	for _, x := range b {
		n[x]++
	}
	return fmt.Sprint(n['g'], n['c'] > 0, n['f'] > 0, n['o'] > 0, n['e'] > 0, n['a'] > 0, n['u'] > 0)
}

// mutateName makes a near miss of a role name.
func mutateName(c *Case, n string) string {
	r := c.Rng
	switch r.Intn(9) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return n + " "
	case 2:
		return " " + n
	case 3:
		return n + "0"
	case 4:
		if len(n) > 1 {
			return n[:len(n)-1]
		}
		return ""
	case 5:
		return n + ".json"
	case 6:
		if i := strings.LastIndex(n, "-"); i >= 0 {
			return n[:i+1] + "0" + n[i+1:]
		}
		return "-" + n
	case 7:
		if i := strings.LastIndex(n, "-"); i >= 0 {
			return n[:i+1] + "+" + n[i+1:]
		}
		return "+" + n
	default:
		if i := strings.LastIndex(n, "-"); i >= 0 && len(n)-i > 2 {
			return n[:i+1] + n[i+2:]
		}
		return n + n
	}
}

// thresholdLoadCase: documents with a threshold below one are refused.
func thresholdLoadCase(c *Case) {
	r := c.Rng
	k := ref.Ed25519("t")
	bad := pick(r, []any{int64(0), int64(-1), int64(-5), int64(math.MinInt64), int64(-1 << 31), nil})
	good := pick(r, []any{int64(1), int64(2), int64(9)})
	val := good
	ok := chance(r, 0.4)
	if !ok {
		val = bad
	}
	role := J{"keyids": []any{k.ID()}, "threshold": val}
	if val == nil {
		delete(role, "threshold")
	}
	nobody := chance(r, 0.25) // whether that is refused too is not judged
	if nobody {
		role["keyids"] = []any{}
	}
	typ := "targets"
	var d *ref.Doc
	shape := pick(r, []string{"root", "targets", "succinct"})
	where := ""
	switch shape {
	case "root":
		typ = "root"
		d = minimalDoc("root", "d")
		where = pick(r, []string{"root", "timestamp", "snapshot", "targets", "mirrors", "other"})
		d.Signed["roles"].(J)[where] = role
	case "targets":
		d = minimalDoc("targets", "d")
		g := J{"keyids": []any{k.ID()}, "threshold": int64(1), "name": "ok", "terminating": false, "paths": []any{"*"}}
		role["name"], role["terminating"], role["paths"] = "b", true, []any{"*"}
		roles := []any{g, role, J{"keyids": []any{k.ID()}, "threshold": int64(1), "name": "z", "terminating": false, "paths": []any{"*"}}}
		d.Signed["delegations"] = J{"keys": keyTable([]*ref.Key{k}), "roles": roles}
	case "succinct":
		d = minimalDoc("targets", "d")
		role["bit_length"], role["name_prefix"] = int64(3), "bin"
		d.Signed["delegations"] = J{"keys": keyTable([]*ref.Key{k}), "succinct_roles": role}
	}
	raw := d.Sign(k).Bytes(ref.Fmt(r.Intn(3)))
	_, err := libLoad(typ, raw)
	c.Eval()
	c.Count(fmt.Sprintf("documents with threshold: ok=%v", ok))
	c.Distinct("threshold", shape, where, fmt.Sprint(val))
	c.Logf("%s %s threshold %v: %v", shape, where, val, err)
	if ok && !nobody && err != nil {
		c.Fail("threshold-refused:"+shape, "%s role with threshold %v refused: %v", shape, val, err)
	}
	if !ok && err == nil {
		c.Fail("threshold-accepted:"+shape, "%s %s role with threshold %v accepted", shape, where, val)
	}
}

func init() {
	registry["C01"] = &Prop{Level: "exploration", Asm: append([]string{"metadata listing missing or unusable keys are judged only when the threshold is not met"}, asmCommon...),
		Rule: "random delegating documents (root, targets, hash bins) and signature sets (good, corrupted, repeated, foreign, misattributed, several ids of one key) verified by the library and by a reference rule; " + ruleT + ruleU + "non-trivial cases are distinct combinations of delegator kind, number of keys and ids, threshold, kinds of signatures and verdict",
		F: func(r *Run) {
			r.Cases("verify", r.N(9000, 300000), verifyCase)
			r.Cases("threshold", r.N(800, 10000), thresholdLoadCase)
			tRun(r, "t-mixed", r.N(600, 15000), profMixed)
			uRun(r, "u-mixed", r.N(250, 8000), uMixed)
			r.Need("verdict of the rule: accept", 1000)
			r.Need("verdict of the rule: reject", 1000)
			r.Need("refused for sig", 200)
		}}
}

var _ = time.Now
