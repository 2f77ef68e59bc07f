package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"

	"verif/harness/ref"
)

// Sequences of adding and revoking keys against a model of the document.

func metaKey(k *ref.Key) *metadata.Key {
	b, _ := json.Marshal(k.Dict())
	var m metadata.Key
	if err := json.Unmarshal(b, &m); err != nil {
		panic(fmt.Sprint("key refused: ", err))
	}
	return &m
}

type keyModel struct {
	roles map[string][]string // lists
	table map[string]any      // id -> content
}

func (m *keyModel) used(id string) bool {
	for _, l := range m.roles {
		for _, x := range l {
			if x == id {
				return true
			}
		}
	}
	return false
}

func without(l []string, id string) []string {
	out := []string{}
	for _, x := range l {
		if x != id {
			out = append(out, x)
		}
	}
	return out
}

func contains(l []string, id string) bool {
	for _, x := range l {
		if x == id {
			return true
		}
	}
	return false
}

func keyOpsCase(c *Case) {
	r := c.Rng
	p := &Repo{Rng: r, Now: time.Now().UTC(), tag: fmt.Sprint("ko-", c.Idx), OtherKeys: chance(r, 0.2), Unknown: true}
	kind := pick(r, []string{"root", "root", "delegations", "delegations", "succinct"})
	var roles []string
	switch kind {
	case "root":
		roles = []string{"root", "timestamp", "snapshot", "targets"}
	case "delegations":
		for k := r.Intn(5); k > 0; k-- {
			roles = append(roles, fmt.Sprintf("%s%d", pick(r, []string{"r", "a/b", "role ", "é"}), k))
		}
	case "succinct":
		roles = []string{"bins"}
	}
	pool := p.NewKeys(5)
	// the same key with one more field is another key
	pool = append(pool, pool[0].WithExtra(map[string]any{"x-note": "n"}))
	m := &keyModel{roles: map[string][]string{}, table: map[string]any{}}
	byID := map[string]*ref.Key{}
	for _, k := range pool {
		byID[k.ID()] = k
	}
	for _, n := range roles {
		m.roles[n] = []string{}
		for _, k := range pool[:4] {
			if chance(r, 0.3) {
				m.roles[n] = append(m.roles[n], k.ID())
				m.table[k.ID()] = ref.Clone(k.Dict())
			}
		}
	}
	if chance(r, 0.2) { // in the table, used by nobody
		m.table[pool[3].ID()] = ref.Clone(pool[3].Dict())
	}
	if chance(r, 0.15) { // listed, but missing from the table until it is added again
		for _, n := range roles {
			if l := m.roles[n]; len(l) > 0 {
				delete(m.table, pick(r, l))
				c.Count("documents listing a key they lack")
				break
			}
		}
	}
	custom := ""
	if chance(r, 0.1) && len(roles) > 0 { // under an id which is not its hash
		k := p.NewKey()
		custom = "custom-id"
		m.table[custom] = ref.Clone(k.Dict())
		n := pick(r, roles)
		m.roles[n] = append(m.roles[n], custom)
	}
	// roles made in Go from one list of keys
	oneList := len(roles) > 0 && chance(r, 0.25)
	if oneList {
		from := pick(r, roles)
		for _, n := range roles {
			if chance(r, 0.7) {
				m.roles[n] = append([]string{}, m.roles[from]...)
			}
		}
		for id := range m.table {
			if !m.used(id) {
				delete(m.table, id)
			}
		}
	}
	ids := func(l []string) []any {
		out := []any{}
		for _, x := range l {
			out = append(out, x)
		}
		return out
	}
	// the document
	typ := "targets"
	if kind == "root" {
		typ = "root"
	}
	d := ref.NewDoc(typ, int64(1+r.Intn(9)), p.Future(), p.UID("doc"))
	thr := map[string]int64{}
	extra := map[string]J{}
	for _, n := range roles {
		thr[n] = int64(1 + r.Intn(3))
		extra[n] = J{}
		if chance(r, 0.3) {
			extra[n]["x-role"] = richString(r)
		}
	}
	docX := J{}
	if chance(r, 0.5) {
		docX["x-doc"] = J{"keys": J{"a": int64(1)}, "roles": []any{"root"}}
	}
	build := func() J {
		s := ref.Clone(d.Signed).(J)
		for k, v := range docX {
			s[k] = v
		}
		keys := J{}
		for id, k := range m.table {
			keys[id] = ref.Clone(k)
		}
		role := func(n string) J {
			o := J{"keyids": ids(m.roles[n]), "threshold": thr[n]}
			for k, v := range extra[n] {
				o[k] = v
			}
			return o
		}
		switch kind {
		case "root":
			s["consistent_snapshot"] = true
			s["keys"] = keys
			rs := J{}
			for _, n := range roles {
				rs[n] = role(n)
			}
			s["roles"] = rs
		case "delegations":
			l := []any{}
			for i, n := range roles {
				o := role(n)
				o["name"], o["terminating"], o["paths"] = n, i%2 == 0, []any{"*", n + "/*"}
				l = append(l, o)
			}
			s["targets"] = J{}
			s["delegations"] = J{"keys": keys, "roles": l, "x-del": "kept"}
		case "succinct":
			o := role("bins")
			o["bit_length"], o["name_prefix"] = int64(3), "bin"
			s["targets"] = J{}
			s["delegations"] = J{"keys": keys, "succinct_roles": o}
		}
		return s
	}
	d0 := &ref.Doc{Signed: build()}
	d0.Sign(pool[0])
	raw := d0.Bytes(ref.Fmt(r.Intn(3)))
	var root *metadata.Metadata[metadata.RootType]
	var targ *metadata.Metadata[metadata.TargetsType]
	load := func(raw []byte) error {
		var err error
		if kind == "root" {
			root, err = metadata.Root().FromBytes(raw)
		} else {
			targ, err = metadata.Targets().FromBytes(raw)
		}
		return err
	}
	if err := load(raw); err != nil {
		c.FailTags(Tags{"C03"}, "load", "well-formed document refused: %v", err)
		return
	}
	if oneList {
		lists := map[string][]string{}
		share := func(l []string) []string {
			id := strings.Join(l, " ")
			if lists[id] == nil {
				lists[id] = append(make([]string, 0, len(l)+r.Intn(4)), l...)
			}
			return lists[id]
		}
		for _, n := range roles {
			if kind == "root" {
				root.Signed.Roles[n].KeyIDs = share(root.Signed.Roles[n].KeyIDs)
			}
		}
		if kind == "delegations" {
			for i := range targ.Signed.Delegations.Roles {
				x := &targ.Signed.Delegations.Roles[i]
				x.KeyIDs = share(x.KeyIDs)
			}
		}
		c.Count("documents with shared key lists")
	}
	current := func() (J, error) {
		var b []byte
		var err error
		if kind == "root" {
			b, err = root.ToBytes(false)
		} else {
			b, err = targ.ToBytes(false)
		}
		if err != nil {
			return nil, err
		}
		x, err := ref.ParseJSON(b)
		if err != nil {
			return nil, err
		}
		return x.(J)["signed"].(J), nil
	}
	if kind != "root" && chance(r, 0.1) {
		// no delegations at all
		targ.Signed.Delegations = nil
		roles, m = nil, &keyModel{roles: map[string][]string{}, table: map[string]any{}}
		kind = "none"
		docX = J{}
		base, err := current()
		if err != nil {
			c.Fail("encode", "%v", err)
			return
		}
		build = func() J { return base }
	}
	shared := map[string]*metadata.Key{}
	keyOf := func(k *ref.Key) *metadata.Key {
		// the same object again, or an equal one
		if x := shared[k.ID()]; x != nil && chance(r, 0.6) {
			return x
		}
		x := metaKey(k)
		shared[k.ID()] = x
		return x
	}
	roleName := func() (string, bool) {
		if len(roles) > 0 && !chance(r, 0.2) {
			return pick(r, roles), true
		}
		n := pick(r, []string{"", "mirrors", "Root", "nobody", "root ", "targets/", "bin-1"})
		return n, kind == "succinct"
	}
	if kind == "none" {
		roleName = func() (string, bool) { return pick(r, []string{"", "x", "targets"}), false }
	}
	for step := 0; step < 12; step++ {
		n, exists := roleName()
		target := n
		if kind == "succinct" {
			target = "bins"
		}
		c.Eval()
		var err error
		var want, what string
		before, e0 := current()
		if e0 != nil {
			c.Fail("encode", "the document cannot be written: %v", e0)
			return
		}
		if chance(r, 0.55) {
			k := pick(r, pool)
			id := k.ID()
			what = fmt.Sprintf("add %.6s to %q", id, n)
			if kind == "root" {
				err = root.Signed.AddKey(keyOf(k), n)
			} else {
				err = targ.Signed.AddKey(keyOf(k), n)
			}
			if !exists {
				want = "unknown role"
			} else {
				if !contains(m.roles[target], id) {
					m.roles[target] = append(m.roles[target], id)
				}
				m.table[id] = ref.Clone(k.Dict())
			}
		} else {
			id := pick(r, []string{pick(r, pool).ID(), pick(r, pool).ID(), "", "no-such-id", custom})
			if l := m.roles[target]; len(l) > 0 && chance(r, 0.6) {
				id = pick(r, l)
			}
			what = fmt.Sprintf("revoke %.9s from %q", id, n)
			if kind == "root" {
				err = root.Signed.RevokeKey(id, n)
			} else {
				err = targ.Signed.RevokeKey(id, n)
			}
			switch {
			case !exists:
				want = "unknown role"
			case !contains(m.roles[target], id):
				want = "key not used"
			default:
				m.roles[target] = without(m.roles[target], id)
				if !m.used(id) {
					delete(m.table, id)
				}
			}
		}
		c.Logf("%s: %v", what, err)
		c.Count("operations")
		if want != "" {
			c.Count("operations refused: " + want)
		}
		c.Distinct(kind, len(roles), what[:3], want, len(m.roles[target]), len(m.table))
		if (err == nil) != (want == "") {
			c.Fail("result:"+kind+":"+what[:3]+":"+want, "%s (%s): %v, expected %q", what, kind, err, want)
			return
		}
		got, e := current()
		if e != nil {
			c.Fail("encode", "after %s (%s) the document cannot be written: %v", what, kind, e)
			return
		}
		if want != "" {
			if x := ref.Diff("", before, got); x != "" {
				c.Fail("changed-on-error:"+kind+":"+want, "refused %s (%s) changes the document: %s", what, kind, x)
				return
			}
		}
		if x := diffKeyDoc(kind, build(), got); x != "" {
			c.Fail("document:"+kind+":"+what[:3], "after %s (%s): %s", what, kind, x)
			return
		}
		if chance(r, 0.12) && kind != "none" {
			// on to a copy read back
			var b []byte
			if kind == "root" {
				b, _ = root.ToBytes(chance(r, 0.5))
			} else {
				b, _ = targ.ToBytes(chance(r, 0.5))
			}
			if err := load(b); err != nil {
				c.Fail("reload", "after %s (%s): the written document is refused: %v", what, kind, err)
				return
			}
			c.Count("documents read back")
		}
	}
	if kind != "none" {
		keyOpsVerify(c, kind, roles, m, byID, thr, root, targ)
	}
	c.Sample(map[string]any{"kind": kind, "trace": c.trace})
}

// keyOpsVerify: who may sign for a role is what the lists say.
func keyOpsVerify(c *Case, kind string, roles []string, m *keyModel, byID map[string]*ref.Key, thr map[string]int64, root *metadata.Metadata[metadata.RootType], targ *metadata.Metadata[metadata.TargetsType]) {
	for _, n := range roles {
		for _, id := range m.roles[n] {
			if byID[id] == nil || m.table[id] == nil {
				return // a key under a foreign id, or one the document lacks
			}
		}
		d := ref.NewDoc("targets", 1, time.Now().UTC().Add(time.Hour*1000), "u")
		d.Signed["targets"] = J{}
		name := n
		switch {
		case kind == "root":
			if n == "root" || n == "timestamp" || n == "snapshot" {
				continue
			}
		case kind == "succinct":
			name = "bin-5"
		}
		var signers []*ref.Key
		good := map[string]bool{}
		for _, id := range ref.SortedKeys(byID) {
			if chance(c.Rng, 0.6) {
				signers = append(signers, byID[id])
				if contains(m.roles[n], id) {
					// two entries with the same material count once
					good[byID[id].Dict()["keyval"].(J)["public"].(string)] = true
				}
			}
		}
		d.Sign(signers...)
		md, err := metadata.Targets().FromBytes(d.Bytes(0))
		if err != nil {
			return
		}
		if kind == "root" {
			err = root.VerifyDelegate(name, md)
		} else {
			err = targ.VerifyDelegate(name, md)
		}
		c.Count("verifications after the operations")
		if want := int64(len(good)) >= thr[n]; want != (err == nil) {
			c.FailTags(Tags{"C19", "C01"}, "verify:"+kind, "%d of %d signatures are by keys of %q (threshold %d): %v", len(good), len(signers), n, thr[n], err)
			return
		}
	}
}

// diffKeyDoc compares documents; the order of key ids is free.
func diffKeyDoc(kind string, want, got J) string {
	norm := func(x J) J {
		x = ref.Clone(x).(J)
		var rs []any
		switch kind {
		case "root":
			for _, v := range x["roles"].(J) {
				rs = append(rs, v)
			}
		case "delegations":
			if dl, ok := x["delegations"].(J); ok {
				rs, _ = dl["roles"].([]any)
			}
		case "succinct":
			if dl, ok := x["delegations"].(J); ok {
				rs = []any{dl["succinct_roles"]}
			}
		}
		for _, v := range rs {
			if o, ok := v.(J); ok {
				if l, ok := o["keyids"].([]any); ok {
					sortAny(l)
				}
			}
		}
		return x
	}
	return ref.Diff("", norm(want), norm(got))
}

// freshKeysCase: documents made in memory, not read from a file.
func freshKeysCase(c *Case) {
	r := c.Rng
	p := &Repo{Rng: r, Now: time.Now().UTC(), tag: fmt.Sprint("fk-", c.Idx)}
	pool := p.NewKeys(3)
	root := metadata.Root(p.Future())
	if chance(r, 0.3) {
		root.Signed.Keys = nil
	}
	lists := map[string][]string{}
	tl := metadata.Targets(p.Future())
	deleg := chance(r, 0.7)
	if deleg {
		tl.Signed.Delegations = &metadata.Delegations{}
		switch r.Intn(4) {
		case 0:
			tl.Signed.Delegations.Roles = []metadata.DelegatedRole{{Name: "a", Threshold: 1}, {Name: "b", Threshold: 1, KeyIDs: []string{}}}
		case 1:
			tl.Signed.Delegations.SuccinctRoles = &metadata.SuccinctRoles{Threshold: 1, BitLength: 2, NamePrefix: "p"}
		case 2:
			tl.Signed.Delegations.Roles = []metadata.DelegatedRole{}
		}
		if chance(r, 0.5) {
			tl.Signed.Delegations.Keys = map[string]*metadata.Key{}
		}
	}
	tlists := map[string][]string{}
	for k := 0; k < 8; k++ {
		key := pick(r, pool)
		role := pick(r, []string{"root", "targets", "snapshot", "timestamp", "x"})
		c.Eval()
		err := root.Signed.AddKey(metaKey(key), role)
		if (err == nil) != (role != "x") {
			c.Fail("fresh-root", "adding a key to %q of a new root: %v", role, err)
			return
		}
		if err == nil {
			lists[role] = append(without(lists[role], key.ID()), key.ID())
		}
		role = pick(r, []string{"a", "b", "x"})
		ok := false
		if deleg {
			if tl.Signed.Delegations.SuccinctRoles != nil {
				ok, role = true, "succinct"
			}
			for _, d := range tl.Signed.Delegations.Roles {
				ok = ok || d.Name == role
			}
		}
		before, e1 := tl.ToBytes(false)
		err = tl.Signed.AddKey(metaKey(key), role)
		if after, e2 := tl.ToBytes(false); err != nil && (string(before) != string(after) || (e1 == nil) != (e2 == nil)) {
			c.Fail("fresh-changed-on-error", "refused addition to %q changes the document from %s to %s", role, before, after)
			return
		}
		if (err == nil) != ok {
			c.Fail("fresh-targets", "adding a key to delegated role %q, which exists: %v: %v", role, ok, err)
			return
		}
		if ok {
			tlists[role] = append(without(tlists[role], key.ID()), key.ID())
		}
		err = tl.Signed.RevokeKey("nothing", role)
		if err == nil {
			c.Fail("fresh-revoke", "revoking an unknown key from %q succeeds", role)
			return
		}
		c.Count("operations on new documents")
	}
	for role, l := range lists {
		if len(root.Signed.Roles[role].KeyIDs) != len(l) {
			c.Fail("fresh-list", "role %q lists %v, added were %v", role, root.Signed.Roles[role].KeyIDs, l)
			return
		}
		for _, id := range l {
			if !contains(root.Signed.Roles[role].KeyIDs, id) || root.Signed.Keys[id] == nil {
				c.Fail("fresh-list", "role %q: key %s is not listed or not in the table", role, id)
				return
			}
		}
	}
	for role, l := range tlists {
		for _, id := range l {
			var have []string
			if s := tl.Signed.Delegations.SuccinctRoles; s != nil {
				have = s.KeyIDs
			}
			for _, d := range tl.Signed.Delegations.Roles {
				if d.Name == role {
					have = d.KeyIDs
				}
			}
			if !contains(have, id) || len(have) != len(l) || tl.Signed.Delegations.Keys[id] == nil {
				c.Fail("fresh-deleg-list", "delegated role %q lists %v, added were %v", role, have, l)
				return
			}
		}
	}
	// everything can be taken back
	for role, l := range lists {
		for _, id := range l {
			if err := root.Signed.RevokeKey(id, role); err != nil {
				c.Fail("fresh-take-back", "revoking %s from %q: %v", id, role, err)
				return
			}
		}
	}
	if len(root.Signed.Keys) != 0 {
		c.Fail("fresh-left", "%d keys are left in the table after all were revoked", len(root.Signed.Keys))
	}
	c.Distinct("fresh", deleg, len(lists), len(tlists))
}

func init() {
	registry["C19"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "sequences of adding and revoking keys, known and unknown, for known and unknown roles, on root and targets metadata (delegated roles, succinct roles, none), loaded and made in memory, reread in between; after every step the whole written document is compared with a model, and at the end who may sign is tried; non-trivial cases are distinct kinds of operation, outcome and sizes",
		F: func(r *Run) {
			r.Cases("keyops", r.N(4000, 200000), keyOpsCase)
			r.Cases("fresh", r.N(1500, 40000), freshKeysCase)
			r.Need("operations", 30000)
			r.Need("operations refused: unknown role", 2000)
			r.Need("operations refused: key not used", 2000)
			r.Need("documents read back", 2000)
			r.Need("verifications after the operations", 1500)
			r.Need("operations on new documents", 8000)
		}}
}
