package main

import (
	"fmt"
	"os"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"

	"verif/harness/ref"
)

// T-level: random sequences of update calls on the trusted metadata set,
// compared call by call with the reference model.

type tProfile struct {
	maxOps   int
	rootBias float64 // share of root operations before a timestamp is loaded
	disorder float64 // share of out-of-order calls
	faultP   []int   // number of faults injected, chosen uniformly
	adv      float64 // share of correctly signed but old or odd timestamps and snapshots
	delegs   int
	evolve   float64
}

type tWorld struct {
	c       *Case
	p       *Repo
	prof    tProfile
	pool    map[string][][]byte
	snapFor map[string][]byte            // timestamp uid -> snapshot bytes
	targFor map[string]map[string][]byte // snapshot uid -> role -> bytes
	lastSn  craftOut
}

func tagsForAccept(op string, f ref.Faults) Tags {
	t := Tags{}
	for x := range f {
		switch x {
		case ref.FSig, ref.FNoDeleg:
			t = append(t, "C01")
		case ref.FVersion:
			switch op {
			case "timestamp":
				t = append(t, "C06")
			case "snapshot":
				t = append(t, "C06", "C07")
			case "targets":
				t = append(t, "C07")
			}
		case ref.FEqual, ref.FMissing:
			t = append(t, "C06")
		case ref.FExpired:
			t = append(t, "C08")
		case ref.FLenHash, ref.FUnlisted:
			t = append(t, "C07")
		case ref.FOrder:
			t = append(t, "C09")
		case ref.FMalformed, ref.FType:
			t = append(t, "C03")
		}
	}
	if op == "root" {
		t = append(t, "C05")
	}
	return t
}

func tagsForReject(op string, err error) Tags {
	t := Tags{"C24"}
	k := classify(err)
	switch {
	case k.Unsigned:
		t = append(t, "C01", "C02")
	case k.Equal:
		t = append(t, "C06")
	case k.BadVersion:
		t = append(t, "C06", "C07")
	case k.Expired:
		t = append(t, "C08")
	case k.LenHash:
		t = append(t, "C07", "C25")
	case k.Runtime:
		t = append(t, "C09")
	default:
		t = append(t, "C03", "C07")
	}
	switch op {
	case "root":
		t = append(t, "C05")
	case "timestamp":
		t = append(t, "C06")
	case "snapshot":
		t = append(t, "C06", "C07")
	case "targets":
		t = append(t, "C07")
	}
	return t
}

func (w *tWorld) keep(role string, raw []byte) {
	l := w.pool[role]
	if len(l) > 12 {
		l = l[1:]
	}
	w.pool[role] = append(l, raw)
}

func (w *tWorld) nf() int { return pick(w.c.Rng, w.prof.faultP) }

// mkRoot makes a candidate successor for the current model root.
func (w *tWorld) mkRoot(cur int64) (raw []byte, desc string) {
	p, r := w.p, w.c.Rng
	// make sure the repository is at most one version ahead of the client
	for p.RootVer < cur+1 {
		old := p.Top["root"]
		oldKeys := old.Keys
		faults := w.nf()
		p.RotateSome()
		d := p.RootDocs[len(p.RootDocs)-1]
		if chance(r, 0.15) {
			d = d.Clone()
			d.Signed["expires"] = ref.TimeStr(p.Past())
			d.Sigs = nil
			p.signBoth(d, oldKeys)
			p.RootDocs[len(p.RootDocs)-1] = d
			p.Roots[len(p.Roots)-1] = d.Bytes(p.fmt())
		}
		if faults > 0 {
			raw, desc = w.damageRoot(d, old, faults)
			w.keep("root", p.Roots[len(p.Roots)-1])
			return raw, desc
		}
	}
	if chance(r, 0.2) {
		v := r.Intn(len(p.Roots))
		return p.Roots[v], fmt.Sprintf("root replay v%d", v+1)
	}
	if int(cur) < len(p.Roots) {
		if f := w.nf(); f > 0 && cur >= 1 {
			// the old keys are those of the previous document
			prev := w.rootRole(cur)
			return w.damageRoot(p.RootDocs[cur], prev, f)
		}
		return p.Roots[cur], fmt.Sprintf("root honest v%d", cur+1)
	}
	return p.Roots[len(p.Roots)-1], "root newest"
}

// rootRole reconstructs the root role of version v from the key objects known.
func (w *tWorld) rootRole(v int64) *TopRole {
	roles := w.p.RootDocs[v-1].Signed["roles"].(J)["root"].(J)
	t := &TopRole{Threshold: int(roles["threshold"].(int64))}
	for _, id := range roles["keyids"].([]any) {
		if k := w.keyByID(id.(string)); k != nil {
			t.Keys = append(t.Keys, k)
		}
	}
	return t
}

var _ = time.Now

func (w *tWorld) keyByID(id string) *ref.Key {
	for _, t := range w.p.Top {
		for _, k := range t.Keys {
			if k.ID() == id {
				return k
			}
		}
	}
	return w.p.oldKeys[id]
}

func (w *tWorld) damageRoot(d *ref.Doc, old *TopRole, faults int) ([]byte, string) {
	p, r := w.p, w.c.Rng
	d = d.Clone()
	d.Signed["x-uid"] = p.UID("c-root")
	desc := "root"
	newRole := d.Signed["roles"].(J)["root"].(J)
	newIDs := map[string]bool{}
	var newKeys []*ref.Key
	for _, id := range newRole["keyids"].([]any) {
		newIDs[id.(string)] = true
		if k := w.keyByID(id.(string)); k != nil {
			newKeys = append(newKeys, k)
		}
	}
	sigKeys := append([]*ref.Key{}, newKeys...)
	for _, k := range old.Keys {
		if !newIDs[k.ID()] {
			sigKeys = append(sigKeys, k)
		}
	}
	bytesMode := false
	for i := 0; i < faults; i++ {
		switch r.Intn(8) {
		case 0:
			v := d.Signed["version"].(int64) + []int64{-2, -1, 1, 2, 7, 1 << 32, 1 << 40, 1<<62 + 1}[r.Intn(8)]
			d.Signed["version"] = v
			desc += fmt.Sprintf(" version=%d", v)
		case 1: // only the old keys
			sigKeys = append([]*ref.Key{}, old.Keys...)
			desc += " old-only"
		case 2: // only the new keys
			sigKeys = append([]*ref.Key{}, newKeys...)
			desc += " new-only"
		case 3: // random subset
			perm := r.Perm(len(sigKeys))
			var s []*ref.Key
			for _, j := range perm[:r.Intn(len(sigKeys)+1)] {
				s = append(s, sigKeys[j])
			}
			sigKeys = s
			desc += fmt.Sprintf(" subset%d", len(s))
		case 4:
			bytesMode = true
		case 5: // raise the new threshold
			newRole["threshold"] = newRole["threshold"].(int64) + 1
			desc += " raised-threshold"
		case 6: // signed by keys of other roles
			sigKeys = append([]*ref.Key{}, p.strangers("root")...)
			desc += " strangers"
		case 7:
			d.Signed["expires"] = ref.TimeStr(p.Past())
			desc += " expired"
		}
	}
	d.Sigs = nil
	d.Sign(sigKeys...)
	if r.Intn(10) == 0 && len(d.Sigs) > 0 {
		flipHexSig(d, r.Intn(len(d.Sigs)))
		desc += " flipped-sig"
	}
	raw := d.Bytes(p.fmt())
	if bytesMode {
		var s string
		raw, s = p.craftBytes(raw)
		desc += " bytes:" + s
	}
	return raw, desc
}

func (w *tWorld) mkSnapshot() craftOut {
	p, r := w.p, w.c.Rng
	// evolve some targets roles
	rawOf := map[string][]byte{}
	verOf := map[string]int64{}
	for _, n := range p.Order {
		tr := p.Roles[n]
		if chance(r, 0.3) {
			tr.Version++
			d := p.TargetsDoc(tr, tr.Version, p.Future())
			f := w.nf()
			thr := 1
			if n == "targets" {
				thr = p.Top["targets"].Threshold
				tr.Keys = p.Top["targets"].Keys
			} else {
				thr = len(tr.Keys)
			}
			co := p.Craft(n, d, tr.Keys, thr, f)
			tr.raw = co.raw
			w.keep("t:"+n, co.raw)
		}
		rawOf[n] = tr.raw
		verOf[n] = tr.Version
	}
	if chance(r, 0.7) {
		p.SnapVer++
	}
	d := p.SnapshotDoc(p.SnapVer, p.Future())
	if chance(r, w.prof.adv) {
		if chance(r, 0.5) {
			d.Signed["expires"] = ref.TimeStr(p.Past())
		}
		desc := "snapshot, signed, old or odd"
		for chance(r, 0.4) {
			desc += " " + p.craftMeta(d.Signed["meta"].(J))
		}
		d.Signed["x-uid"] = p.UID("adv-snapshot")
		raw := d.Sign(p.Top["snapshot"].Keys...).Bytes(p.fmt())
		w.targFor[d.Signed["x-uid"].(string)] = rawOf
		w.keep("snapshot", raw)
		w.lastSn = craftOut{raw: raw, desc: desc, uid: d.Signed["x-uid"].(string)}
		return w.lastSn
	}
	co := p.Craft("snapshot", d, p.Top["snapshot"].Keys, p.Top["snapshot"].Threshold, w.nf())
	w.targFor[co.uid] = rawOf
	w.keep("snapshot", co.raw)
	w.lastSn = co
	return co
}

func (w *tWorld) mkTimestamp() craftOut {
	p, r := w.p, w.c.Rng
	if w.lastSn.raw == nil || chance(r, 0.6) {
		w.mkSnapshot()
	}
	if chance(r, 0.8) {
		p.TSVer++
	}
	d := p.TimestampDoc(p.TSVer, p.SnapVer, w.lastSn.raw, p.Future())
	if chance(r, w.prof.adv) { // correctly signed, but only good as baseline or a rollback
		if chance(r, 0.5) {
			d.Signed["expires"] = ref.TimeStr(p.Past())
		}
		if e := d.Signed["meta"].(J)["snapshot.json"].(J); chance(r, 0.5) {
			e["version"] = e["version"].(int64) + int64(r.Intn(5)-3)
			delete(e, "hashes")
			delete(e, "length")
		}
		d.Signed["x-uid"] = p.UID("adv-timestamp")
		raw := d.Sign(p.Top["timestamp"].Keys...).Bytes(p.fmt())
		w.snapFor[d.Signed["x-uid"].(string)] = w.lastSn.raw
		w.keep("timestamp", raw)
		return craftOut{raw: raw, desc: "timestamp, signed, old or odd", uid: d.Signed["x-uid"].(string)}
	}
	co := p.Craft("timestamp", d, p.Top["timestamp"].Keys, p.Top["timestamp"].Threshold, w.nf())
	w.snapFor[co.uid] = w.lastSn.raw
	w.keep("timestamp", co.raw)
	return co
}

// tOp is one call.
type tOp struct {
	kind, role, deleg string
	local             bool
	raw               []byte
	desc              string
}

func (w *tWorld) nextOp(m *ref.Trust) tOp {
	r := w.c.Rng
	kind := ""
	if chance(r, w.prof.disorder) {
		kind = pick(r, []string{"root", "timestamp", "snapshot", "targets"})
	} else {
		switch {
		case m.Timestamp == nil:
			if chance(r, w.prof.rootBias) {
				kind = "root"
			} else {
				kind = "timestamp"
			}
		case m.Snapshot == nil:
			kind = pick(r, []string{"timestamp", "snapshot"})
		case m.Targets["targets"] == nil:
			kind = pick(r, []string{"snapshot", "targets", "targets"})
		default:
			kind = "targets"
		}
	}
	op := tOp{kind: kind}
	switch kind {
	case "root":
		op.raw, op.desc = w.mkRoot(m.Root.Version)
	case "timestamp":
		if l := w.pool["timestamp"]; len(l) > 0 && chance(r, 0.25) {
			op.raw, op.desc = pick(r, l), "timestamp replay"
		} else {
			co := w.mkTimestamp()
			op.raw, op.desc = co.raw, co.desc
		}
	case "snapshot":
		op.local = chance(r, 0.4)
		if m.Timestamp != nil && w.snapFor[m.Timestamp.UID] != nil && chance(r, 0.55) {
			op.raw, op.desc = w.snapFor[m.Timestamp.UID], "snapshot listed by the timestamp"
		} else if l := w.pool["snapshot"]; len(l) > 0 && chance(r, 0.5) {
			op.raw, op.desc = pick(r, l), "snapshot replay"
		} else {
			co := w.mkSnapshot()
			op.raw, op.desc = co.raw, co.desc
		}
		if op.local {
			op.desc += " (local)"
		}
	case "targets":
		op.role, op.deleg = "targets", "root"
		if m.Targets["targets"] != nil && chance(r, 0.8) {
			// a delegation of a trusted role
			var es [][2]string
			for _, n := range ref.SortedKeys(m.Targets) {
				if d := m.Targets[n].Deleg; d != nil {
					for _, e := range d.Roles {
						es = append(es, [2]string{e.Name, n})
					}
				}
			}
			if len(es) > 0 {
				e := pick(r, es)
				op.role, op.deleg = e[0], e[1]
			}
		}
		if chance(r, 0.1) {
			op.role, op.deleg = pick(r, w.p.Order), pick(r, w.p.Order)
		}
		if chance(r, 0.03) {
			op.role = "undelegated"
		}
		var listed []byte
		if m.Snapshot != nil {
			listed = w.targFor[m.Snapshot.UID][op.role]
		}
		tr := w.p.Roles[op.role]
		switch {
		case listed != nil && tr != nil && chance(r, 0.12):
			v := tr.Version
			if mi, ok := m.Snapshot.Meta[op.role+".json"]; ok && chance(r, 0.8) {
				v = mi.Version
			}
			d := w.p.TargetsDoc(tr, v, w.p.Future())
			d.Signed["x-uid"] = w.p.UID("rw")
			keys := tr.Keys
			if op.role == "targets" {
				keys = w.p.Top["targets"].Keys
			}
			op.raw, op.desc = d.Sign(keys...).Bytes(w.p.fmt()), "targets of the listed version, rewritten"
			w.c.Count("targets rewritten under their version")
		case listed != nil && chance(r, 0.75):
			op.raw, op.desc = listed, "targets listed by the snapshot"
		case len(w.pool["t:"+op.role]) > 0 && chance(r, 0.6):
			op.raw, op.desc = pick(r, w.pool["t:"+op.role]), "targets replay"
		default:
			n := pick(r, w.p.Order)
			op.raw, op.desc = w.p.Roles[n].raw, "targets of role "+n
		}
		op.desc = fmt.Sprintf("%s role=%q delegator=%q", op.desc, op.role, op.deleg)
	}
	// sometimes a document of another kind altogether
	if chance(r, 0.04) {
		k := pick(r, []string{"root", "timestamp", "snapshot", "t:targets"})
		if l := w.pool[k]; len(l) > 0 {
			op.raw, op.desc = pick(r, l), op.desc+" <- bytes of "+k
		}
	}
	return op
}

// tSequence runs one random sequence; it returns the number of calls made.
func tSequence(c *Case, prof tProfile) {
	r := c.Rng
	now := time.Date(2024, 1+time.Month(r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(2)*500000000, time.UTC)
	if r.Intn(4) == 0 { // around a year's end
		now = time.Date(2024, 12, 31, 23, 59, 50+r.Intn(10), 0, time.UTC)
	}
	p := NewRepo(r, RepoOpts{Tag: fmt.Sprintf("%s-%d", c.Section, c.Idx), Now: now, Fine: true, OtherKeys: c.Idx%16 == 0, Unknown: true, Delegations: prof.delegs, OddNames: c.Idx%6 == 3})
	w := &tWorld{c: c, p: p, prof: prof, pool: map[string][][]byte{}, snapFor: map[string][]byte{}, targFor: map[string]map[string][]byte{}}
	// initial root: sometimes damaged
	rootRaw := p.Roots[0]
	if chance(r, 0.08) {
		d, s := p.craftSig(p.RootDocs[0], p.Top["root"].Keys, p.Top["root"].Threshold, p.strangers("root"))
		rootRaw = d.Bytes(p.fmt())
		c.Logf("initial root sig:%s", s)
	}
	m, mo := ref.NewTrust(rootRaw, now)
	tm, err := trustedmetadata.New(rootRaw)
	c.Count("update calls")
	if (err == nil) != mo.OK {
		if err == nil {
			c.FailTags(append(tagsForAccept("root", mo.Faults), "C05"), "initial-root-accepted", "initial root with faults {%s} accepted", mo.Faults)
		} else {
			c.FailTags(tagsForReject("root", err), "initial-root-rejected", "good initial root refused: %v", err)
		}
		return
	}
	if !mo.OK {
		c.Count("refused initial roots")
		c.Distinct("init", mo.Faults.String())
		return
	}
	tm.RefTime = now
	// seed the pools
	w.keep("root", rootRaw)
	w.lastSn = craftOut{raw: nil}
	for _, n := range p.Order {
		w.keep("t:"+n, p.Roles[n].raw)
	}
	hist := ""
	n := 4 + r.Intn(prof.maxOps)
	for i := 0; i < n; i++ {
		op := w.nextOp(m)
		c.Logf("%d: %s", i, op.desc)
		before := m.Clone()
		deep := deepState(tm)
		var o ref.Outcome
		var err error
		var got any
		gotNil := true
		switch op.kind {
		case "root":
			o = m.UpdateRoot(op.raw)
			x, e := tm.UpdateRoot(op.raw)
			got, err, gotNil = x, e, x == nil
		case "timestamp":
			o = m.UpdateTimestamp(op.raw)
			x, e := tm.UpdateTimestamp(op.raw)
			got, err, gotNil = x, e, x == nil
		case "snapshot":
			o = m.UpdateSnapshot(op.raw, op.local)
			x, e := tm.UpdateSnapshot(op.raw, op.local)
			got, err, gotNil = x, e, x == nil
		case "targets":
			o = m.UpdateTargets(op.raw, op.role, op.deleg)
			if op.role == "targets" && op.deleg == "root" && r.Intn(2) == 0 {
				x, e := tm.UpdateTargets(op.raw)
				got, err, gotNil = x, e, x == nil
			} else {
				x, e := tm.UpdateDelegatedTargets(op.raw, op.role, op.deleg)
				got, err, gotNil = x, e, x == nil
			}
		}
		_ = got
		c.Eval()
		c.Count("update calls")
		c.Count("update calls: " + op.kind)
		hist += fmt.Sprintf("%c%v", op.kind[0], o.OK)
		phase := fmt.Sprintf("%v%v%v%d", before.Timestamp != nil, before.Snapshot != nil, before.Targets["targets"] != nil, len(before.Targets))
		c.Distinct(op.kind, phase, o.Faults.String(), op.local, o.OK)
		if o.OK {
			c.Count("accepted")
		} else {
			for f := range o.Faults {
				c.Count("refused for " + string(f))
			}
			if o.Stored {
				c.Count("kept as rollback baseline")
			}
		}
		c.Logf("   model: ok=%v stored=%v faults={%s}; library: %v", o.OK, o.Stored, o.Faults, err)
		if o.OK && err != nil {
			if os.Getenv("VERIF_DUMP") != "" {
				os.WriteFile(os.Getenv("VERIF_DUMP"), op.raw, 0644)
			}
			c.FailTags(tagsForReject(op.kind, err), "false-reject:"+op.kind, "%s: valid update refused: %v", op.desc, err)
			return
		}
		if !o.OK && err == nil {
			c.FailTags(tagsForAccept(op.kind, o.Faults), "false-accept:"+op.kind+":"+o.Faults.String(), "%s: update accepted although it has faults {%s}", op.desc, o.Faults)
			return
		}
		if o.OK && gotNil {
			c.FailTags(Tags{"C24", "C09"}, "nil-result", "%s: success without a result", op.desc)
			return
		}
		if err != nil {
			c.Count("errors classified")
			if s := wrongKind(err, o.Faults); s != "" {
				c.FailTags(Tags{"C26"}, "error-kind:"+op.kind+":"+o.Faults.String(), "%s: %s", op.desc, s)
			}
		}
		// trusted state
		if k, d := diffState(stateOf(tm), modelState(m)); d != "" {
			t := Tags{"C09"}
			switch k {
			case "root":
				t = append(t, "C05")
			case "timestamp", "snapshot":
				t = append(t, "C06", "C08")
			default:
				t = append(t, "C07")
			}
			if !o.OK {
				// refused, and trusted all the same
				t = append(t, tagsForAccept(op.kind, o.Faults)...)
			}
			c.FailTags(t, "state:"+op.kind+":"+k, "%s (faults {%s}): trusted %s", op.desc, o.Faults, d)
			return
		}
		after := deepState(tm)
		if !o.Stored {
			if s := sameDeep(deep, after); s != "" {
				c.FailTags(Tags{"C09", "C04"}, "refused-but-changed:"+op.kind, "%s: refused update changed trusted state: %s", op.desc, s)
				return
			}
		} else {
			// only the object of this operation may change
			self := map[string]string{"root": "root", "timestamp": "timestamp", "snapshot": "snapshot", "targets": "t:" + op.role}[op.kind]
			delete(deep, self)
			delete(after, self)
			if s := sameDeep(deep, after); s != "" {
				c.FailTags(Tags{"C09"}, "other-changed:"+op.kind, "%s: another trusted object changed: %s", op.desc, s)
				return
			}
			if s := trustedMatches(tm, m); s != "" {
				c.FailTags(Tags{"C03", "C09", "C02"}, "trusted-content:"+op.kind, "%s: %s", op.desc, s)
				return
			}
		}
	}
	c.Count("sequences")
	c.Sample(map[string]any{"calls": hist, "trace": c.trace})
}

func tRun(r *Run, section string, n int, prof tProfile) {
	r.Cases(section, n, func(c *Case) { tSequence(c, prof) })
}
