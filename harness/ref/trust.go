package ref

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"strings"
	"time"
)

// Fault names a reason for refusing a document.
type Fault string

const (
	FOrder     Fault = "order"
	FMalformed Fault = "malformed"
	FType      Fault = "type"
	FSig       Fault = "sig"
	FNoDeleg   Fault = "nodelegation"
	FVersion   Fault = "version"
	FEqual     Fault = "equal"
	FExpired   Fault = "expired"
	FLenHash   Fault = "lenhash"
	FUnlisted  Fault = "unlisted"
	FMissing   Fault = "missing"
)

// Faults is a set of reasons.
type Faults map[Fault]bool

func (f Faults) Add(x Fault) { f[x] = true }
func (f Faults) Has(x Fault) bool {
	return f[x]
}
func (f Faults) Only(x Fault) bool { return len(f) == 1 && f[x] }
func (f Faults) String() string {
	o := []string{}
	for _, k := range []Fault{FOrder, FMalformed, FType, FSig, FNoDeleg, FVersion, FEqual, FExpired, FLenHash, FUnlisted, FMissing} {
		if f[k] {
			o = append(o, string(k))
		}
	}
	return strings.Join(o, "+")
}

// Trust models the trusted metadata set.
type Trust struct {
	Root      *View
	Timestamp *View
	Snapshot  *View
	SnapBad   bool // the snapshot is not the one the timestamp lists
	Targets   map[string]*View
	Ref       time.Time
}

// Outcome of one update.
type Outcome struct {
	OK     bool   // call succeeds
	Stored bool   // the document is now in the trusted set
	Faults Faults // why it was refused (or, when stored and !OK, why it is not final)
}

// Clone copies the set (views are immutable).
func (t *Trust) Clone() *Trust {
	n := *t
	n.Targets = map[string]*View{}
	for k, v := range t.Targets {
		n.Targets[k] = v
	}
	return &n
}

func expired(v *View, ref time.Time) bool { return ref.After(v.Expires) }

// typeOf returns the declared type of an arbitrary document, if any.
func typeOf(raw []byte) (string, bool) {
	x, err := ParseJSON(raw)
	if err != nil {
		return "", false
	}
	top, ok := x.(map[string]any)
	if !ok {
		return "", false
	}
	s, ok := top["signed"].(map[string]any)
	if !ok {
		return "", false
	}
	t, ok := s["_type"].(string)
	return t, ok
}

func parseAs(raw []byte, typ string, f Faults) *View {
	v, err := ParseView(raw)
	if err != nil {
		f.Add(FMalformed)
		if t, ok := typeOf(raw); ok && t != typ {
			f.Add(FType)
		}
		return nil
	}
	if v.Type != typ {
		f.Add(FType)
		return nil
	}
	return v
}

func (t *Trust) checkSig(deleg *View, role string, v *View, f Faults) {
	if deleg == nil {
		return
	}
	if _, _, ok := deleg.FindRole(role); !ok {
		f.Add(FNoDeleg)
		return
	}
	switch deleg.Verify(role, v) {
	case Reject:
		f.Add(FSig)
	case Unjudged:
		// generators for the trusted-set checks never produce this
		panic("ref: unjudged signature set in a sequence check")
	}
}

// NewTrust models creation from an initial root.
func NewTrust(raw []byte, ref time.Time) (*Trust, Outcome) {
	f := Faults{}
	v := parseAs(raw, "root", f)
	t := &Trust{Targets: map[string]*View{}, Ref: ref}
	if v != nil {
		t.checkSig(v, "root", v, f)
	}
	if len(f) > 0 {
		return nil, Outcome{Faults: f}
	}
	t.Root = v
	return t, Outcome{OK: true, Stored: true, Faults: f}
}

// UpdateRoot models loading a successor root.
func (t *Trust) UpdateRoot(raw []byte) Outcome {
	f := Faults{}
	if t.Timestamp != nil {
		f.Add(FOrder)
	}
	v := parseAs(raw, "root", f)
	if v != nil {
		t.checkSig(t.Root, "root", v, f)
		t.checkSig(v, "root", v, f)
		if v.Version != t.Root.Version+1 {
			f.Add(FVersion)
		}
	}
	if len(f) > 0 {
		return Outcome{Faults: f}
	}
	t.Root = v
	return Outcome{OK: true, Stored: true, Faults: f}
}

const snapName = "snapshot.json"

// UpdateTimestamp models loading a timestamp.
func (t *Trust) UpdateTimestamp(raw []byte) Outcome {
	f := Faults{}
	if t.Snapshot != nil {
		f.Add(FOrder)
	}
	if expired(t.Root, t.Ref) {
		f.Add(FExpired)
	}
	v := parseAs(raw, "timestamp", f)
	late := Faults{}
	if v != nil {
		if _, ok := v.Meta[snapName]; !ok {
			f.Add(FMalformed)
		}
		t.checkSig(t.Root, "timestamp", v, f)
		if t.Timestamp != nil {
			switch {
			case v.Version < t.Timestamp.Version:
				f.Add(FVersion)
			case v.Version == t.Timestamp.Version:
				f.Add(FEqual)
			}
			if v.Meta[snapName].Version < t.Timestamp.Meta[snapName].Version {
				f.Add(FVersion)
			}
		}
		if expired(v, t.Ref) {
			late.Add(FExpired)
		}
	}
	if len(f) > 0 {
		for k := range late {
			f.Add(k)
		}
		return Outcome{Faults: f}
	}
	t.Timestamp = v
	return Outcome{OK: len(late) == 0, Stored: true, Faults: late}
}

func lenHashOK(m MetaInfo, raw []byte) bool {
	if m.Length != 0 && int64(len(raw)) != m.Length {
		return false
	}
	return HashesOK(m.Hashes, raw)
}

// HashesOK tells whether every listed hash is of a supported algorithm and matches.
func HashesOK(h map[string]string, raw []byte) bool {
	for a, want := range h {
		var got string
		switch a {
		case "sha256":
			s := sha256.Sum256(raw)
			got = hex.EncodeToString(s[:])
		case "sha512":
			s := sha512.Sum512(raw)
			got = hex.EncodeToString(s[:])
		default:
			return false
		}
		if got != strings.ToLower(want) {
			return false
		}
	}
	return true
}

func (t *Trust) finalSnapshot(f Faults) {
	if expired(t.Snapshot, t.Ref) {
		f.Add(FExpired)
	}
	if t.Timestamp == nil || t.Snapshot.Version != t.Timestamp.Meta[snapName].Version {
		f.Add(FVersion)
	}
	if t.SnapBad {
		f.Add(FLenHash)
	}
}

// UpdateSnapshot models loading a snapshot; local data which are not what the
// timestamp lists are kept as rollback baseline.
func (t *Trust) UpdateSnapshot(raw []byte, local bool) Outcome {
	f := Faults{}
	if t.Timestamp == nil || t.Targets["targets"] != nil {
		f.Add(FOrder)
	}
	if t.Timestamp != nil {
		if expired(t.Timestamp, t.Ref) {
			f.Add(FExpired)
		}
	}
	mismatch := t.Timestamp != nil && !lenHashOK(t.Timestamp.Meta[snapName], raw)
	if mismatch && !local {
		f.Add(FLenHash)
	}
	v := parseAs(raw, "snapshot", f)
	late := Faults{}
	if mismatch && local {
		late.Add(FLenHash)
	}
	if v != nil {
		t.checkSig(t.Root, "snapshot", v, f)
		if t.Snapshot != nil {
			for n, mi := range t.Snapshot.Meta {
				nm, ok := v.Meta[n]
				if !ok {
					f.Add(FMissing)
				} else if nm.Version < mi.Version {
					f.Add(FVersion)
				}
			}
		}
		if expired(v, t.Ref) {
			late.Add(FExpired)
		}
		if t.Timestamp != nil && v.Version != t.Timestamp.Meta[snapName].Version {
			late.Add(FVersion)
		}
	}
	if len(f) > 0 {
		for k := range late {
			f.Add(k)
		}
		return Outcome{Faults: f}
	}
	t.Snapshot, t.SnapBad = v, mismatch
	return Outcome{OK: len(late) == 0, Stored: true, Faults: late}
}

// UpdateTargets models loading a targets role under a delegator.
func (t *Trust) UpdateTargets(raw []byte, role, delegator string) Outcome {
	f := Faults{}
	var deleg *View
	if t.Snapshot == nil {
		f.Add(FOrder)
	} else {
		t.finalSnapshot(f)
	}
	if delegator == "root" {
		deleg = t.Root
	} else {
		deleg = t.Targets[delegator]
		if deleg == nil {
			f.Add(FOrder)
		}
	}
	var mi MetaInfo
	listed := false
	if t.Snapshot != nil {
		mi, listed = t.Snapshot.Meta[role+".json"]
		if !listed {
			f.Add(FUnlisted)
		} else if !lenHashOK(mi, raw) {
			f.Add(FLenHash)
		}
	}
	v := parseAs(raw, "targets", f)
	if v != nil {
		t.checkSig(deleg, role, v, f)
		if listed && v.Version != mi.Version {
			f.Add(FVersion)
		}
		if expired(v, t.Ref) {
			f.Add(FExpired)
		}
	}
	if len(f) > 0 {
		return Outcome{Faults: f}
	}
	t.Targets[role] = v
	return Outcome{OK: true, Stored: true, Faults: f}
}
