package main

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"

	"verif/harness/ref"
)

// ErrClass is the set of kinds an error matches.
type ErrClass struct {
	Repo, Unsigned, BadVersion, Equal, Expired, LenHash bool
	Download, DLLength, DLHTTP                          bool
	Status                                              int
	Value, Type, Runtime                                bool
}

func classify(err error) ErrClass {
	c := ErrClass{}
	if err == nil {
		return c
	}
	c.Repo = errors.Is(err, metadata.ErrRepository{})
	c.Unsigned = errors.Is(err, metadata.ErrUnsignedMetadata{})
	c.BadVersion = errors.Is(err, metadata.ErrBadVersionNumber{})
	c.Equal = errors.Is(err, metadata.ErrEqualVersionNumber{})
	c.Expired = errors.Is(err, metadata.ErrExpiredMetadata{})
	c.LenHash = errors.Is(err, metadata.ErrLengthOrHashMismatch{})
	c.Download = errors.Is(err, metadata.ErrDownload{})
	c.DLLength = errors.Is(err, metadata.ErrDownloadLengthMismatch{})
	var h metadata.ErrDownloadHTTP
	if errors.As(err, &h) {
		c.DLHTTP = true
		c.Status = h.StatusCode
	}
	var v metadata.ErrValue
	c.Value = errors.As(err, &v)
	var t metadata.ErrType
	c.Type = errors.As(err, &t)
	var r metadata.ErrRuntime
	c.Runtime = errors.As(err, &r)
	return c
}

// wrongKind judges an error of a refused document against the faults the
// document really has; it returns a description of the disagreement.
func wrongKind(err error, f ref.Faults) string {
	c := classify(err)
	bad := ""
	claim := func(claimed bool, name string, real ...ref.Fault) {
		if !claimed || bad != "" {
			return
		}
		for _, x := range real {
			if f.Has(x) {
				return
			}
		}
		bad = fmt.Sprintf("error claims %q but the faults are {%s}: %v", name, f, err)
	}
	if f.Has(ref.FMalformed) {
		// what else is wrong with an unreadable document is open
		claim(c.Runtime && !f.Has(ref.FOrder), "runtime")
		claim(c.Download, "download")
		return bad
	}
	claim(c.Unsigned, "unsigned", ref.FSig)
	claim(c.Equal, "equal version", ref.FEqual)
	claim(c.BadVersion, "bad version", ref.FVersion, ref.FEqual)
	claim(c.Expired, "expired", ref.FExpired)
	claim(c.LenHash, "length/hash", ref.FLenHash)
	claim(c.Runtime, "runtime", ref.FOrder)
	claim(c.Download, "download")
	if bad != "" {
		return bad
	}
	need := func(only ref.Fault, ok bool, name string) {
		if f.Only(only) && !ok && bad == "" {
			bad = fmt.Sprintf("only fault is %s but the error does not match %s: %v", only, name, err)
		}
	}
	need(ref.FSig, c.Unsigned, "the unsigned-metadata error")
	need(ref.FVersion, c.BadVersion, "the bad-version error")
	need(ref.FEqual, c.Equal, "the equal-version error")
	need(ref.FExpired, c.Expired, "the expired error")
	need(ref.FLenHash, c.LenHash, "the length/hash error")
	need(ref.FOrder, c.Runtime, "the call-order error")
	if bad != "" {
		return bad
	}
	if (c.Unsigned || c.BadVersion || c.Equal || c.Expired || c.LenHash || f.Only(ref.FMissing) || f.Only(ref.FUnlisted)) && !c.Repo {
		return fmt.Sprintf("repository-caused error does not match the general repository error: %v", err)
	}
	return ""
}

func uidOf(m map[string]any) string {
	s, _ := m["x-uid"].(string)
	return s
}

// TState is the observable trusted state: role -> uid of the document.
type TState map[string]string

func stateOf(tm *trustedmetadata.TrustedMetadata) TState {
	s := TState{}
	if tm.Root != nil {
		s["root"] = uidOf(tm.Root.Signed.UnrecognizedFields)
	}
	if tm.Timestamp != nil {
		s["timestamp"] = uidOf(tm.Timestamp.Signed.UnrecognizedFields)
	}
	if tm.Snapshot != nil {
		s["snapshot"] = uidOf(tm.Snapshot.Signed.UnrecognizedFields)
	}
	for n, t := range tm.Targets {
		if t != nil {
			s["t:"+n] = uidOf(t.Signed.UnrecognizedFields)
		} else {
			s["t:"+n] = "<nil>"
		}
	}
	return s
}

func modelState(t *ref.Trust) TState {
	s := TState{}
	if t == nil {
		return s
	}
	if t.Root != nil {
		s["root"] = t.Root.UID
	}
	if t.Timestamp != nil {
		s["timestamp"] = t.Timestamp.UID
	}
	if t.Snapshot != nil {
		s["snapshot"] = t.Snapshot.UID
	}
	for n, v := range t.Targets {
		s["t:"+n] = v.UID
	}
	return s
}

func diffState(got, want TState) (string, string) {
	for _, k := range ref.SortedKeys(want) {
		if g, ok := got[k]; !ok {
			return k, fmt.Sprintf("%s: none, expected %s", k, want[k])
		} else if g != want[k] {
			return k, fmt.Sprintf("%s: %s, expected %s", k, g, want[k])
		}
	}
	for _, k := range ref.SortedKeys(got) {
		if _, ok := want[k]; !ok {
			return k, fmt.Sprintf("%s: %s, expected none", k, got[k])
		}
	}
	return "", ""
}

// deepState serialises every trusted object, to detect in-place changes.
func deepState(tm *trustedmetadata.TrustedMetadata) map[string]string {
	s := map[string]string{}
	put := func(n string, b []byte, err error) {
		if err != nil {
			b = []byte("error: " + err.Error())
		}
		s[n] = string(b)
	}
	if tm.Root != nil {
		b, err := tm.Root.ToBytes(false)
		put("root", b, err)
	}
	if tm.Timestamp != nil {
		b, err := tm.Timestamp.ToBytes(false)
		put("timestamp", b, err)
	}
	if tm.Snapshot != nil {
		b, err := tm.Snapshot.ToBytes(false)
		put("snapshot", b, err)
	}
	for n, t := range tm.Targets {
		if t == nil {
			s["t:"+n] = "<nil>"
			continue
		}
		b, err := t.ToBytes(false)
		put("t:"+n, b, err)
	}
	s["reftime"] = tm.RefTime.Format(time.RFC3339Nano)
	return s
}

func sameDeep(a, b map[string]string) string {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			return k + " disappeared"
		} else if w != v {
			return k + " changed"
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k + " appeared"
		}
	}
	return ""
}

// trustedMatches checks that a trusted object has exactly the content of the
// document bytes the model says are trusted.
func trustedMatches(tm *trustedmetadata.TrustedMetadata, t *ref.Trust) string {
	cmp := func(name string, b []byte, err error, v *ref.View) string {
		if err != nil {
			return fmt.Sprintf("%s cannot be serialised: %v", name, err)
		}
		same, err := ref.SameBytes(b, v.Raw)
		if err != nil || !same {
			return fmt.Sprintf("trusted %s differs in content from the accepted document", name)
		}
		return ""
	}
	if tm.Root != nil && t.Root != nil {
		b, err := tm.Root.ToBytes(false)
		if s := cmp("root", b, err, t.Root); s != "" {
			return s
		}
	}
	if tm.Timestamp != nil && t.Timestamp != nil {
		b, err := tm.Timestamp.ToBytes(false)
		if s := cmp("timestamp", b, err, t.Timestamp); s != "" {
			return s
		}
	}
	if tm.Snapshot != nil && t.Snapshot != nil {
		b, err := tm.Snapshot.ToBytes(false)
		if s := cmp("snapshot", b, err, t.Snapshot); s != "" {
			return s
		}
	}
	for n, m := range tm.Targets {
		if v := t.Targets[n]; v != nil && m != nil {
			b, err := m.ToBytes(false)
			if s := cmp("targets role "+n, b, err, v); s != "" {
				return s
			}
		}
	}
	return ""
}

func shortJSON(b []byte) string {
	b = bytes.TrimSpace(b)
	if len(b) > 160 {
		return string(b[:160]) + "..."
	}
	return string(b)
}
