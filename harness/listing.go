package main

import (
	"fmt"
	"math"
	"net/url"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"

	"verif/harness/ref"
)

// nearFiles are names which a careless comparison takes for the listing of role.
func nearFiles(role string) []string {
	l := []string{role, strings.ToUpper(role) + ".json", strings.ToLower(role) + ".json", role + ".JSON", "1." + role + ".json", "2." + role + ".json", "x/" + role + ".json", "/" + role + ".json", "./" + role + ".json", role + ".json.json",
		url.QueryEscape(role) + ".json", url.PathEscape(role) + ".json", " " + role + ".json", role + " .json", strings.ReplaceAll(role, "/", "_") + ".json", strings.ReplaceAll(role, "/", "") + ".json", ".json", "*.json", "*", "", "targets/" + role + ".json", role[:len(role)-1] + ".json", role + "x.json", strings.TrimSuffix(role, ".json") + ".json", "../" + role + ".json"}
	if i := strings.LastIndex(role, "/"); i >= 0 {
		l = append(l, role[i+1:]+".json", role[:i]+".json")
	}
	if i := strings.Index(role, "/"); i >= 0 {
		l = append(l, role[i+1:]+".json", role[:i]+".json")
	}
	if u, err := url.PathUnescape(role); err == nil {
		l = append(l, u+".json")
	}
	if i := strings.LastIndexAny(role, ".-"); i > 0 {
		l = append(l, role[:i]+".json")
	}
	out := []string{}
	for _, n := range l {
		if n != role+".json" {
			out = append(out, n)
		}
	}
	return out
}

// listingCase: only the entry under a role's own name lists the role.
func listingCase(c *Case) {
	r := c.Rng
	p := NewRepo(r, RepoOpts{Tag: fmt.Sprintf("%s-%d", c.Section, c.Idx), Now: time.Now().UTC(), Unknown: chance(r, 0.5)})
	role := pick(r, append([]string{"snapshot", "targets", "lib", "Lib", "team/lib", "a/b/c", "lib.json", "1.lib", "lib-1", "bin-0"}, oddRoleNames...))
	if role != "snapshot" && role != "targets" {
		x := &TRole{Name: role, Version: int64(1 + r.Intn(3)), Keys: p.NewKeys(1), Targets: map[string]*Target{}, dirty: true}
		p.Roles[role] = x
		p.Order = append(p.Order, role)
		p.Roles["targets"].Edges = append(p.Roles["targets"].Edges, Edge{Child: role, Keys: x.Keys, Threshold: 1, Paths: []string{"*"}})
		p.Roles["targets"].dirty = true
		p.AddTarget(role, "f")
	}
	p.Publish()
	kind := pick(r, []string{"near only", "near only", "decoys", "wrong with decoys", "wrong with decoys"})
	change := func(meta J, file string, content []byte) string {
		e := meta[file].(J)
		var wrong J
		switch r.Intn(4) {
		case 3: // everything but the version
			wrong = ref.Clone(e).(J)
			v := e["version"].(int64)
			wrong["version"] = pick(r, []int64{v + 1, v - 1, v - 1, v + 1<<32})
			wrong["hashes"] = J{"sha256": ref.Sha256Hex(content)}
			wrong["length"] = int64(len(content))
		case 0:
			wrong = J{"version": e["version"].(int64) + int64(1+r.Intn(2))}
		case 1:
			wrong = J{"version": e["version"], "length": pick(r, []int64{int64(1 + r.Intn(9)), int64(len(content) + 1), int64(len(content) - 1), 1<<20 + int64(r.Intn(1<<20)), 1<<32 + int64(len(content)), math.MaxInt64})}
		default:
			wrong = J{"version": e["version"], "hashes": J{"sha256": ref.Sha256Hex([]byte(file))}}
		}
		bare := J{"version": e["version"]}
		near := []string{}
		for _, n := range nearFiles(strings.TrimSuffix(file, ".json")) {
			if meta[n] == nil && (kind != "near only" || chance(r, 0.4)) {
				near = append(near, n)
			}
		}
		switch kind {
		case "near only":
			delete(meta, file)
			for _, n := range near {
				meta[n] = pick(r, []J{e, bare})
			}
		case "decoys":
			for _, n := range near {
				meta[n] = wrong
			}
		default:
			meta[file] = wrong
			for _, n := range near {
				meta[n] = pick(r, []J{e, bare})
			}
		}
		return fmt.Sprintf("%v", ref.SortedKeys(meta))
	}
	snap := p.SnapshotDoc(p.SnapVer, p.Future())
	listed := ""
	if role != "snapshot" {
		listed = change(snap.Signed["meta"].(J), role+".json", p.Roles[role].raw)
	}
	snap.Sign(p.Top["snapshot"].Keys...)
	raw := snap.Bytes(p.fmt())
	ts := p.TimestampDoc(p.TSVer, p.SnapVer, raw, p.Future())
	if role == "snapshot" {
		listed = change(ts.Signed["meta"].(J), "snapshot.json", raw)
	}
	ts.Sign(p.Top["timestamp"].Keys...)
	tsRaw := ts.Bytes(p.fmt())
	desc := fmt.Sprintf("%s: %s of %q, listed are %s", role, kind, role+".json", listed)
	c.Logf("%s", desc)
	want := kind == "decoys"

	tm, err := trustedmetadata.New(p.Roots[len(p.Roots)-1])
	if err != nil {
		c.FailTags(Tags{"C24"}, "root", "%v", err)
		return
	}
	// where it must be noticed
	first, last := 3, 3
	switch role {
	case "snapshot":
		first, last = 0, 1
	case "targets":
		first, last = 1, 2
	}
	for i, step := range []struct {
		role string
		f    func() error
	}{
		{"timestamp", func() error { _, e := tm.UpdateTimestamp(tsRaw); return e }},
		{"snapshot", func() error { _, e := tm.UpdateSnapshot(raw, false); return e }},
		{"targets", func() error { _, e := tm.UpdateTargets(p.Roles["targets"].raw); return e }},
		{role, func() error { _, e := tm.UpdateDelegatedTargets(p.Roles[role].raw, role, "targets"); return e }},
	} {
		if i == 3 && (role == "targets" || role == "snapshot") || i == 2 && role == "snapshot" {
			break
		}
		err := step.f()
		c.Eval()
		if err == nil {
			if i == last && !want {
				c.FailTags(Tags{"C07"}, "listing-accepted:"+kind, "%s: accepted", desc)
				return
			}
			if i == last {
				c.Count("accepted by a listing")
			}
			continue
		}
		if want || i < first {
			c.FailTags(Tags{"C07", "C24"}, "listing-refused:"+kind, "%s: %s refused: %v", desc, step.role, err)
			return
		}
		c.Count("refused by a listing: " + kind)
		break
	}
	c.Distinct("listing", role, kind)
}
