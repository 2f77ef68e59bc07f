package ref

import (
	"fmt"
	"net/url"
	"strings"
	"time"
)

// Resp is a server answer to one URL.
type Resp struct {
	Status int    // 200, 404, 403, other; 0: transport error
	Data   []byte // body for 200
}

// Req is one observed request.
type Req struct {
	URL string
	Max int64
}

// Server is a deterministic function from URL to answer (nil: 404).
type Server func(url string) *Resp

// Cfg mirrors the client configuration.
type Cfg struct {
	MaxRoot                                 int64
	MaxDeleg                                int
	RootMax, TimestampMax, SnapMax, TargMax int64
	NoCache                                 bool
	Local                                   bool // local-only mode
	Prefix                                  bool
	MetaURL                                 string
	TargetsURL                              string
}

// EKind classifies a failed step.
type EKind string

const (
	ENone     EKind = ""
	EReject   EKind = "reject"   // document refused; see Faults
	EHTTP     EKind = "http"     // status error
	ENet      EKind = "net"      // transport error
	ETooLong  EKind = "toolong"  // over the limit
	ENoFile   EKind = "nofile"   // local-only: file missing
	ENotFound EKind = "notfound" // no such target
	ELocal    EKind = "local"    // local-only: would need the network
	EConfig   EKind = "config"
)

// Res is the predicted result of a client operation.
type Res struct {
	Kind    EKind
	Status  int
	Faults  Faults
	Where   string // role at which it failed
	Target  *TargetInfo
	TRole   string // role that listed the target
	Visited []string
	// CacheStop marks results that depend on what an implementation does
	// with an untrustworthy local cache.
}

// OK tells whether the operation is predicted to succeed.
func (r Res) OK() bool { return r.Kind == ENone }

func (r Res) String() string {
	if r.OK() {
		return "ok"
	}
	return fmt.Sprintf("%s(%s at %s, status %d)", r.Kind, r.Faults, r.Where, r.Status)
}

// Session models one client.
type Session struct {
	Cfg   Cfg
	T     *Trust
	Cache map[string][]byte // metadata dir: file name -> content
	Srv   Server
	Reqs  []Req
	Ops   []string // log of model decisions
	// LocalUsed counts documents accepted from the cache, RemoteUsed from the server.
	LocalUsed, RemoteUsed int
	// Persisted lists the documents written to the cache, by file name.
	Persisted map[string][][]byte
}

// FileName is the cache file of a role.
func FileName(role string) string { return url.QueryEscape(role) + ".json" }

// CacheName turns a file name in an address into the one used in the cache.
func CacheName(remote string) string {
	if d, err := url.PathUnescape(remote); err == nil {
		return url.QueryEscape(d)
	}
	return remote
}

// RemoteName is the unversioned file name of a role in an address.
func RemoteName(role string) string { return url.PathEscape(role) + ".json" }

// NewSession models client creation.
func NewSession(cfg Cfg, root []byte, cache map[string][]byte, srv Server, now time.Time) (*Session, Res) {
	s := &Session{Cfg: cfg, Cache: map[string][]byte{}, Srv: srv}
	for k, v := range cache {
		s.Cache[k] = v
	}
	t, o := NewTrust(root, now)
	if !o.OK {
		return s, Res{Kind: EReject, Faults: o.Faults, Where: "root"}
	}
	s.T = t
	s.persist("root", root)
	return s, Res{}
}

func (s *Session) persist(role string, data []byte) {
	if !s.Cfg.NoCache {
		s.Cache[FileName(role)] = data
		if s.Persisted == nil {
			s.Persisted = map[string][][]byte{}
		}
		s.Persisted[FileName(role)] = append(s.Persisted[FileName(role)], data)
	}
}

func slash(u string) string {
	if strings.HasSuffix(u, "/") {
		return u
	}
	return u + "/"
}

func (s *Session) fetch(u string, max int64) ([]byte, Res) {
	s.Reqs = append(s.Reqs, Req{u, max})
	r := s.Srv(u)
	if r == nil {
		r = &Resp{Status: 404}
	}
	switch {
	case r.Status == 0:
		return nil, Res{Kind: ENet}
	case r.Status != 200:
		return nil, Res{Kind: EHTTP, Status: r.Status}
	case int64(len(r.Data)) > max:
		return nil, Res{Kind: ETooLong}
	}
	return r.Data, Res{}
}

// MetaURL is the address of a metadata file; a negative version means unversioned.
func (s *Session) MetaURL(role string, version int64) string {
	if version < 0 {
		return slash(s.Cfg.MetaURL) + RemoteName(role)
	}
	return fmt.Sprintf("%s%d.%s", slash(s.Cfg.MetaURL), version, RemoteName(role))
}

func rej(o Outcome, where string) Res { return Res{Kind: EReject, Faults: o.Faults, Where: where} }

// Refresh models a refresh.
func (s *Session) Refresh() Res {
	if s.Cfg.Local {
		return s.localRefresh()
	}
	if r := s.loadRoot(); !r.OK() {
		return r
	}
	if r := s.loadTimestamp(); !r.OK() {
		return r
	}
	if r := s.loadSnapshot(); !r.OK() {
		return r
	}
	_, r := s.loadTargets("targets", "root")
	return r
}

func (s *Session) localRefresh() Res {
	d, ok := s.Cache["timestamp.json"]
	if !ok {
		return Res{Kind: ENoFile, Where: "timestamp"}
	}
	if o := s.T.UpdateTimestamp(d); !o.OK {
		return rej(o, "timestamp")
	}
	if d, ok = s.Cache["snapshot.json"]; !ok {
		return Res{Kind: ENoFile, Where: "snapshot"}
	}
	if o := s.T.UpdateSnapshot(d, false); !o.OK {
		return rej(o, "snapshot")
	}
	if d, ok = s.Cache["targets.json"]; !ok {
		return Res{Kind: ENoFile, Where: "targets"}
	}
	if o := s.T.UpdateTargets(d, "targets", "root"); !o.OK {
		return rej(o, "targets")
	}
	s.LocalUsed += 3
	return Res{}
}

func (s *Session) loadRoot() Res {
	for n := int64(0); n < s.Cfg.MaxRoot; n++ {
		v := s.T.Root.Version + 1
		d, r := s.fetch(s.MetaURL("root", v), s.Cfg.RootMax)
		if !r.OK() {
			if r.Kind == EHTTP && (r.Status == 404 || r.Status == 403) {
				return Res{}
			}
			r.Where = "root"
			return r
		}
		if o := s.T.UpdateRoot(d); !o.OK {
			return rej(o, "root")
		}
		s.RemoteUsed++
		s.persist("root", d)
	}
	return Res{}
}

func (s *Session) loadTimestamp() Res {
	if d, ok := s.Cache["timestamp.json"]; ok {
		o := s.T.UpdateTimestamp(d)
		if o.Stored {
			s.LocalUsed++
		}
		if o.Faults[FOrder] {
			return rej(o, "timestamp")
		}
	}
	d, r := s.fetch(s.MetaURL("timestamp", -1), s.Cfg.TimestampMax)
	if !r.OK() {
		r.Where = "timestamp"
		return r
	}
	o := s.T.UpdateTimestamp(d)
	if o.OK {
		s.RemoteUsed++
		s.persist("timestamp", d)
		return Res{}
	}
	if o.Faults.Has(FEqual) && !o.Faults.Has(FSig) && !o.Faults.Has(FMalformed) && !o.Faults.Has(FType) && !o.Faults.Has(FOrder) && !expired(s.T.Root, s.T.Ref) {
		return Res{}
	}
	return rej(o, "timestamp")
}

func (s *Session) loadSnapshot() Res {
	if d, ok := s.Cache["snapshot.json"]; ok {
		o := s.T.UpdateSnapshot(d, true)
		if o.OK {
			s.LocalUsed++
			return Res{}
		}
		if o.Faults[FOrder] {
			return rej(o, "snapshot")
		}
	}
	m := s.T.Timestamp.Meta[snapName]
	max := m.Length
	if max == 0 {
		max = s.Cfg.SnapMax
	}
	ver := int64(-1)
	if s.T.Root.Consistent {
		ver = m.Version
	}
	d, r := s.fetch(s.MetaURL("snapshot", ver), max)
	if !r.OK() {
		r.Where = "snapshot"
		return r
	}
	if o := s.T.UpdateSnapshot(d, false); !o.OK {
		return rej(o, "snapshot")
	}
	s.RemoteUsed++
	s.persist("snapshot", d)
	return Res{}
}

func (s *Session) loadTargets(role, parent string) (*View, Res) {
	if v, ok := s.T.Targets[role]; ok {
		deleg := s.T.Root
		if parent != "root" {
			deleg = s.T.Targets[parent]
		}
		if deleg.Verify(role, v) != Accept {
			return nil, Res{Kind: EReject, Faults: Faults{FSig: true}, Where: role}
		}
		return v, Res{}
	}
	if d, ok := s.Cache[FileName(role)]; ok {
		o := s.T.UpdateTargets(d, role, parent)
		if o.OK {
			s.LocalUsed++
			return s.T.Targets[role], Res{}
		}
		if o.Faults[FOrder] {
			return nil, rej(o, role)
		}
	}
	if s.Cfg.Local {
		return nil, Res{Kind: ELocal, Where: role}
	}
	m, ok := s.T.Snapshot.Meta[role+".json"]
	if !ok {
		return nil, Res{Kind: EReject, Faults: Faults{FUnlisted: true}, Where: role}
	}
	max := m.Length
	if max == 0 {
		max = s.Cfg.TargMax
	}
	ver := int64(-1)
	if s.T.Root.Consistent {
		ver = m.Version
	}
	d, r := s.fetch(s.MetaURL(role, ver), max)
	if !r.OK() {
		r.Where = role
		return nil, r
	}
	if o := s.T.UpdateTargets(d, role, parent); !o.OK {
		return nil, rej(o, role)
	}
	s.RemoteUsed++
	s.persist(role, d)
	return s.T.Targets[role], Res{}
}

// Lookup models a target lookup.
func (s *Session) Lookup(path string) Res {
	if s.T.Targets["targets"] == nil {
		if r := s.Refresh(); !r.OK() {
			return r
		}
	}
	type edge struct{ role, parent string }
	stack := []edge{{"targets", "root"}}
	visited := map[string]bool{}
	var order []string
	for len(visited) <= s.Cfg.MaxDeleg && len(stack) > 0 {
		e := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if visited[e.role] {
			continue
		}
		v, r := s.loadTargets(e.role, e.parent)
		if !r.OK() {
			r.Visited = order
			return r
		}
		order = append(order, e.role)
		if t, ok := v.Targets[path]; ok {
			return Res{Target: &t, TRole: e.role, Visited: order}
		}
		visited[e.role] = true
		kids, term := v.RolesFor(path)
		if term {
			stack = nil
		}
		for i := len(kids) - 1; i >= 0; i-- {
			stack = append(stack, edge{kids[i], e.role})
		}
	}
	return Res{Kind: ENotFound, Visited: order}
}

// TargetURLs lists the acceptable addresses of a target file.
func (s *Session) TargetURLs(path string, t *TargetInfo, base string) []string {
	if base == "" {
		base = s.Cfg.TargetsURL
	}
	base = slash(base)
	if !s.T.Root.Consistent || !s.Cfg.Prefix {
		return []string{base + path}
	}
	dir, name := "", path
	if i := strings.LastIndex(path, "/"); i >= 0 {
		dir, name = path[:i+1], path[i+1:]
	}
	out := []string{}
	for _, a := range SortedKeys(t.Hashes) {
		out = append(out, base+dir+strings.ToLower(t.Hashes[a])+"."+name)
	}
	return out
}
