package main

var (
	uMixed    = uProfile{sessions: 5, delegs: 5, odd: 0.3, succinct: 0.2, evil: 0.25, stale: 0.1, mixed: 0.1, netFaults: 0.25, cache: 0.25, local: 0.12, noCache: 0.08, rotate: 0.2, limits: 0.15, lookups: 4, downloads: 0.5, noRefresh: 0.2, twice: 0.1, otherKeys: true, expire: 0.15, badInit: 0.03, unusualURL: 0.2}
	uRoot     = uProfile{sessions: 4, delegs: 1, evil: 0.05, stale: 0.15, netFaults: 0.35, cache: 0.05, rotate: 0.6, limits: 0.3, lookups: 1, noRefresh: 0.1, twice: 0.15, expire: 0.3, badInit: 0.05, noCache: 0.05, otherKeys: true}
	uRollback = uProfile{sessions: 7, delegs: 2, evil: 0.45, stale: 0.2, mixed: 0.1, cache: 0.1, rotate: 0.2, lookups: 2, expire: 0.2, noCache: 0.03, noRefresh: 0.1}
	uMix      = uProfile{sessions: 4, delegs: 5, evil: 0.4, mixed: 0.3, cache: 0.2, rotate: 0.05, lookups: 4, expire: 0.05, noRefresh: 0.1}
	uExpiry   = uProfile{sessions: 5, delegs: 4, evil: 0.25, stale: 0.1, rotate: 0.15, lookups: 4, expire: 0.6, local: 0.15, noRefresh: 0.2}
	uCache    = uProfile{sessions: 5, delegs: 5, odd: 0.3, succinct: 0.3, evil: 0.05, cache: 0.85, rotate: 0.2, lookups: 4, noRefresh: 0.1, otherKeys: true}
	uFiles    = uProfile{sessions: 4, delegs: 5, odd: 0.6, succinct: 0.3, evil: 0.25, mixed: 0.05, netFaults: 0.3, cache: 0.3, noCache: 0.1, rotate: 0.2, lookups: 4, downloads: 0.5, noRefresh: 0.15, expire: 0.1}
	uHonest   = uProfile{sessions: 4, delegs: 7, odd: 0.5, succinct: 0.4, rotate: 0.2, lookups: 6, downloads: 0.5, noRefresh: 0.2, otherKeys: true, unusualURL: 0.3, noCache: 0.05}
	uNet      = uProfile{sessions: 3, delegs: 4, odd: 0.2, netFaults: 0.9, rotate: 0.2, limits: 0.5, lookups: 4, downloads: 0.8, noRefresh: 0.2, unusualURL: 0.2}
	uDown     = uProfile{sessions: 2, delegs: 4, odd: 0.6, succinct: 0.2, lookups: 8, downloads: 1, noRefresh: 0.3, noCache: 0.1, unusualURL: 0.3}
	uLocal    = uProfile{sessions: 6, delegs: 5, odd: 0.3, succinct: 0.3, evil: 0.1, cache: 0.2, local: 0.55, rotate: 0.1, expire: 0.2, lookups: 5, downloads: 0.2, noRefresh: 0.2}
)

func init() {
	registry["U"] = &Prop{Level: "exploration", F: func(r *Run) {
		uRun(r, "u-mixed", r.N(1500, 30000), uMixed)
	}}
}
