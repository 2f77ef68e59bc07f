T = 'runtime monitoring: '
CHECKS = {
 'C01': (T+'online checker of every verification against an independent signature counter', 'delegators and signature sets of every kind for top-level and delegated roles; every verdict compared with an independent implementation'),
 'C02': (T+'online checker with an independent canonical form and content normal form', 'documents carried through layouts, foreign signatures, and alterations anywhere in the content'),
 'C03': (T+'round-trip and differential oracle over generated documents', 'generated documents loaded, compared field by field, written every way and compared with an independent reading of both'),
 'C04': (T+'panic, time, result and state monitors over hostile documents', 'damaged documents of every kind, unsigned and correctly signed, through every entry point'),
 'C10': (T+'online checker of lookups in random delegation graphs against a recursive reading of the repository and a reference client', 'random graphs, orders, limits and histories; answer, requests, visited roles and errors compared'),
 'C11': (T+'differential oracle (independent glob and digest matcher) over generated and near-miss patterns', 'paths, patterns and prefixes compared with an independent matcher, directly and through lookups'),
 'C12': (T+'differential oracle for hash bins over all bit lengths, names and lookups', 'every bit length, assigned targets, enumerations, name spellings, loading, verification and client lookups'),
 'C13': (T+'online checker of downloads: result, file tree, request and cached-file answers against the signed description', 'direct and looked-up downloads over destinations, mirrors, addresses and hash sets'),
 'C14': (T+'stress of the default fetcher with hostile loopback servers; oracle on bytes, time, errors; request monitor in client histories', 'finite, endless, stalling, truncated and malformed transfers, and client histories over real HTTP'),
 'C15': (T+'differential and model-based runtime monitoring of client sessions over damaged caches', 'generated damage to the metadata directory; oracle: an independent reference client model, and a client with an empty cache against the same repository'),
 'C16': (T+'inotify monitoring of the cache directory plus fault injection (kill, death in mid-write, no space, no permission)', 'each published file is compared, at every observed event and after every fault, with the previous document and the documents an independent client model verifies'),
 'C17': (T+'runtime monitoring of the whole directory tree around the client', 'odd and mutually resembling names; odd working directories; the tree is compared before and after every operation'),
 'C18': (T+'model-based runtime monitoring of multi-repository clients over loopback HTTP', 'agreeing, disagreeing, failing and forging repositories under generated map files; oracle: an independent TAP 4 search over independent client models; malformed map files'),
 'C19': (T+'model-based runtime monitoring of operation sequences', 'after each addition or revocation the whole written document is compared with a reference model'),
 'C20': (T+'differential oracle for key conversion and key ids over generated keys and key dictionaries', 'keys of every type converted and back, ids against an independent computation under reordering, change and copying; unusable material through every use'),
 'C23': (T+'differential (against the online client which wrote the cache) and model-based monitoring of local-only sessions', 'request log must stay empty, cache unchanged, state and answers those of the online client; damaged, partial and lapsing caches refused'),
 'C24': (T+'monitoring of honest sessions (in memory and over HTTP) against an oracle computed from the repository; model-based histories', 'requests, order, names, answers, downloads, final trusted documents and cache judged independently of the client model'),
 'C25': (T+'differential oracle (independent digests) over data, entries and descriptions', 'verification, description and equality over right, near and wrong lengths and digests of every algorithm'),
 'C26': (T+'online checker of every refusal against the set of faults planted; matrix of all pairs of error kinds', 'kinds reported by verification, updates, client sessions, downloads and fetches compared with the faults the inputs have; matching under messages and wrapping'),
 'C21': (T+'Go race detector over concurrent executions of the real code (clients, readers, makers, multi-repository clients), with injected yields and delays, plus a differential oracle: each result, request count and cache compared with the same work done alone', 'The detector judges the interleavings that occur; accesses outside the library are reported as text only. Mutating one object from several goroutines is outside the property.'),
 'C22': (T+'histories of commands of the real binary against a loopback server under fault injection, judged online by the reference client model, exit statuses and snapshots of the whole directory tree', 'The client under examples/ cannot be changed here: two findings about init -f are recorded, not repaired. What a refused download leaves behind is judged only through later commands.'),
 'C27': (T+'model-based monitoring of authoring histories: content, signatures, verdicts and client sessions', 'documents written compared with a model of what was authored; fresh and old clients and an independent reference client judge each publication'),
}
