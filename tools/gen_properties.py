#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
M="metadata/metadata.go"; MA="metadata/marshal.go"; K="metadata/keys.go"; E="metadata/errors.go"; T="metadata/trustedmetadata/trustedmetadata.go"; U="metadata/updater/updater.go"; F="metadata/fetcher/fetcher.go"; R="metadata/multirepo/multirepo.go"; C="metadata/config/config.go"; CLI="examples/cli/tuf-client/cmd"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Signature threshold decides who may speak for a role",
 "Metadata is accepted for a role exactly when at least threshold many different keys, each authorised for that role by the metadata that delegates it, have validly signed its content (given that all the role's listed keys are usable). Signatures by other keys, invalid or repeated signatures, and one public key listed or named several times never add to the count, while extra or invalid signatures beside enough good ones never spoil it. A role the delegating metadata does not delegate is never accepted, and delegating metadata whose threshold for a role is below one is refused when it is loaded.",
 "inputs configurations","Every set of keys, key ids, thresholds and signature lists, for every role kind (top level, delegated, hash bin) and every supported key type.",
 "The tests sign with one or two hand-made keys per role and check a handful of subsets; they never try aliased key ids, repeated keyids, junk signatures mixed with good ones, mixed key types or hash-bin roles.",
 [M,K],[("VerifyDelegate",M),("ToPublicKey",K),("threshold validation on load",MA)],["return value of VerifyDelegate and of the trusted-set Update* calls compared with an independent signature counter"])
p("C02","Signed content cannot be altered, honest signatures keep verifying",
 "Any change to the meaning of signed content, at any depth and including fields the library does not recognise, invalidates every signature made before the change. Metadata signed with the library, for every role type and every supported key type, still verifies after it is written out and read back any number of times in any layout, and signatures made by independent TUF implementations over the canonical form of the same content verify too.",
 "inputs","Every metadata document of every role type, every single-value edit of its signed part, every key type.",
 "The tests tamper with one recognised field and round-trip the fixture repository; unknown fields, nesting, large numbers, unusual strings and other key types are not reached.",
 [M,MA,K],[("Sign",M),("VerifyDelegate",M),("custom (un)marshalling keeps unknown fields",MA)],["verification result of mutated and round-tripped documents"])
p("C03","Metadata serialisation is lossless, deterministic and type-checked",
 "Loading any well-formed metadata file and writing it out again, compact or indented, to bytes or to a file, gives JSON with exactly the same content, including unrecognised fields at every level, and the same content always gives the same bytes (custom target data keep their own spelling). A file whose role type differs from the type asked for, whose type is missing, which is not valid JSON, which holds a JSON value of the wrong kind in a field of the specification, or which carries two signatures under one key id is refused.",
 "inputs","Every well-formed document of the four role types with unknown fields and values at any level, and every type/ill-formedness combination.",
 "The tests round-trip a few fixtures with one unknown string or map per level; they do not generate numbers, nulls, unicode, nesting, empty collections or optional-field combinations.",
 [MA,M],[("MarshalJSON/UnmarshalJSON pairs",MA),("checkType, checkUniqueSignatures",M)],["bytes of ToBytes/ToFile compared as JSON values with the input"])
p("C04","Hostile metadata yields an error, never a crash, hang or half-load",
 "Whatever bytes a repository, mirror, local cache or caller supplies as metadata, including correctly signed but malformed documents, every load, verification, refresh, lookup and download returns a result or an error without panicking and without unbounded time. A load that fails leaves the object it was called on, and any trusted state, as it was.",
 "inputs fault_sequences","All byte strings and all structurally mutated, correctly signed documents in every role, fed through every public entry point.",
 "The tests use a dozen malformed inputs; missing or mistyped members, nulls inside maps, odd key material, extreme bit lengths and signed-but-malformed documents are never produced.",
 [M,MA,K,T,U],[("checkType and parse-time validation",M),("presence checks before use",T),("length check on key material",K)],["recovered panics, process death, per-call CPU time, deep snapshots before/after a failed call"])
p("C05","Root updates form an unbroken, doubly signed chain",
 "The trusted root only ever moves from version N to a version N+1 document that meets the root threshold of both the old and the new root, and a rejected candidate leaves the trusted root unchanged. A refresh follows every available successive root, including expired intermediate ones, up to the configured rotation limit and before using any other metadata; it ends the chain only when the server answers not-found or forbidden for the next version, and any other failure fails the refresh. Root cannot be changed any more once a timestamp has been loaded, and the newest accepted root is the one remembered in the local cache.",
 "histories inputs fault_sequences","All sequences of root documents (key rotations, threshold changes, wrong versions, missing signatures, gaps) and server answers.",
 "Tests cover one or two rotations with chosen keys; they do not combine rotation of keys, thresholds, skipped versions, HTTP failures and limits over histories.",
 [T,U],[("UpdateRoot",T),("loadRoot",U)],["trusted root identity after each step; requests seen by the fetcher; cached root.json"],[("trusted root","current anchor of trust",T)])
p("C06","No rollback within a session or across sessions",
 "A client never replaces trusted timestamp, snapshot or targets metadata by an older one: the timestamp version and the snapshot version it lists never decrease, and neither the version of any file listed by the snapshot nor that file's presence goes backwards, whether the earlier state was loaded in this session or left in the local cache by an earlier one. A timestamp of equal version leaves the current one in place. Cached metadata no longer validly signed under the current root does not hold back an update, so recovery from a key compromise works.",
 "histories fault_sequences","All sequences of client sessions against a repository or attacker that may replay any earlier state, including key rotations.",
 "Tests replay one older file per role; they do not run multi-session histories mixing replays, key rotation and partially lost caches.",
 [T,U],[("UpdateTimestamp/UpdateSnapshot version checks",T),("local metadata loaded before remote",U)],["versions held by the trusted set and cache after every operation of a history"],[("trusted timestamp/snapshot","rollback baseline",T)])
p("C07","Mix-and-match: a file must be the one its parent lists",
 "Snapshot metadata is accepted as final only if its version, and its length and hashes where given, are those the timestamp lists, and targets metadata (top level or delegated) only if its version, and its length and hashes where given, are those the snapshot lists. A targets role the snapshot does not list is refused, and metadata that does match and is otherwise valid is accepted, with or without the optional length and hashes.",
 "inputs histories","All combinations of listed/served version, length, hashes (each optional), role names and consistent-snapshot settings.",
 "Tests check a couple of mismatches on fixed metadata; not all optional-field combinations, hash algorithms, delegated roles or cached copies.",
 [T,M],[("UpdateSnapshot/UpdateDelegatedTargets",T),("VerifyLengthHashes",M)],["accept/reject decision against an independent model"])
p("C08","Expired metadata is never used as final",
 "An update never succeeds, and no target is looked up, while the root, timestamp, snapshot, or any targets metadata needed for the lookup has expired relative to the session's reference time. Expired intermediate roots, and an expired older timestamp or snapshot kept only as a rollback baseline, do not prevent newer unexpired metadata from being used, and unexpired metadata is never refused for expiry.",
 "inputs histories","All assignments of past/future expiries to all roles and versions, from network or cache, in all orders.",
 "Tests expire one role at a time in fixed scenarios.",
 [T,M],[("IsExpired and final checks",T)],["accept/reject decision, trusted state"])
p("C09","Update order is enforced and failed updates leave trust unchanged",
 "Trusted metadata can only be loaded in the order root, timestamp, snapshot, top-level targets, delegated targets (each after its delegator), and a loaded stage can no longer be replaced once the next one is loaded; out-of-order calls are refused. A refused update leaves every trusted object as it was, the only exception being a correctly signed, non-rollback timestamp or snapshot that is expired (or a snapshot not matching its timestamp), which is kept solely as rollback baseline and blocks the next stage.",
 "histories inputs","All sequences of update calls with valid and invalid documents.",
 "Tests try each out-of-order call once; they do not explore sequences or compare the full state after each refusal.",
 [T],[("ordering guards in Update*",T)],["full snapshot of the trusted set before and after each call"],[("TrustedMetadata","root, timestamp, snapshot, targets by role",T)])
p("C10","Delegated target lookup follows priority order and its limits",
 "Looking up a target visits roles in pre-order, depth-first, in the order delegations are listed, restricted to delegations matching the target path; it returns the entry of the first role visited that lists the target, stops at a terminating delegation instead of trying lower-priority ones, visits no role twice and at most the configured number of delegated roles, and otherwise reports that the target was not found. Every role consulted is verified against the keys of the role it was reached through, and the answer depends only on the repository contents, never on earlier lookups or on chance.",
 "inputs histories configurations","All delegation graphs (shared children, cycles, terminating and non-matching edges, hash bins), targets, limits and sequences of lookups.",
 "Tests use a few trees with at most a handful of roles and one lookup each, and some are flaky because order was left to map iteration.",
 [U,M],[("preOrderDepthFirstWalk",U),("roles for a target in listed order",M)],["returned entry, order of metadata requests, roles loaded"])
p("C11","Delegation path patterns and hash prefixes match exactly",
 "A delegation given by path patterns applies to a target path exactly when some pattern matches it by shell-style wildcards segment by segment, so that a wildcard never crosses a path separator and the number of segments is equal. A delegation given by path-hash prefixes applies exactly when the hexadecimal SHA-256 digest of the target path starts with one of the prefixes; a delegation with neither applies to nothing.",
 "inputs","All patterns, prefixes and target paths.",
 "Tests list about thirty pattern/path pairs and only one hash-prefix example.",
 [M],[("IsDelegatedPath, isTargetInPathPattern",M)],["decision against an independent matcher, directly and through lookups"])
p("C12","Hash-bin delegation assigns every target to exactly one bin",
 "With hash-bin (succinct) delegation of b bits, every target path belongs to exactly one bin, named prefix-<zero-padded hex of the first b bits of the path's SHA-256>, which is among the 2^b enumerated bin names; all bins are terminating. A role name counts as a bin exactly when it is one of the enumerated names, so other spellings are neither recognised nor accepted as delegated, and bit lengths outside 1 to 32 are refused when loaded.",
 "inputs configurations","All bit lengths, prefixes, target paths and candidate role names.",
 "Tests check a few bit lengths and names with regular spelling.",
 [M,MA],[("SuccinctRoles.GetRolesForTarget/GetRoles/IsDelegatedRole",M)],["computed bins against an independent computation"])
p("C13","Only target bytes matching signed length and hashes are delivered",
 "A target download returns success, and writes a file, only if the bytes have exactly the signed length and match every listed hash; on any failure nothing is written or overwritten at the destination and no data are returned. A local file is reported as cached only if it matches in the same way. The requested URL is the target base URL plus the target path, with the file name part prefixed by one of its hashes when consistent snapshots and prefixing are both enabled, and a correct target is always delivered byte for byte to the requested or default location.",
 "inputs fault_sequences configurations","All target contents, paths (nested, odd characters), hash sets, server corruptions (truncation, extension, bit flips, substitution) and prior local files.",
 "Tests download one or two flat target names; no corruption at each position, nested paths with hash prefixes or pre-existing files.",
 [U,M],[("DownloadTarget, FindCachedTarget",U),("VerifyLengthHashes",M)],["bytes returned, bytes on disk before and after, URL requested"])
p("C14","Downloads are bounded and every transfer failure is reported",
 "A download never yields more bytes than the limit given for it, and stops reading soon after the limit is exceeded whatever the server declares or sends; too long, non-200, truncated, unreachable or stalled transfers are errors (with the status code available), and an acceptable response yields exactly the body the server sent. The client asks for every metadata file with the length its parent lists or else the configured maximum for that role, and for a target with its signed length, and a failed transfer never counts as success of a refresh or download.",
 "inputs fault_sequences configurations","All server behaviours (declared length, chunking, endless bodies, early close, status codes, stalls) and limits.",
 "The only fetcher test contacts a public web site and is excluded; the rest use an in-memory fetcher.",
 [F,U,C],[("DownloadFile",F),("length arguments in load*",U)],["bytes sent by the server, result and error, limits passed to the fetcher"])
p("C15","A damaged local cache neither blocks nor misleads the client",
 "Whatever the cached metadata files other than the trusted root contain (missing, truncated, corrupted, foreign, replayed or wrongly signed), a refresh against an available honest repository succeeds, provided no cached file is a validly signed document other than an earlier one of that role. It ends in the same trusted state as a refresh with an empty cache, and repairs the damaged files.",
 "fault_sequences inputs","All corruptions of every cached file, individually and together.",
 "Tests corrupt at most one cached file in one way.",
 [U,T],[("fall back to remote when a local file is invalid",U)],["trusted documents and cache files after refresh compared with an empty-cache run"])
p("C16","Cached metadata files are always complete, verified documents",
 "At every instant, including when writing fails or the process is interrupted, each published metadata file in the cache is byte for byte a complete document that the client has verified, either the previous or the new one, so a crash never loses the last good copy. Metadata that fails verification is never written to the cache, verified new metadata is, and no stray temporary files are left behind, whatever the working directory is.",
 "crash_points fault_sequences schedules","All write-failure points, kills, concurrent readers and writers, working directories.",
 "Tests only inspect the cache after successful runs.",
 [U],[("persistMetadata",U)],["directory event log, concurrent readers, file contents after injected write failures and kills"],[("metadata cache dir","root/timestamp/snapshot/targets and delegated files",U)])
p("C17","File effects stay inside the configured directories",
 "A client creates or changes files only inside its configured metadata and targets directories (or at the explicit destination it is given), whatever role names and target paths the repository uses; different roles and different target paths never share a file, and a delegated role can never overwrite the cached file of another role. With local caching disabled nothing is written at all.",
 "inputs configurations","All role names and target paths (separators, dots, percent signs, case, unicode, very long), directory names, cache settings.",
 "Tests use plain names in plain temporary directories.",
 [U,C,R],[("file name encoding in persistMetadata/generateTargetFilePath",U),("role-name validation",MA)],["file-tree snapshots around every operation"])
p("C18","Multi-repository lookups require the mapped consensus",
 "A multi-repository lookup returns a target only if, for the first mapping in order that matches the path and reaches a decision, at least the threshold number of different repositories listed in that mapping agree on the target's length and hashes, and it returns that agreed information with exactly the agreeing repositories. A mapping without such agreement passes on to the next one unless it is terminating, in which case the lookup fails; two different agreements in one mapping are an error. Malformed map files and repositories without a trusted root are refused with an error.",
 "configurations inputs histories","All map files (thresholds, orders, duplicates, terminating flags, unknown names) and all distributions of targets over repositories.",
 "There are no tests for this package.",
 [R],[("GetTargetInfo",R),("NewConfig",R)],["lookup result against an independent evaluation of the map file"])
p("C19","Adding and revoking keys keeps roles and key tables consistent",
 "After any sequence of adding and revoking keys, a role lists a key exactly when the last successful operation for that role and key added it, never twice, every listed key is present in the key table, and a key is dropped from the table exactly when its last user revokes it. Operations naming an unknown role or a key the role does not use fail without changing anything, and other roles, keys and fields are never affected.",
 "histories","All sequences of add and revoke operations on root and targets metadata (standard and succinct delegations).",
 "Tests perform single operations on one fixture.",
 [M],[("AddKey/RevokeKey",M)],["roles and key table after each operation against a set model"])
p("C20","Key encoding and key identity are faithful",
 "Converting any supported public key to metadata form and back yields the same key, its id is the SHA-256 of the canonical form of its content, depends on nothing else and survives serialisation, and different keys have different ids. Key material that is malformed, of the wrong type or of an unsupported type is refused with an error whenever it would be used.",
 "inputs","All RSA, ECDSA and Ed25519 keys, key dictionaries with extra fields, and malformed key material.",
 "Tests use the fixture keys only and never compare ids with an independent computation over varied content.",
 [K,MA],[("ToPublicKey, KeyFromPublicKey, ID",K)],["round-tripped keys, ids recomputed independently"])
p("C21","Clients and shared metadata can be used concurrently",
 "Independent clients running at the same time in one process, also when they share a fetcher, the trusted root bytes or a cache directory, and concurrent read-only use of one loaded metadata object (verification, serialisation, lookups, key ids), are free of data races. Each gets exactly the results it would get alone.",
 "schedules","All interleavings of concurrent clients and readers.",
 "The test suite is single-threaded and is not run with the race detector.",
 [U,M,K,F],[("no shared mutable state",U)],["race-detector reports; results compared with sequential runs"])
p("C22","The command-line client delivers only verified targets",
 "The client's init command establishes exactly the given (or downloaded) valid root as the trusted root and refuses an invalid one, its get command succeeds for every target the repository soundly offers, exits with success only when the verified target is present, byte-correct, in the download folder, and otherwise exits with failure leaving no new or changed file there. Its reset command deletes only the client's own metadata and download folders and, unless forced, only when confirmed.",
 "inputs fault_sequences configurations","All repositories (honest, tampered, expired), command sequences, flags and answers.",
 "The commands have no tests.",
 [CLI+"/init.go",CLI+"/get.go",CLI+"/reset.go"],[("InitializeCmd, GetCmd, ResetCmd",CLI)],["exit status, file tree before and after"])
p("C23","Local-only mode never touches the network and still verifies",
 "With local-only mode enabled, refresh and lookups make no network request; they succeed exactly when the cached metadata form a complete, correctly signed, unexpired and mutually consistent set under the provided root, and give the same trusted state and answers an online client held when it wrote that cache. They fail otherwise, leaving the cache unchanged (apart from the provided root, which is stored there).",
 "inputs configurations fault_sequences","All cache contents (complete, partial, tampered, expired, delegated roles present or missing).",
 "Tests cover top-level metadata present and absent, not delegated lookups or tampering.",
 [U],[("unsafeLocalRefresh",U)],["fetcher request log (must stay empty), outcome against the model"])
p("C24","An honest repository is always usable, with the right requests",
 "Against a repository following the specification, with or without consistent snapshots, with any delegation layout, role names and target paths, a refresh followed by lookups and downloads succeeds, ends with exactly the repository's current documents, finds exactly its reachable targets and lists exactly its top-level ones. Each metadata file is requested at most once per session, by its specified name (version-prefixed with consistent snapshots except for the timestamp, and escaped), in the order root, timestamp, snapshot, targets, and files whose valid copy is cached are not requested again.",
 "configurations inputs histories","All honest repositories and their update histories, all client configurations.",
 "Tests use one small simulated repository with fixed names.",
 [U,T],[("onlineRefresh",U),("downloadMetadata",U)],["request log and final state against the published repository"])
p("C25","Length and hash verification is exact",
 "Verifying data against a listed length and hashes succeeds exactly when the length is equal and every listed hash matches (for metadata entries only what is listed is checked; non-empty data never verify against a target entry without hashes), and an unsupported hash algorithm is an error. Describing data or a file as a target yields its true length and digests for the requested algorithms, so that precisely the original data verify against it, and two descriptions compare equal exactly when lengths agree and they share at least one hash algorithm with no shared algorithm disagreeing.",
 "inputs","All data, lengths, hash sets and algorithm names.",
 "Tests use one file and two algorithms, and a few wrong values.",
 [M],[("VerifyLengthHashes, Equal, FromBytes, FromFile",M)],["results against independent computation"])
p("C26","Rejections report the true kind of problem",
 "When an update, verification or download is refused, the error identifies, through the standard error-matching mechanism, a problem that the input actually has: too few signatures, wrong version, equal version, expired, length or hash mismatch, HTTP failure with its status, over-long download, wrong call order. Every repository-caused kind also matches the general repository error, every download kind matches the general download error, and no kind matches an unrelated one.",
 "inputs histories","All refusals produced by the other properties' workloads, and all pairs of error kinds with arbitrary messages.",
 "Tests compare a few errors and exact messages; they do not check that the kind is right under combined faults or that matching works with messages set.",
 [E,T,F],[("Is methods",E)],["errors.Is / errors.As on every error observed, against the set of faults planted"])
p("C27","Repositories authored with the library are accepted everywhere",
 "Whatever order documents are created, edited, given and deprived of keys, delegated, described from data or files, signed, signed again, cleared of signatures, written and reloaded with the library, the written documents contain exactly what the author put there, each with at most one signature per key, made over the content as it was when that key last signed; loading into an existing document replaces it whole, or leaves it alone if what is loaded is refused, and no document influences another. A publication whose documents are each signed, since their last change, by the required number of the right keys is accepted in full by the library's clients and by independent verifiers, root rotations included; where a document's signatures lag behind its content or its keys, that document is refused.",
 "inputs histories","Every sequence of authoring operations, publications and root rotations, with every supported key type, delegation layout and way of writing.",
 "The tests sign loaded fixtures once; the examples publish one fixed history. No test publishes what was authored, re-signed and reloaded over several rotations and checks it with independent means.",
 [M,MA,K,"metadata/repository/repository.go",T,U],[("constructors, Sign, ClearSignatures, FromFile, ToFile, FromBytes, AddKey, RevokeKey",M),("repository container","metadata/repository/repository.go")],
 ["bytes written at each publication compared with a model of what was authored and who signed it; verdicts, refresh, lookups and downloads of clients against the publication"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["title"]
