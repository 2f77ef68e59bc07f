From b94d8cade887f2f33ddb5ccd2c0a90145b06e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 01/43] fix: report metadata without a signed part or type
 instead of panicking

---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..73484ee 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -881,7 +881,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no signed part"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no type"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From 33b23219c149312d6312789a129047aeeaa03220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 02/43] fix: let errors.Is match the base error types whatever
 their message

---
 metadata/errors.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index 4086720..75f16f2 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -32,6 +32,11 @@ func (e ErrRepository) Error() string {
 	return fmt.Sprintf("repository error: %s", e.Msg)
 }
 
+// ErrRepository matches any other ErrRepository, whatever the message
+func (e ErrRepository) Is(target error) bool {
+	return target == ErrRepository{}
+}
+
 // ErrUnsignedMetadata - An error about metadata object with insufficient threshold of signatures
 type ErrUnsignedMetadata struct {
 	Msg string
@@ -113,6 +118,11 @@ func (e ErrDownload) Error() string {
 	return fmt.Sprintf("download error: %s", e.Msg)
 }
 
+// ErrDownload matches any other ErrDownload, whatever the message
+func (e ErrDownload) Is(target error) bool {
+	return target == ErrDownload{}
+}
+
 // ErrDownloadLengthMismatch - Indicate that a mismatch of lengths was seen while downloading a file
 type ErrDownloadLengthMismatch struct {
 	Msg string
@@ -151,6 +161,11 @@ func (e ErrValue) Error() string {
 	return fmt.Sprintf("value error: %s", e.Msg)
 }
 
+// ErrValue matches any other ErrValue, whatever the message
+func (e ErrValue) Is(target error) bool {
+	return target == ErrValue{}
+}
+
 // TypeError
 type ErrType struct {
 	Msg string
@@ -160,6 +175,11 @@ func (e ErrType) Error() string {
 	return fmt.Sprintf("type error: %s", e.Msg)
 }
 
+// ErrType matches any other ErrType, whatever the message
+func (e ErrType) Is(target error) bool {
+	return target == ErrType{}
+}
+
 // RuntimeError
 type ErrRuntime struct {
 	Msg string
@@ -168,3 +188,8 @@ type ErrRuntime struct {
 func (e ErrRuntime) Error() string {
 	return fmt.Sprintf("runtime error: %s", e.Msg)
 }
+
+// ErrRuntime matches any other ErrRuntime, whatever the message
+func (e ErrRuntime) Is(target error) bool {
+	return target == ErrRuntime{}
+}
-- 
2.43.0


From a6f3e1c76d92fbf88ffab9317be70e2e3618546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 03/43] fix: refuse metadata with null keys, roles, targets or
 meta entries

---
 metadata/marshal.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..538848d 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -42,6 +43,16 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*signed = RootType(s)
+	for id, key := range signed.Keys {
+		if key == nil {
+			return ErrValue{Msg: fmt.Sprintf("key %s is null", id)}
+		}
+	}
+	for name, role := range signed.Roles {
+		if role == nil {
+			return ErrValue{Msg: fmt.Sprintf("role %s is null", name)}
+		}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -78,6 +89,9 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*signed = SnapshotType(s)
+	if err := checkMetaFiles(signed.Meta); err != nil {
+		return err
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -112,6 +126,9 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*signed = TimestampType(s)
+	if err := checkMetaFiles(signed.Meta); err != nil {
+		return err
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -152,6 +169,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 
 	// populate the path field for each target
 	for name, targetFile := range signed.Targets {
+		if targetFile == nil {
+			return ErrValue{Msg: fmt.Sprintf("target %s is null", name)}
+		}
 		targetFile.Path = name
 	}
 
@@ -441,6 +461,11 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*d = Delegations(a)
+	for id, key := range d.Keys {
+		if key == nil {
+			return ErrValue{Msg: fmt.Sprintf("key %s is null", id)}
+		}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -559,3 +584,13 @@ func copyMapValues(src, dst map[string]any) {
 		dst[k] = v
 	}
 }
+
+// checkMetaFiles makes sure there are no null entries
+func checkMetaFiles(meta map[string]*MetaFiles) error {
+	for name, info := range meta {
+		if info == nil {
+			return ErrValue{Msg: fmt.Sprintf("meta information of %s is null", name)}
+		}
+	}
+	return nil
+}
-- 
2.43.0


From b838896d7fc48487d5a95cf43683377c3e00b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 04/43] fix: refuse a timestamp which does not list the
 snapshot

---
 metadata/trustedmetadata/trustedmetadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index 0792493..de87aa8 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -111,6 +111,10 @@ func (trusted *TrustedMetadata) UpdateTimestamp(timestampData []byte) (*metadata
 	if newTimestamp.Signed.Type != metadata.TIMESTAMP {
 		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("expected %s, got %s", metadata.TIMESTAMP, newTimestamp.Signed.Type)}
 	}
+	// a timestamp which does not list a snapshot is of no use
+	if _, ok := newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]; !ok {
+		return nil, metadata.ErrRepository{Msg: "timestamp does not contain information for snapshot"}
+	}
 	// verify that new timestamp is signed by trusted root
 	err = trusted.Root.VerifyDelegate(metadata.TIMESTAMP, newTimestamp)
 	if err != nil {
-- 
2.43.0


From 9534b7e1c8ad5ce80fd492e0f5625e54c2fb18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 05/43] fix: report a role missing in the snapshot instead of
 panicking

---
 metadata/updater/updater.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..1a9ac0c 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From 10733e11fd4b5256b48ce3b69f3b3cd7f9993c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 06/43] fix: refuse ed25519 public keys of the wrong length

---
 metadata/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..bff7069 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,9 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key length %d", len(publicKey))
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
-- 
2.43.0


From 1c0eded5cc9573933bf579528e5f37286470774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 07/43] fix: refuse roles with a threshold below one when
 loading metadata

---
 metadata/marshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 538848d..a0a1114 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -428,6 +428,9 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = Role(a)
+	if role.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", role.Threshold)}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -506,6 +509,9 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = DelegatedRole(a)
+	if role.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", role.Threshold)}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -540,6 +546,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = SuccinctRoles(a)
+	if role.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", role.Threshold)}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
-- 
2.43.0


From cc45a1de2c2969a1c747065b0d13d3869a9c0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 08/43] fix: refuse hash bin delegations with a bit length
 outside 1 to 32

---
 metadata/marshal.go  | 3 +++
 metadata/metadata.go | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index a0a1114..a5ab00f 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -546,6 +546,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = SuccinctRoles(a)
+	if !role.validBitLength() {
+		return ErrValue{Msg: fmt.Sprintf("bit_length must be between 1 and 32, got %d", role.BitLength)}
+	}
 	if role.Threshold < 1 {
 		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", role.Threshold)}
 	}
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 73484ee..75e97ab 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -571,6 +571,10 @@ func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]boo
 // the left-most "BitLength" of bits of the file path hash digest to
 // int, using it as bin index between 0 and “2**BitLength - 1“.
 func (role *SuccinctRoles) GetRolesForTarget(targetFilepath string) map[string]bool {
+	// no bins if the bit length makes no sense
+	if !role.validBitLength() {
+		return map[string]bool{}
+	}
 	// calculate the suffixLen value based on the total number of bins in
 	// hex. If bit_length = 10 then numberOfBins = 1024 or bin names will
 	// have a suffix between "000" and "3ff" in hex and suffixLen will be 3
@@ -607,6 +611,11 @@ func (role *SuccinctRoles) GetRoles() []string {
 	return res
 }
 
+// validBitLength returns whether BitLength is supported
+func (role *SuccinctRoles) validBitLength() bool {
+	return role.BitLength >= 1 && role.BitLength <= 32
+}
+
 func (role *SuccinctRoles) GetSuffixLen() (int, int) {
 	numberOfBins := int(math.Pow(2, float64(role.BitLength)))
 	return len(strconv.FormatInt(int64(numberOfBins-1), 16)), numberOfBins
-- 
2.43.0


From d6f8470027b2fda2871c73f625c9d637f2cf31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 09/43] fix: refuse delegations to roles without a name or
 named like a top-level role

---
 metadata/marshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index a5ab00f..cdc71b2 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -464,6 +464,12 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*d = Delegations(a)
+	for _, role := range d.Roles {
+		switch role.Name {
+		case "", ROOT, TIMESTAMP, SNAPSHOT, TARGETS:
+			return ErrValue{Msg: fmt.Sprintf("invalid delegated role name %q", role.Name)}
+		}
+	}
 	for id, key := range d.Keys {
 		if key == nil {
 			return ErrValue{Msg: fmt.Sprintf("key %s is null", id)}
-- 
2.43.0


From 07c932e305244271522ad8f9a4fecf000af97645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 10/43] fix: accept only the enumerated bin names as hash bin
 roles

---
 metadata/metadata.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 75e97ab..43a98e3 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -280,6 +280,9 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 			}
 		} else if i.Signed.Delegations.SuccinctRoles != nil {
+			if !i.Signed.Delegations.SuccinctRoles.IsDelegatedRole(delegatedRole) {
+				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
+			}
 			roleKeyIDs = i.Signed.Delegations.SuccinctRoles.KeyIDs
 			roleThreshold = i.Signed.Delegations.SuccinctRoles.Threshold
 		}
@@ -639,6 +642,11 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 		return false
 	}
 
+	// bin names are lower case hex digits only, without a sign
+	if strings.Trim(suffix, "0123456789abcdef") != "" {
+		return false
+	}
+
 	// make sure suffix is hex value and get bin number
 	value, err := strconv.ParseInt(suffix, 16, 64)
 	if err != nil {
-- 
2.43.0


From 024922eb51fd11c7f033e3e14af60b6ace3a84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 11/43] fix: visit delegated roles in the order of their
 delegation

---
 metadata/metadata.go        | 27 +++++++++++++++++++++++++++
 metadata/updater/updater.go | 10 +++++-----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 43a98e3..f0ed1c3 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -550,6 +550,33 @@ func isTargetInPathPattern(targetpath string, pathpattern string) bool {
 	return true
 }
 
+// RoleResult is a delegated role responsible for a target
+type RoleResult struct {
+	Name        string
+	Terminating bool
+}
+
+// GetOrderedRolesForTarget returns the delegated roles which are responsible
+// for targetFilepath in the order of their delegation, i.e. of their priority
+func (role *Delegations) GetOrderedRolesForTarget(targetFilepath string) []RoleResult {
+	res := []RoleResult{}
+	// standard delegations
+	if role.Roles != nil {
+		for _, r := range role.Roles {
+			ok, err := r.IsDelegatedPath(targetFilepath)
+			if err == nil && ok {
+				res = append(res, RoleResult{Name: r.Name, Terminating: r.Terminating})
+			}
+		}
+	} else if role.SuccinctRoles != nil {
+		// SuccinctRoles delegations, there's a single bin for each target
+		for name, terminating := range role.SuccinctRoles.GetRolesForTarget(targetFilepath) {
+			res = append(res, RoleResult{Name: name, Terminating: terminating})
+		}
+	}
+	return res
+}
+
 // GetRolesForTarget return the names and terminating status of all
 // delegated roles who are responsible for targetFilepath
 func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]bool {
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 1a9ac0c..7dec7a1 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -546,11 +546,11 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			childRolesToVisit := []roleParentTuple{}
 			// note that this may be a slow operation if there are many
 			// delegated roles
-			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
-				log.Info("Adding child role", "role", child)
-				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
-				if terminating {
+			roles := targets.Signed.Delegations.GetOrderedRolesForTarget(targetFilePath)
+			for _, child := range roles {
+				log.Info("Adding child role", "role", child.Name)
+				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child.Name, Parent: delegation.Role})
+				if child.Terminating {
 					log.Info("Not backtracking to other roles")
 					delegationsToVisit = []roleParentTuple{}
 					break
-- 
2.43.0


From 7818fde5f91a9d226dcf1ddd6406da535517f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 12/43] fix: put the hash prefix of a target before its file
 name in nested directories

---
 metadata/updater/updater.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 7dec7a1..12e1cc5 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -225,14 +225,10 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
-			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
-		} else {
-			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
-		}
+		// the prefix belongs to the file name, i.e. to what follows the last slash:
+		// <hash>.<target-name> or <dir-prefix>/<hash>.<target-name>
+		nameStart := strings.LastIndex(targetFilePath, "/") + 1
+		targetFilePath = fmt.Sprintf("%s%s.%s", targetFilePath[:nameStart], hashes, targetFilePath[nameStart:])
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
 	data, err := update.cfg.Fetcher.DownloadFile(fullURL, targetFile.Length, time.Second*15)
-- 
2.43.0


From ddb252f88db352023c88d4224e5328b3b676ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 13/43] fix: build the local target path as a file path, not as
 a URL

---
 metadata/updater/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 12e1cc5..f7bc3d2 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -623,7 +623,12 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
 	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	fileName := url.QueryEscape(tf.Path)
+	if fileName == "." || fileName == ".." {
+		// these would name a directory
+		fileName = strings.ReplaceAll(fileName, ".", "%2E")
+	}
+	return filepath.Join(update.cfg.LocalTargetsDir, fileName), nil
 }
 
 // loadLocalMetadata reads a local <roleName>.json file and returns its bytes
-- 
2.43.0


From 343257276a7bc7f63ec14dba5cbd3ffffab5a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 14/43] fix: read cached delegated metadata under the name it
 is written to

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index f7bc3d2..b0b6227 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -402,7 +402,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From 16228256bab8631d05f26d967c590f71e1ab8fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 15/43] fix: write temporary metadata files next to their
 destination and clean them up

---
 metadata/updater/updater.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index b0b6227..3281585 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -577,30 +577,28 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	}
 	// caching enabled, proceed with persisting the metadata locally
 	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
-	cwd, err := os.Getwd()
-	if err != nil {
-		return err
-	}
-	// create a temporary file
-	file, err := os.CreateTemp(cwd, "tuf_tmp")
+	// create a temporary file next to its destination, so that it can be renamed
+	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
 		return err
 	}
 	// write the data content to the temporary file
-	err = os.WriteFile(file.Name(), data, 0644)
+	_, err = file.Write(data)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	// if all okay, rename the temporary file to the desired one
+	if err == nil {
+		err = os.Rename(file.Name(), fileName)
+	}
 	if err != nil {
-		// delete the temporary file if there was an error while writing
+		// delete the temporary file if there was an error
 		errRemove := os.Remove(file.Name())
 		if errRemove != nil {
 			log.Info("Failed to delete temporary file", "name", file.Name())
 		}
 		return err
 	}
-	// if all okay, rename the temporary file to the desired one
-	err = os.Rename(file.Name(), fileName)
-	if err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 4283b1f295908c52cf2837feafc8af0649534e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 16/43] fix: do not download delegated roles in UnsafeLocalMode

---
 metadata/updater/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 3281585..537c7b8 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -426,6 +426,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 	}
 	// local "roleName" does not exist or is invalid, update from remote
 	log.Info("Failed to load local role", "role", roleName)
+	if update.cfg.UnsafeLocalMode {
+		// no network interaction is allowed
+		return nil, fmt.Errorf("no valid local metadata for role %s", roleName)
+	}
 	if update.trusted.Snapshot == nil {
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
-- 
2.43.0


From 2cc847c37213671871ad655d7ce69df122126bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 17/43] fix: fall back to the remote when cached metadata is
 damaged in any way

---
 metadata/updater/updater.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 537c7b8..dd0b4f4 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -296,8 +296,8 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.Is(err, metadata.ErrRuntime{}) {
+				// local timestamp is not valid, for whatever reason, proceed downloading from remote
 				log.Info("Local timestamp is not valid")
 			} else {
 				// another error
@@ -345,8 +345,8 @@ func (update *Updater) loadSnapshot() error {
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
 			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.Is(err, metadata.ErrRuntime{}) {
+				// local snapshot is not valid, for whatever reason, proceed downloading from remote
 				log.Info("Local snapshot is not valid")
 			} else {
 				// another error
@@ -411,8 +411,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
 			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.Is(err, metadata.ErrRuntime{}) {
+				// local target file is not valid, for whatever reason, proceed downloading from remote
 				log.Info("Local role is not valid", "role", roleName)
 			} else {
 				// another error
-- 
2.43.0


From 350f265e282c877871479d18a66689d4e1b1fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 18/43] fix: follow root rotations whatever the size of the
 configured limit

---
 metadata/updater/updater.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index dd0b4f4..3fb457b 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -470,12 +470,9 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 // persist on local disk every newer root metadata version
 // available on the remote
 func (update *Updater) loadRoot() error {
-	// calculate boundaries
-	lowerBound := update.trusted.Root.Signed.Version + 1
-	upperBound := lowerBound + update.cfg.MaxRootRotations
-
 	// loop until we find the latest available version of root (download -> verify -> load -> persist)
-	for nextVersion := lowerBound; nextVersion < upperBound; nextVersion++ {
+	for rotations := int64(0); rotations < update.cfg.MaxRootRotations; rotations++ {
+		nextVersion := update.trusted.Root.Signed.Version + 1
 		data, err := update.downloadMetadata(metadata.ROOT, update.cfg.RootMaxLength, strconv.FormatInt(nextVersion, 10))
 		if err != nil {
 			// downloading the root metadata failed for some reason
-- 
2.43.0


From 9cf0e378fbec9b7a45733583af0eb4b87fa86c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 19/43] fix: return the target info which reached the threshold
 in a multi-repository lookup

---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..7d278e3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -261,7 +261,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -272,7 +272,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From e8cf7849c82d52e10786349a38b6dc47d0606fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 20/43] fix: refuse malformed map files instead of panicking

---
 metadata/multirepo/multirepo.go | 35 +++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7d278e3..33fa544 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/rdimitrov/go-tuf-metadata/metadata"
 	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
@@ -68,6 +69,9 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 	if err := json.Unmarshal(repoMap, &mapFile); err != nil {
 		return nil, err
 	}
+	if err := mapFile.validate(); err != nil {
+		return nil, err
+	}
 
 	// make sure we have enough trusted root metadata files provided based on the repository list
 	for repo := range mapFile.Repositories {
@@ -84,8 +88,39 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 	}, nil
 }
 
+// validate makes sure the map file describes usable repositories and that its mappings list only those
+func (mapFile *MultiRepoMapType) validate() error {
+	if mapFile == nil {
+		return fmt.Errorf("invalid map file: it is empty")
+	}
+	for repoName, repoURL := range mapFile.Repositories {
+		// the repository name is used as a folder name too
+		if repoName == "" || repoName == "." || repoName == ".." || strings.ContainsAny(repoName, "/\\") {
+			return fmt.Errorf("invalid map file: invalid repository name - %q", repoName)
+		}
+		if len(repoURL) == 0 {
+			return fmt.Errorf("invalid map file: no URL provided for repository - %s", repoName)
+		}
+	}
+	for _, eachMap := range mapFile.Mapping {
+		if eachMap == nil {
+			return fmt.Errorf("invalid map file: empty mapping")
+		}
+		for _, repoName := range eachMap.Repositories {
+			if _, ok := mapFile.Repositories[repoName]; !ok {
+				return fmt.Errorf("invalid map file: mapping lists an unknown repository - %s", repoName)
+			}
+		}
+	}
+	return nil
+}
+
 // New returns a multi-repository TUF client. All repositories described in the provided map file are initialized too
 func New(config *MultiRepoConfig) (*MultiRepoClient, error) {
+	// make sure the map file is usable
+	if err := config.RepoMap.validate(); err != nil {
+		return nil, err
+	}
 	// create a multi repo client instance
 	client := &MultiRepoClient{
 		Config:     config,
-- 
2.43.0


From 43c111c1dde221629d5f8d05c17b1e68002b8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 21/43] fix: report an unknown repository in a multi-repository
 download instead of panicking

---
 metadata/multirepo/multirepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 33fa544..4e26f97 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -340,6 +340,10 @@ func (client *MultiRepoClient) DownloadTarget(repos []string, targetFile *metada
 	log := metadata.GetLogger()
 
 	for _, repoName := range repos {
+		// make sure this is a repository we know of
+		if client.TUFClients[repoName] == nil {
+			return "", nil, fmt.Errorf("unknown repository - %s", repoName)
+		}
 		// see if the target is already present locally
 		targetPath, targetBytes, err := client.TUFClients[repoName].FindCachedTarget(targetFile, filePath)
 		if err != nil {
-- 
2.43.0


From ef4900b2bbd7767c34c8a05cc9a18827514e3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 22/43] fix: allow multi-repository clients without a shared
 targets folder

---
 metadata/multirepo/multirepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 4e26f97..587976a 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -374,6 +374,10 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 		return nil
 	}
 	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+		if path == "" {
+			// not set, the folders are created for each repository
+			continue
+		}
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From 82f1587dd540f92886e9e24d4a64ca8e232ce286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 23/43] fix: do not return empty data for the largest download
 limit

---
 metadata/fetcher/fetcher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/fetcher/fetcher.go b/metadata/fetcher/fetcher.go
index 635aa6c..19f31bb 100644
--- a/metadata/fetcher/fetcher.go
+++ b/metadata/fetcher/fetcher.go
@@ -14,6 +14,7 @@ package fetcher
 import (
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"strconv"
 	"time"
@@ -69,7 +70,11 @@ func (d *DefaultFetcher) DownloadFile(urlPath string, maxLength int64, timeout t
 	// the reported size is inaccurate, or size is -1 which indicates an
 	// unknown length. We read maxLength + 1 in order to check if the read data
 	// surpased our set limit.
-	data, err := io.ReadAll(io.LimitReader(res.Body, maxLength+1))
+	readLimit := maxLength
+	if readLimit < math.MaxInt64 {
+		readLimit++
+	}
+	data, err := io.ReadAll(io.LimitReader(res.Body, readLimit))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From aed2f3597b40eac942d89c53fcb83d62db4e638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 24/43] fix: do not panic when listing top-level targets before
 a refresh

---
 metadata/updater/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 3fb457b..f35958c 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -637,7 +637,12 @@ func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
 
 // GetTopLevelTargets returns the top-level target files
 func (update *Updater) GetTopLevelTargets() map[string]*metadata.TargetFiles {
-	return update.trusted.Targets[metadata.TARGETS].Signed.Targets
+	targets, ok := update.trusted.Targets[metadata.TARGETS]
+	if !ok {
+		// not refreshed yet
+		return nil
+	}
+	return targets.Signed.Targets
 }
 
 // GetTrustedMetadataSet returns the trusted metadata set
-- 
2.43.0


From 2f3b4f595a8d806be577bb10f9c96feb7637bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 25/43] fix: compute key ids from the current content of the
 key without changing it

---
 metadata/keys.go     | 14 ++++++--------
 metadata/metadata.go |  4 ++++
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/metadata/keys.go b/metadata/keys.go
index bff7069..f282926 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -117,13 +117,11 @@ func KeyFromPublicKey(k crypto.PublicKey) (*Key, error) {
 // ID returns the keyID value for the given Key
 func (k *Key) ID() string {
 	// the identifier is a hexdigest of the SHA-256 hash of the canonical form of the key
-	if k.id == "" {
-		data, err := cjson.EncodeCanonical(k)
-		if err != nil {
-			panic(fmt.Errorf("error creating key ID: %w", err))
-		}
-		digest := sha256.Sum256(data)
-		k.id = hex.EncodeToString(digest[:])
+	// it is not kept in the key since keys may be changed and may be shared between goroutines
+	data, err := cjson.EncodeCanonical(k)
+	if err != nil {
+		panic(fmt.Errorf("error creating key ID: %w", err))
 	}
-	return k.id
+	digest := sha256.Sum256(data)
+	return hex.EncodeToString(digest[:])
 }
diff --git a/metadata/metadata.go b/metadata/metadata.go
index f0ed1c3..158a16b 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -693,6 +693,8 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 	if _, ok := signed.Roles[role]; !ok {
 		return ErrValue{Msg: fmt.Sprintf("role %s doesn't exist", role)}
 	}
+	// remember the keyID the key is added with
+	key.id = key.ID()
 	// add keyID to role
 	if !slices.Contains(signed.Roles[role].KeyIDs, key.ID()) {
 		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
@@ -743,6 +745,8 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	if signed.Delegations == nil {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
+	// remember the keyID the key is added with
+	key.id = key.ID()
 	// standard delegated roles
 	if signed.Delegations.Roles != nil {
 		// loop through all delegated roles
-- 
2.43.0


From 4ddcccafb1eb3bddb763560fc3d9afa2009335af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 26/43] fix: do not panic when adding the first key to an empty
 key table

---
 metadata/metadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 158a16b..f7626ab 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -700,6 +700,9 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
 	}
 	// update Keys
+	if signed.Keys == nil {
+		signed.Keys = map[string]*Key{}
+	}
 	signed.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
 }
@@ -745,6 +748,9 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	if signed.Delegations == nil {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
+	if signed.Delegations.Keys == nil {
+		signed.Delegations.Keys = map[string]*Key{}
+	}
 	// remember the keyID the key is added with
 	key.id = key.ID()
 	// standard delegated roles
-- 
2.43.0


From f93995cba2a2bb1b8b00714d841f78f12bf180c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 27/43] fix: refuse adding a key to delegations without roles

---
 metadata/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index f7626ab..600dd82 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -782,6 +782,8 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
 
+	} else {
+		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
 	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
-- 
2.43.0


From 8061805d9b6a34fb05a7b8611877dc5e3863c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 28/43] fix: never verify data against a target entry without
 hashes

---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 600dd82..238ae70 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -427,6 +427,10 @@ func (f *MetaFiles) VerifyLengthHashes(data []byte) error {
 // VerifyLengthHashes checks whether the TargetFiles data matches its corresponding
 // length and hashes
 func (f *TargetFiles) VerifyLengthHashes(data []byte) error {
+	// hashes are mandatory for TargetFiles, without them only empty data could be told apart
+	if len(f.Hashes) == 0 && len(data) > 0 {
+		return ErrLengthOrHashMismatch{Msg: "hash verification failed - no hashes are listed"}
+	}
 	err := verifyHashes(data, f.Hashes)
 	if err != nil {
 		return err
-- 
2.43.0


From f5beb4dcfb57f5a0c8e444b1355270dcd5765256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 29/43] fix: compare path hash prefixes with the hexadecimal
 digest of the target path

---
 metadata/metadata.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 238ae70..cf0c497 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -525,7 +525,12 @@ func (role *DelegatedRole) IsDelegatedPath(targetFilepath string) (bool, error)
 		// hash bin delegations - calculate the hash of the filepath to determine in which bin to find the target.
 		targetFilepathHash := sha256.Sum256([]byte(targetFilepath))
 		for _, pathHashPrefix := range role.PathHashPrefixes {
-			if strings.HasPrefix(base64.URLEncoding.EncodeToString(targetFilepathHash[:]), pathHashPrefix) {
+			// prefixes are given in hexadecimal
+			if strings.HasPrefix(hex.EncodeToString(targetFilepathHash[:]), pathHashPrefix) {
+				return true, nil
+			}
+			// metadata made with earlier versions of this library has them in base64
+			if !isHex(pathHashPrefix) && strings.HasPrefix(base64.URLEncoding.EncodeToString(targetFilepathHash[:]), pathHashPrefix) {
 				return true, nil
 			}
 		}
@@ -533,6 +538,11 @@ func (role *DelegatedRole) IsDelegatedPath(targetFilepath string) (bool, error)
 	return false, nil
 }
 
+// isHex tells whether s could be the start of a lower-case hexadecimal number
+func isHex(s string) bool {
+	return strings.Trim(s, "0123456789abcdef") == ""
+}
+
 // Determine whether “targetpath“ matches the “pathpattern“.
 func isTargetInPathPattern(targetpath string, pathpattern string) bool {
 	// We need to make sure that targetpath and pathpattern are pointing to
-- 
2.43.0


From 5b6b1e62d51fa09233ffee8a1b1f842c790cef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 30/43] fix: count a public key listed under several key ids
 once

---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index cf0c497..08c60a7 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -17,6 +17,7 @@ import (
 	"crypto/hmac"
 	"crypto/sha256"
 	"crypto/sha512"
+	"crypto/x509"
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
@@ -367,8 +368,13 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-			// save the verified keyID only if verification passed
-			signingKeys[keyID] = true
+			// save the verified key only if verification passed, identified by its content
+			// since the same key may be listed under several keyIDs
+			keyContent, err := x509.MarshalPKIXPublicKey(publicKey)
+			if err != nil {
+				return err
+			}
+			signingKeys[string(keyContent)] = true
 			log.Info("Verified with key", "role", delegatedRole, "ID", keyID)
 		}
 	}
-- 
2.43.0


From 66f42425c62028234c3750e20d4f23312ee22a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 31/43] fix: verify signatures in time linear in the number of
 keys and signatures

---
 metadata/metadata.go | 94 +++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 54 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 08c60a7..fdc739e 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -253,7 +253,7 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 	// Root delegator
 	case *Metadata[RootType]:
 		keys = i.Signed.Keys
-		if role, ok := (*i).Signed.Roles[delegatedRole]; ok {
+		if role, ok := (*i).Signed.Roles[delegatedRole]; ok && role != nil {
 			roleKeyIDs = role.KeyIDs
 			roleThreshold = role.Threshold
 		} else {
@@ -294,14 +294,46 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 	if len(roleKeyIDs) == 0 {
 		return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 	}
+	// collect the signatures and build the payload we'll verify
+	// based on the Signed part of the delegated metadata
+	var delegatedSignatures []Signature
+	var payload []byte
+	var err error
+	switch d := delegatedMetadata.(type) {
+	case *Metadata[RootType]:
+		delegatedSignatures = d.Signatures
+		payload, err = cjson.EncodeCanonical(d.Signed)
+	case *Metadata[SnapshotType]:
+		delegatedSignatures = d.Signatures
+		payload, err = cjson.EncodeCanonical(d.Signed)
+	case *Metadata[TimestampType]:
+		delegatedSignatures = d.Signatures
+		payload, err = cjson.EncodeCanonical(d.Signed)
+	case *Metadata[TargetsType]:
+		delegatedSignatures = d.Signatures
+		payload, err = cjson.EncodeCanonical(d.Signed)
+	default:
+		return ErrType{Msg: "unknown delegated metadata type"}
+	}
+	if err != nil {
+		return err
+	}
+	signs := map[string]Signature{}
+	for _, sign := range delegatedSignatures {
+		signs[sign.KeyID] = sign
+	}
+	verifiedKeyIDs := map[string]bool{}
 	// loop through each role keyID
 	for _, keyID := range roleKeyIDs {
 		key, ok := keys[keyID]
-		if !ok {
+		if !ok || key == nil {
 			return ErrValue{Msg: fmt.Sprintf("key with ID %s not found in %s keyids", keyID, delegatedRole)}
 		}
-		sign := Signature{}
-		var payload []byte
+		// look at each key once, however often it is listed
+		if verifiedKeyIDs[keyID] {
+			continue
+		}
+		verifiedKeyIDs[keyID] = true
 		// convert to a PublicKey type
 		publicKey, err := key.ToPublicKey()
 		if err != nil {
@@ -317,54 +349,8 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 		if err != nil {
 			return err
 		}
-		// collect the signature for that key and build the payload we'll verify
-		// based on the Signed part of the delegated metadata
-		switch d := delegatedMetadata.(type) {
-		case *Metadata[RootType]:
-			for _, signature := range d.Signatures {
-				if signature.KeyID == keyID {
-					sign = signature
-				}
-			}
-			payload, err = cjson.EncodeCanonical(d.Signed)
-			if err != nil {
-				return err
-			}
-		case *Metadata[SnapshotType]:
-			for _, signature := range d.Signatures {
-				if signature.KeyID == keyID {
-					sign = signature
-				}
-			}
-			payload, err = cjson.EncodeCanonical(d.Signed)
-			if err != nil {
-				return err
-			}
-		case *Metadata[TimestampType]:
-			for _, signature := range d.Signatures {
-				if signature.KeyID == keyID {
-					sign = signature
-				}
-			}
-			payload, err = cjson.EncodeCanonical(d.Signed)
-			if err != nil {
-				return err
-			}
-		case *Metadata[TargetsType]:
-			for _, signature := range d.Signatures {
-				if signature.KeyID == keyID {
-					sign = signature
-				}
-			}
-			payload, err = cjson.EncodeCanonical(d.Signed)
-			if err != nil {
-				return err
-			}
-		default:
-			return ErrType{Msg: "unknown delegated metadata type"}
-		}
 		// verify if the signature for that payload corresponds to the given key
-		if err := verifier.VerifySignature(bytes.NewReader(sign.Signature), bytes.NewReader(payload)); err != nil {
+		if err := verifier.VerifySignature(bytes.NewReader(signs[keyID].Signature), bytes.NewReader(payload)); err != nil {
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
@@ -940,12 +926,12 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 
 // checkUniqueSignatures verifies if the signature key IDs are unique for that metadata
 func checkUniqueSignatures[T Roles](meta Metadata[T]) error {
-	signatures := []string{}
+	signatures := map[string]bool{}
 	for _, sig := range meta.Signatures {
-		if slices.Contains(signatures, sig.KeyID) {
+		if signatures[sig.KeyID] {
 			return ErrValue{Msg: fmt.Sprintf("multiple signatures found for key ID %s", sig.KeyID)}
 		}
-		signatures = append(signatures, sig.KeyID)
+		signatures[sig.KeyID] = true
 	}
 	return nil
 }
-- 
2.43.0


From d94b08b9dea306fa8db17b4b83fbdbcaaf15b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 32/43] fix: accept RSA-PSS signatures for keys of the
 rsassa-pss-sha256 scheme

---
 metadata/metadata.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index fdc739e..7f540d0 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -15,6 +15,7 @@ import (
 	"bytes"
 	"crypto"
 	"crypto/hmac"
+	"crypto/rsa"
 	"crypto/sha256"
 	"crypto/sha512"
 	"crypto/x509"
@@ -350,7 +351,16 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			return err
 		}
 		// verify if the signature for that payload corresponds to the given key
-		if err := verifier.VerifySignature(bytes.NewReader(signs[keyID].Signature), bytes.NewReader(payload)); err != nil {
+		err = verifier.VerifySignature(bytes.NewReader(signs[keyID].Signature), bytes.NewReader(payload))
+		if rsaKey, ok := publicKey.(*rsa.PublicKey); ok && err != nil {
+			// the verifier above is for PKCS #1 v1.5 signatures as made by Sign() with a default signer,
+			// while the specification asks for PSS ones
+			if verifier, err = signature.LoadRSAPSSVerifier(rsaKey, hash, nil); err != nil {
+				return err
+			}
+			err = verifier.VerifySignature(bytes.NewReader(signs[keyID].Signature), bytes.NewReader(payload))
+		}
+		if err != nil {
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-- 
2.43.0


From 350934f93059980c993ae5206289526c93d022a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 33/43] fix: match field names exactly and keep large integers
 in unrecognized fields

---
 metadata/marshal.go | 266 ++++++++++++++++++++++----------------------
 1 file changed, 130 insertions(+), 136 deletions(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index cdc71b2..5bae5c8 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -12,10 +12,13 @@
 package metadata
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
+	"strconv"
+	"strings"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -37,9 +40,13 @@ func (signed RootType) MarshalJSON() ([]byte, error) {
 }
 
 func (signed *RootType) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "_type", "spec_version", "consistent_snapshot", "version", "expires", "keys", "roles")
+	if err != nil {
+		return err
+	}
 	type Alias RootType
 	var s Alias
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(known, &s); err != nil {
 		return err
 	}
 	*signed = RootType(s)
@@ -53,18 +60,6 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 			return ErrValue{Msg: fmt.Sprintf("role %s is null", name)}
 		}
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "_type")
-	delete(dict, "spec_version")
-	delete(dict, "consistent_snapshot")
-	delete(dict, "version")
-	delete(dict, "expires")
-	delete(dict, "keys")
-	delete(dict, "roles")
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -83,25 +78,19 @@ func (signed SnapshotType) MarshalJSON() ([]byte, error) {
 }
 
 func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "_type", "spec_version", "version", "expires", "meta")
+	if err != nil {
+		return err
+	}
 	type Alias SnapshotType
 	var s Alias
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(known, &s); err != nil {
 		return err
 	}
 	*signed = SnapshotType(s)
 	if err := checkMetaFiles(signed.Meta); err != nil {
 		return err
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "_type")
-	delete(dict, "spec_version")
-	delete(dict, "version")
-	delete(dict, "expires")
-	delete(dict, "meta")
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -120,25 +109,19 @@ func (signed TimestampType) MarshalJSON() ([]byte, error) {
 }
 
 func (signed *TimestampType) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "_type", "spec_version", "version", "expires", "meta")
+	if err != nil {
+		return err
+	}
 	type Alias TimestampType
 	var s Alias
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(known, &s); err != nil {
 		return err
 	}
 	*signed = TimestampType(s)
 	if err := checkMetaFiles(signed.Meta); err != nil {
 		return err
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "_type")
-	delete(dict, "spec_version")
-	delete(dict, "version")
-	delete(dict, "expires")
-	delete(dict, "meta")
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -160,9 +143,13 @@ func (signed TargetsType) MarshalJSON() ([]byte, error) {
 }
 
 func (signed *TargetsType) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "_type", "spec_version", "version", "expires", "targets", "delegations")
+	if err != nil {
+		return err
+	}
 	type Alias TargetsType
 	var s Alias
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(known, &s); err != nil {
 		return err
 	}
 	*signed = TargetsType(s)
@@ -174,17 +161,6 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 		}
 		targetFile.Path = name
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "_type")
-	delete(dict, "spec_version")
-	delete(dict, "version")
-	delete(dict, "expires")
-	delete(dict, "targets")
-	delete(dict, "delegations")
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -206,20 +182,16 @@ func (signed MetaFiles) MarshalJSON() ([]byte, error) {
 }
 
 func (signed *MetaFiles) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "length", "hashes", "version")
+	if err != nil {
+		return err
+	}
 	type Alias MetaFiles
 	var s Alias
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(known, &s); err != nil {
 		return err
 	}
 	*signed = MetaFiles(s)
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "length")
-	delete(dict, "hashes")
-	delete(dict, "version")
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -238,20 +210,16 @@ func (signed TargetFiles) MarshalJSON() ([]byte, error) {
 }
 
 func (signed *TargetFiles) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "length", "hashes", "custom")
+	if err != nil {
+		return err
+	}
 	type Alias TargetFiles
 	var s Alias
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(known, &s); err != nil {
 		return err
 	}
 	*signed = TargetFiles(s)
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "length")
-	delete(dict, "hashes")
-	delete(dict, "custom")
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -268,21 +236,17 @@ func (key Key) MarshalJSON() ([]byte, error) {
 }
 
 func (key *Key) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "keytype", "scheme", "keyval")
+	if err != nil {
+		return err
+	}
 	type Alias Key
 	var a Alias
-	if err := json.Unmarshal(data, &a); err != nil {
+	if err := json.Unmarshal(known, &a); err != nil {
 		return err
 	}
 	// nolint
 	*key = Key(a)
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "keytype")
-	delete(dict, "scheme")
-	delete(dict, "keyval")
 	key.UnrecognizedFields = dict
 	return nil
 }
@@ -299,8 +263,8 @@ func (meta Metadata[T]) MarshalJSON() ([]byte, error) {
 
 func (meta *Metadata[T]) UnmarshalJSON(data []byte) error {
 	tmp := any(new(T))
-	var m map[string]any
-	if err := json.Unmarshal(data, &m); err != nil {
+	known, m, err := splitFields(data, "signed", "signatures")
+	if err != nil {
 		return err
 	}
 	switch tmp.(type) {
@@ -309,7 +273,7 @@ func (meta *Metadata[T]) UnmarshalJSON(data []byte) error {
 			Signed     RootType    `json:"signed"`
 			Signatures []Signature `json:"signatures"`
 		}{}
-		if err := json.Unmarshal(data, &dict); err != nil {
+		if err := json.Unmarshal(known, &dict); err != nil {
 			return err
 		}
 		var i interface{} = dict.Signed
@@ -320,7 +284,7 @@ func (meta *Metadata[T]) UnmarshalJSON(data []byte) error {
 			Signed     SnapshotType `json:"signed"`
 			Signatures []Signature  `json:"signatures"`
 		}{}
-		if err := json.Unmarshal(data, &dict); err != nil {
+		if err := json.Unmarshal(known, &dict); err != nil {
 			return err
 		}
 		var i interface{} = dict.Signed
@@ -331,7 +295,7 @@ func (meta *Metadata[T]) UnmarshalJSON(data []byte) error {
 			Signed     TimestampType `json:"signed"`
 			Signatures []Signature   `json:"signatures"`
 		}{}
-		if err := json.Unmarshal(data, &dict); err != nil {
+		if err := json.Unmarshal(known, &dict); err != nil {
 			return err
 		}
 		var i interface{} = dict.Signed
@@ -342,7 +306,7 @@ func (meta *Metadata[T]) UnmarshalJSON(data []byte) error {
 			Signed     TargetsType `json:"signed"`
 			Signatures []Signature `json:"signatures"`
 		}{}
-		if err := json.Unmarshal(data, &dict); err != nil {
+		if err := json.Unmarshal(known, &dict); err != nil {
 			return err
 		}
 		var i interface{} = dict.Signed
@@ -351,8 +315,6 @@ func (meta *Metadata[T]) UnmarshalJSON(data []byte) error {
 	default:
 		return ErrValue{Msg: "unrecognized metadata type"}
 	}
-	delete(m, "signed")
-	delete(m, "signatures")
 	meta.UnrecognizedFields = m
 	return nil
 }
@@ -368,19 +330,16 @@ func (s Signature) MarshalJSON() ([]byte, error) {
 }
 
 func (s *Signature) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "keyid", "sig")
+	if err != nil {
+		return err
+	}
 	type Alias Signature
 	var a Alias
-	if err := json.Unmarshal(data, &a); err != nil {
+	if err := json.Unmarshal(known, &a); err != nil {
 		return err
 	}
 	*s = Signature(a)
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "keyid")
-	delete(dict, "sig")
 	s.UnrecognizedFields = dict
 	return nil
 }
@@ -395,18 +354,16 @@ func (kv KeyVal) MarshalJSON() ([]byte, error) {
 }
 
 func (kv *KeyVal) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "public")
+	if err != nil {
+		return err
+	}
 	type Alias KeyVal
 	var a Alias
-	if err := json.Unmarshal(data, &a); err != nil {
+	if err := json.Unmarshal(known, &a); err != nil {
 		return err
 	}
 	*kv = KeyVal(a)
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "public")
 	kv.UnrecognizedFields = dict
 	return nil
 }
@@ -422,22 +379,19 @@ func (role Role) MarshalJSON() ([]byte, error) {
 }
 
 func (role *Role) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "keyids", "threshold")
+	if err != nil {
+		return err
+	}
 	type Alias Role
 	var a Alias
-	if err := json.Unmarshal(data, &a); err != nil {
+	if err := json.Unmarshal(known, &a); err != nil {
 		return err
 	}
 	*role = Role(a)
 	if role.Threshold < 1 {
 		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", role.Threshold)}
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "keyids")
-	delete(dict, "threshold")
 	role.UnrecognizedFields = dict
 	return nil
 }
@@ -458,9 +412,13 @@ func (d Delegations) MarshalJSON() ([]byte, error) {
 }
 
 func (d *Delegations) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "keys", "roles", "succinct_roles")
+	if err != nil {
+		return err
+	}
 	type Alias Delegations
 	var a Alias
-	if err := json.Unmarshal(data, &a); err != nil {
+	if err := json.Unmarshal(known, &a); err != nil {
 		return err
 	}
 	*d = Delegations(a)
@@ -475,14 +433,6 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 			return ErrValue{Msg: fmt.Sprintf("key %s is null", id)}
 		}
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "keys")
-	delete(dict, "roles")
-	delete(dict, "succinct_roles")
 	d.UnrecognizedFields = dict
 	return nil
 }
@@ -509,26 +459,19 @@ func (role DelegatedRole) MarshalJSON() ([]byte, error) {
 }
 
 func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "name", "keyids", "threshold", "terminating", "paths", "path_hash_prefixes")
+	if err != nil {
+		return err
+	}
 	type Alias DelegatedRole
 	var a Alias
-	if err := json.Unmarshal(data, &a); err != nil {
+	if err := json.Unmarshal(known, &a); err != nil {
 		return err
 	}
 	*role = DelegatedRole(a)
 	if role.Threshold < 1 {
 		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", role.Threshold)}
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "name")
-	delete(dict, "keyids")
-	delete(dict, "threshold")
-	delete(dict, "terminating")
-	delete(dict, "paths")
-	delete(dict, "path_hash_prefixes")
 	role.UnrecognizedFields = dict
 	return nil
 }
@@ -546,9 +489,13 @@ func (role SuccinctRoles) MarshalJSON() ([]byte, error) {
 }
 
 func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
+	known, dict, err := splitFields(data, "keyids", "threshold", "bit_length", "name_prefix")
+	if err != nil {
+		return err
+	}
 	type Alias SuccinctRoles
 	var a Alias
-	if err := json.Unmarshal(data, &a); err != nil {
+	if err := json.Unmarshal(known, &a); err != nil {
 		return err
 	}
 	*role = SuccinctRoles(a)
@@ -558,15 +505,6 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if role.Threshold < 1 {
 		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", role.Threshold)}
 	}
-
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
-		return err
-	}
-	delete(dict, "keyids")
-	delete(dict, "threshold")
-	delete(dict, "bit_length")
-	delete(dict, "name_prefix")
 	role.UnrecognizedFields = dict
 	return nil
 }
@@ -596,6 +534,62 @@ func (b HexBytes) String() string {
 	return hex.EncodeToString(b)
 }
 
+// splitFields separates the named fields of a JSON object from all others. In contrast to
+// encoding/json the names have to match exactly, and the others keep integers of any size.
+func splitFields(data []byte, names ...string) (known []byte, others map[string]any, err error) {
+	var fields map[string]json.RawMessage
+	if err := json.Unmarshal(data, &fields); err != nil {
+		return nil, nil, err
+	}
+	knownFields := map[string]json.RawMessage{}
+	for _, name := range names {
+		if value, ok := fields[name]; ok {
+			knownFields[name] = value
+			delete(fields, name)
+		}
+	}
+	if known, err = json.Marshal(knownFields); err != nil {
+		return nil, nil, err
+	}
+	if fields != nil {
+		others = map[string]any{}
+	}
+	for name, data := range fields {
+		var value any
+		decoder := json.NewDecoder(bytes.NewReader(data))
+		decoder.UseNumber()
+		if err := decoder.Decode(&value); err != nil {
+			return nil, nil, err
+		}
+		others[name] = convertNumbers(value)
+	}
+	return known, others, nil
+}
+
+// convertNumbers replaces the numbers in value by float64 ones,
+// except for integers which would change their value
+func convertNumbers(value any) any {
+	switch v := value.(type) {
+	case map[string]any:
+		for name := range v {
+			v[name] = convertNumbers(v[name])
+		}
+	case []any:
+		for i := range v {
+			v[i] = convertNumbers(v[i])
+		}
+	case json.Number:
+		f, err := v.Float64()
+		if err != nil {
+			return v
+		}
+		if strings.ContainsAny(v.String(), ".eE") || strconv.FormatFloat(f, 'f', -1, 64) == v.String() {
+			return f
+		}
+	}
+	return value
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From 5b563959f2c0bb84a77f6f6b5e6fb57241c5d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 34/43] fix: verify loaded delegated roles for each role they
 are reached through

---
 metadata/updater/updater.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index f35958c..3194135 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -399,6 +399,12 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 	// avoid loading "roleName" more than once during "GetTargetInfo"
 	role, ok := update.trusted.Targets[roleName]
 	if ok {
+		// the role may have been loaded through another delegating role, so make sure this one trusts it too
+		if parent, ok := update.trusted.Targets[parentName]; ok {
+			if err := parent.VerifyDelegate(roleName, role); err != nil {
+				return nil, err
+			}
+		}
 		return role, nil
 	}
 	// try to read local targets
-- 
2.43.0


From f3bfd9f490bcd257a0d07c65d90866a77d700f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 35/43] fix: write target files in one step

---
 metadata/updater/updater.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 3194135..d0f74db 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -16,6 +16,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math/rand"
 	"net/http"
 	"net/url"
 	"os"
@@ -242,7 +243,7 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 
 	// do not persist the target file if cache is disabled
 	if !update.cfg.DisableLocalCache {
-		err = os.WriteFile(filePath, data, 0644)
+		err = writeTarget(filePath, data)
 		if err != nil {
 			return "", nil, err
 		}
@@ -609,6 +610,37 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	return nil
 }
 
+// writeTarget writes a target file in one step, so that a failure
+// leaves neither an incomplete file nor a damaged earlier one
+func writeTarget(filePath string, data []byte) error {
+	perm := os.FileMode(0644)
+	info, err := os.Lstat(filePath)
+	if err == nil {
+		if !info.Mode().IsRegular() {
+			// links, devices and the like can not be replaced
+			return os.WriteFile(filePath, data, perm)
+		}
+		perm = info.Mode().Perm()
+	}
+	// the temporary file is next to its destination, so that it can be renamed
+	tmpName := filepath.Join(filepath.Dir(filePath), fmt.Sprintf("tuf_tmp%016x", rand.Uint64()))
+	file, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(data)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(tmpName, filePath)
+	}
+	if err != nil {
+		os.Remove(tmpName)
+	}
+	return err
+}
+
 // downloadMetadata download a metadata file and return it as bytes
 func (update *Updater) downloadMetadata(roleName string, length int64, version string) ([]byte, error) {
 	urlPath := ensureTrailingSlash(update.cfg.RemoteMetadataURL)
-- 
2.43.0


From df729e61a21865a66c7aaaa52ee2a49117364112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 36/43] fix: find the cached metadata of roles named . and ..

---
 metadata/updater/updater.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d0f74db..549d4eb 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -144,8 +144,7 @@ func (update *Updater) onlineRefresh() error {
 func (update *Updater) unsafeLocalRefresh() error {
 	// Root is already loaded
 	// load timestamp
-	var p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP)
-	data, err := update.loadLocalMetadata(p)
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		return err
 	}
@@ -155,8 +154,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// load snapshot
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		return err
 	}
@@ -166,8 +164,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// targets
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TARGETS)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.TARGETS)
 	if err != nil {
 		return err
 	}
@@ -289,7 +286,7 @@ func (update *Updater) FindCachedTarget(targetFile *metadata.TargetFiles, filePa
 func (update *Updater) loadTimestamp() error {
 	log := metadata.GetLogger()
 	// try to read local timestamp
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP))
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		// this means there's no existing local timestamp so we should proceed downloading it without the need to UpdateTimestamp
 		log.Info("Local timestamp does not exist")
@@ -337,7 +334,7 @@ func (update *Updater) loadTimestamp() error {
 func (update *Updater) loadSnapshot() error {
 	log := metadata.GetLogger()
 	// try to read local snapshot
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT))
+	data, err := update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		// this means there's no existing local snapshot so we should proceed downloading it without the need to UpdateSnapshot
 		log.Info("Local snapshot does not exist")
@@ -409,7 +406,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
+	data, err := update.loadLocalMetadata(roleName)
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
@@ -584,7 +581,7 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 		return nil
 	}
 	// caching enabled, proceed with persisting the metadata locally
-	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
+	fileName := update.localMetadataPath(roleName)
 	// create a temporary file next to its destination, so that it can be renamed
 	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
@@ -668,9 +665,14 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 	return filepath.Join(update.cfg.LocalTargetsDir, fileName), nil
 }
 
-// loadLocalMetadata reads a local <roleName>.json file and returns its bytes
+// localMetadataPath returns the path of the locally cached metadata of a role
+func (update *Updater) localMetadataPath(roleName string) string {
+	return filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
+}
+
+// loadLocalMetadata reads the locally cached metadata of a role and returns its bytes
 func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
-	return readFile(fmt.Sprintf("%s.json", roleName))
+	return readFile(update.localMetadataPath(roleName))
 }
 
 // GetTopLevelTargets returns the top-level target files
-- 
2.43.0


From 656471cbd27ad0e77f02948cc85d215444141b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 37/43] fix: do not use a cached snapshot which does not match
 the timestamp as final

---
 metadata/trustedmetadata/trustedmetadata.go | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index de87aa8..f18d25f 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -25,6 +25,9 @@ type TrustedMetadata struct {
 	Timestamp *metadata.Metadata[metadata.TimestampType]
 	Targets   map[string]*metadata.Metadata[metadata.TargetsType]
 	RefTime   time.Time
+	// snapshotMismatch tells why a trusted local snapshot is not the one
+	// listed by the timestamp, and so is only good for rollback protection
+	snapshotMismatch error
 }
 
 // New creates a new TrustedMetadata instance which ensures that the
@@ -187,13 +190,12 @@ func (trusted *TrustedMetadata) UpdateSnapshot(snapshotData []byte, isTrusted bo
 		return nil, err
 	}
 	snapshotMeta := trusted.Timestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]
-	// verify non-trusted data against the hashes in timestamp, if any.
-	// trusted snapshot data has already been verified once.
-	if !isTrusted {
-		err = snapshotMeta.VerifyLengthHashes(snapshotData)
-		if err != nil {
-			return nil, err
-		}
+	// verify the data against the length and hashes in timestamp, if any.
+	// trusted snapshot data has already been verified once, so it is still
+	// good for rollback protection if it is not what the timestamp lists now
+	mismatch := snapshotMeta.VerifyLengthHashes(snapshotData)
+	if mismatch != nil && !isTrusted {
+		return nil, mismatch
 	}
 	newSnapshot, err := metadata.Snapshot().FromBytes(snapshotData)
 	if err != nil {
@@ -230,6 +232,7 @@ func (trusted *TrustedMetadata) UpdateSnapshot(snapshotData []byte, isTrusted bo
 	// expiry not checked to allow old snapshot to be used for rollback
 	// protection of new snapshot: it is checked when targets is updated
 	trusted.Snapshot = newSnapshot
+	trusted.snapshotMismatch = mismatch
 	log.Info("Updated snapshot", "version", trusted.Snapshot.Signed.Version)
 
 	// snapshot is loaded, but we error if it's not valid _final_ snapshot
@@ -241,7 +244,8 @@ func (trusted *TrustedMetadata) UpdateSnapshot(snapshotData []byte, isTrusted bo
 	return trusted.Snapshot, nil
 }
 
-// checkFinalSnapshot verifies if it's not expired and snapshot version matches timestamp meta version
+// checkFinalSnapshot verifies if it's not expired and if the snapshot version, length and hashes
+// match the timestamp meta
 func (trusted *TrustedMetadata) checkFinalSnapshot() error {
 	if trusted.Snapshot.Signed.IsExpired(trusted.RefTime) {
 		return metadata.ErrExpiredMetadata{Msg: "snapshot.json is expired"}
@@ -250,6 +254,9 @@ func (trusted *TrustedMetadata) checkFinalSnapshot() error {
 	if trusted.Snapshot.Signed.Version != snapshotMeta.Version {
 		return metadata.ErrBadVersionNumber{Msg: fmt.Sprintf("expected %d, got %d", snapshotMeta.Version, trusted.Snapshot.Signed.Version)}
 	}
+	if trusted.snapshotMismatch != nil {
+		return trusted.snapshotMismatch
+	}
 	return nil
 }
 
-- 
2.43.0


From 3a42680f52916287862ad6b26516bf036e4c102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 38/43] fix: read hex values written with JSON string escapes

---
 metadata/marshal.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 5bae5c8..161f214 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -510,11 +510,15 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 }
 
 func (b *HexBytes) UnmarshalJSON(data []byte) error {
-	if len(data) < 2 || len(data)%2 != 0 || data[0] != '"' || data[len(data)-1] != '"' {
+	if len(data) < 2 || data[0] != '"' {
 		return errors.New("tuf: invalid JSON hex bytes")
 	}
-	res := make([]byte, hex.DecodedLen(len(data)-2))
-	_, err := hex.Decode(res, data[1:len(data)-1])
+	// the characters of a JSON string may be escaped
+	var s string
+	if err := json.Unmarshal(data, &s); err != nil {
+		return err
+	}
+	res, err := hex.DecodeString(s)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 63af448ec912fec39f132d3bfc9102d935e4ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 39/43] fix: refuse RSA keys too large to verify with in
 reasonable time

---
 metadata/keys.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f282926..30866d0 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -35,6 +35,9 @@ const (
 	KeySchemeRSASSA_PSS_SHA256    = "rsassa-pss-sha256"
 )
 
+// maxRSAKeyBits is the largest accepted size of an RSA key
+const maxRSAKeyBits = 16384
+
 // ToPublicKey generate crypto.PublicKey from metadata type Key
 func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 	switch k.Type {
@@ -47,6 +50,10 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid rsa public key")
 		}
+		// verifying with an excessively large key takes minutes or longer
+		if rsaKey.N.BitLen() > maxRSAKeyBits {
+			return nil, fmt.Errorf("rsa public key of %d bits is too large", rsaKey.N.BitLen())
+		}
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(rsaKey); err != nil {
 			return nil, err
-- 
2.43.0


From 65b92f418c2de3f78a2ff4b6c17ba9f5bbad2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 40/43] fix: do not change the delegations when adding a key to
 an unknown role fails

---
 metadata/metadata.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 7f540d0..494258e 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -764,9 +764,6 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	if signed.Delegations == nil {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
-	if signed.Delegations.Keys == nil {
-		signed.Delegations.Keys = map[string]*Key{}
-	}
 	// remember the keyID the key is added with
 	key.id = key.ID()
 	// standard delegated roles
@@ -777,6 +774,9 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 			// if role is found
 			if d.Name == role {
 				isDelegatedRole = true
+				if signed.Delegations.Keys == nil {
+					signed.Delegations.Keys = map[string]*Key{}
+				}
 				// add key if keyID is not already part of keyIDs for that role
 				if !slices.Contains(d.KeyIDs, key.ID()) {
 					signed.Delegations.Roles[i].KeyIDs = append(signed.Delegations.Roles[i].KeyIDs, key.ID())
@@ -790,6 +790,9 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 			return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 		}
 	} else if signed.Delegations.SuccinctRoles != nil {
+		if signed.Delegations.Keys == nil {
+			signed.Delegations.Keys = map[string]*Key{}
+		}
 		// add key if keyID is not already part of keyIDs for the SuccinctRoles role
 		if !slices.Contains(signed.Delegations.SuccinctRoles.KeyIDs, key.ID()) {
 			signed.Delegations.SuccinctRoles.KeyIDs = append(signed.Delegations.SuccinctRoles.KeyIDs, key.ID())
-- 
2.43.0


From c89050a1de3e2c523c0d8a912a37429316806919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 41/43] fix: role names with spaces were asked for under an
 address that no repository serves

---
 metadata/updater/updater.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 549d4eb..3600cea 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -643,9 +643,9 @@ func (update *Updater) downloadMetadata(roleName string, length int64, version s
 	urlPath := ensureTrailingSlash(update.cfg.RemoteMetadataURL)
 	// build urlPath
 	if version == "" {
-		urlPath = fmt.Sprintf("%s%s.json", urlPath, url.QueryEscape(roleName))
+		urlPath = fmt.Sprintf("%s%s.json", urlPath, url.PathEscape(roleName))
 	} else {
-		urlPath = fmt.Sprintf("%s%s.%s.json", urlPath, version, url.QueryEscape(roleName))
+		urlPath = fmt.Sprintf("%s%s.%s.json", urlPath, version, url.PathEscape(roleName))
 	}
 	return update.cfg.Fetcher.DownloadFile(urlPath, length, time.Second*15)
 }
-- 
2.43.0


From d8326a42ec53395ca88c22028e17d052c35281aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 42/43] fix: signing again with a key replaces its earlier
 signature

---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 494258e..a2ab055 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -231,8 +231,14 @@ func (meta *Metadata[T]) Sign(signer signature.Signer) (*Signature, error) {
 		KeyID:     key.ID(),
 		Signature: sb,
 	}
-	// update the Signatures part
-	meta.Signatures = append(meta.Signatures, *sig)
+	// update the Signatures part, replacing an earlier signature of the same key
+	signatures := []Signature{}
+	for _, s := range meta.Signatures {
+		if s.KeyID != sig.KeyID {
+			signatures = append(signatures, s)
+		}
+	}
+	meta.Signatures = append(signatures, *sig)
 	// return the new signature
 	log.Info("Signed metadata with key", "ID", key.ID())
 	return sig, nil
-- 
2.43.0


From d15cc3e98c3608606e77fc821e619be8f677d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 43/43] fix: adding a key to a role leaves other roles' keys
 alone

---
 metadata/metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a2ab055..4002c3f 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -719,7 +719,7 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 	key.id = key.ID()
 	// add keyID to role
 	if !slices.Contains(signed.Roles[role].KeyIDs, key.ID()) {
-		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
+		signed.Roles[role].KeyIDs = append(slices.Clip(signed.Roles[role].KeyIDs), key.ID())
 	}
 	// update Keys
 	if signed.Keys == nil {
@@ -785,7 +785,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 				}
 				// add key if keyID is not already part of keyIDs for that role
 				if !slices.Contains(d.KeyIDs, key.ID()) {
-					signed.Delegations.Roles[i].KeyIDs = append(signed.Delegations.Roles[i].KeyIDs, key.ID())
+					signed.Delegations.Roles[i].KeyIDs = append(slices.Clip(signed.Delegations.Roles[i].KeyIDs), key.ID())
 					signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 					return nil
 				}
@@ -801,7 +801,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		}
 		// add key if keyID is not already part of keyIDs for the SuccinctRoles role
 		if !slices.Contains(signed.Delegations.SuccinctRoles.KeyIDs, key.ID()) {
-			signed.Delegations.SuccinctRoles.KeyIDs = append(signed.Delegations.SuccinctRoles.KeyIDs, key.ID())
+			signed.Delegations.SuccinctRoles.KeyIDs = append(slices.Clip(signed.Delegations.SuccinctRoles.KeyIDs), key.ID())
 			signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 			return nil
 		}
-- 
2.43.0

