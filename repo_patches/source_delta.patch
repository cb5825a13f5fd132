From f86fab57ca14710c855cfe31e04b59040d12f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:07 +0000
Subject: [PATCH 01/52] fix: refuse empty entry DNs and malformed new RDNs
 instead of crashing

---
 pkg/ldbbolt/ldbbolt.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 2d6f554..5450fe8 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -181,6 +181,9 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 	}
 
 	dn, _ := ldap.ParseDN(e.DN)
+	if dn == nil || len(dn.RDNs) == 0 {
+		return fmt.Errorf("'%s' is not a valid entry DN", e.DN)
+	}
 	parentDN := &ldap.DN{
 		RDNs: dn.RDNs[1:],
 	}
@@ -224,6 +227,9 @@ func (bdb *LdbBolt) EntryDelete(dn string) error {
 	if err != nil {
 		return err
 	}
+	if len(parsed.RDNs) == 0 {
+		return ErrEntryNotFound
+	}
 	pparentDN := &ldap.DN{
 		RDNs: parsed.RDNs[1:],
 	}
@@ -322,6 +328,13 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		return err
 	}
 
+	if len(olddn.RDNs) == 0 {
+		return ErrEntryNotFound
+	}
+	if len(newrdn.RDNs) != 1 {
+		return ldap.NewError(ldap.LDAPResultInvalidDNSyntax, errors.New("new RDN must be a single RDN"))
+	}
+
 	var newDN ldap.DN
 
 	newDN.RDNs = []*ldap.RelativeDN{newrdn.RDNs[0]}
-- 
2.43.0


From 0a86766053e5050f4f645ccf71f6bc3ba55bbc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:22 +0000
Subject: [PATCH 02/52] fix: refuse to rename the base entry out of the
 database

---
 pkg/ldbbolt/ldbbolt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 5450fe8..4c4b3e4 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -344,6 +344,11 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		flatNewDN := ldapdn.Normalize(&newDN)
 		flatOldDN := ldapdn.Normalize(olddn)
 
+		// the base entry has to keep its name
+		if flatOldDN == bdb.base {
+			return ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("base entry cannot be renamed"))
+		}
+
 		// error out if there is an entry with the new name already
 		if id := bdb.getIDByDN(tx, flatNewDN); id != 0 {
 			return ErrEntryAlreadyExists
-- 
2.43.0


From b9a4abced8e2f7eec0d30c5cd9b3ade3e20ede04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:33 +0000
Subject: [PATCH 03/52] fix: allow renames whose new RDN keeps a value of the
 old one

---
 pkg/ldbbolt/ldbbolt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 4c4b3e4..967f0c5 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -27,6 +27,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"slices"
 	"strings"
 
 	"github.com/go-ldap/ldap/v3"
@@ -375,6 +376,10 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		if req.DeleteOldRDN {
 			oldRDN := olddn.RDNs[0]
 			for _, ava := range oldRDN.Attributes {
+				// values which are part of the new RDN as well have to stay
+				if slices.ContainsFunc(newrdn.RDNs[0].Attributes, ava.EqualFold) {
+					continue
+				}
 				modReq.Delete(ava.Type, []string{ava.Value})
 			}
 		}
-- 
2.43.0


From 742b5b190810cc3cd1c74457e7f151a9e2dc1802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:07 +0000
Subject: [PATCH 04/52] fix: include entries with escaped commas in one-level
 searches

---
 pkg/ldapserver/filter.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 1ec4cc1..ab26e2b 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -163,15 +163,10 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 			return false, ldap.LDAPResultSuccess
 		}
 	case ldap.ScopeSingleLevel: // The scope is constrained to the immediate subordinates of the entry named by baseObject.
-		parts := strings.Split(entry.DN, ",")
-		if len(parts) < 2 && !parsedDn.EqualFold(parsedBaseDn) {
+		if len(parsedDn.RDNs) < 1 {
 			return false, ldap.LDAPResultSuccess
 		}
-		subDn := strings.Join(parts[1:], ",")
-		parsedSubDn, err := ldap.ParseDN(subDn)
-		if err != nil {
-			return false, ldap.LDAPResultOperationsError
-		}
+		parsedSubDn := &ldap.DN{RDNs: parsedDn.RDNs[1:]}
 		if !parsedSubDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
-- 
2.43.0


From 67aa9b1ca2b2dd18135e1cf7b2acff154ff901be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:09 +0000
Subject: [PATCH 05/52] fix: return an attribute once even if it is requested
 several times

---
 pkg/ldapserver/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 992707d..ab9224a 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -164,6 +164,7 @@ func filterAttributes(entry *ldap.Entry, attributes []string) (*ldap.Entry, erro
 		for _, requested := range attributes {
 			if requested == "*" || strings.EqualFold(attr.Name, requested) {
 				newAttributes = append(newAttributes, attr)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 6b2952840b955f848df0a66d7816e6ca1217d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:12 +0000
Subject: [PATCH 06/52] fix: evaluate all pieces of a substring filter

---
 pkg/ldapserver/filter.go | 50 +++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index ab26e2b..f96297d 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -110,25 +110,14 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 			return false, ldap.LDAPResultOperationsError
 		}
 		attribute := f.Children[0].Value.(string)
-		bytes := f.Children[1].Children[0].Data.Bytes()
-		value := casefold.String(string(bytes))
+		if len(f.Children[1].Children) == 0 {
+			return false, ldap.LDAPResultOperationsError
+		}
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					v = casefold.String(v)
-					switch f.Children[1].Children[0].Tag {
-					case FilterSubstringsInitial:
-						if strings.HasPrefix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsAny:
-						if strings.Contains(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsFinal:
-						if strings.HasSuffix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
+					if matchSubstrings(f.Children[1].Children, casefold.String(v)) {
+						return true, ldap.LDAPResultSuccess
 					}
 				}
 			}
@@ -146,6 +135,35 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// matchSubstrings checks if the provided case folded value contains all the
+// given pieces, in order and without overlap.
+func matchSubstrings(pieces []*ber.Packet, v string) bool {
+	for _, piece := range pieces {
+		value := casefold.String(string(piece.Data.Bytes()))
+		switch piece.Tag {
+		case FilterSubstringsInitial:
+			if !strings.HasPrefix(v, value) {
+				return false
+			}
+			v = v[len(value):]
+		case FilterSubstringsAny:
+			i := strings.Index(v, value)
+			if i < 0 {
+				return false
+			}
+			v = v[i+len(value):]
+		case FilterSubstringsFinal:
+			if !strings.HasSuffix(v, value) {
+				return false
+			}
+			v = v[len(v):]
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
 	parsedBaseDn, err := ldap.ParseDN(baseDN)
-- 
2.43.0


From 8d13446c68f5ef78cc2520530df32e7675bcbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:00 +0000
Subject: [PATCH 07/52] fix: release the statistics lock after counting an add
 request

---
 pkg/ldapserver/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index c18e627..2b30685 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -47,7 +47,7 @@ func (stats *Stats) countAdds(delta uint64) {
 	if stats != nil {
 		stats.statsMutex.Lock()
 		stats.Adds += delta
-		stats.statsMutex.Lock()
+		stats.statsMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From acd698590c51c8d5643e8806f6fbb01a7e664794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:02 +0000
Subject: [PATCH 08/52] fix: copy the maximum number of connections when
 reading statistics

---
 pkg/ldapserver/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index 2b30685..2a1dbcd 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -106,6 +106,7 @@ func (stats *Stats) Clone() *Stats {
 		stats.statsMutex.RLock()
 		s2.Conns = stats.Conns
 		s2.ConnsCurrent = stats.ConnsCurrent
+		s2.ConnsMax = stats.ConnsMax
 		s2.Adds = stats.Adds
 		s2.Binds = stats.Binds
 		s2.Deletes = stats.Deletes
-- 
2.43.0


From ab2e14ad884298fb21001714492604394237b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:05 +0000
Subject: [PATCH 09/52] fix: do not crash on extended operation errors without
 a message

---
 pkg/ldapserver/extended.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/extended.go b/pkg/ldapserver/extended.go
index 83ad790..751f27c 100644
--- a/pkg/ldapserver/extended.go
+++ b/pkg/ldapserver/extended.go
@@ -33,7 +33,9 @@ func HandleExtendedRequest(req *ber.Packet, boundDN string, server *Server, conn
 		msg := ""
 		if err != nil {
 			if lerr, ok := err.(*ldap.Error); ok {
-				msg = lerr.Err.Error()
+				if lerr.Err != nil {
+					msg = lerr.Err.Error()
+				}
 				resCode = LDAPResultCode(lerr.ResultCode)
 			} else {
 				msg = err.Error()
-- 
2.43.0


From 0967bda7fb7b2d2f821a3bc7351cbc36c5de883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:08 +0000
Subject: [PATCH 10/52] fix: return the generated password instead of its hash

---
 pkg/ldapserver/pwmodifyexop.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 8d71965..72bc482 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -25,6 +25,7 @@ func init() {
 
 func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, conn net.Conn) (*ber.Packet, error) {
 	var passwordGenerated bool
+	var generatedPassword string
 	logger.V(1).Info("HandlePasswordModifyExOp")
 	if boundDN == "" {
 		return nil, ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("authentication required"))
@@ -48,6 +49,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 			return nil, ldap.NewError(ldap.LDAPResultOperationsError, errors.New("Failed to generate new Password"))
 		}
 		passwordGenerated = true
+		generatedPassword = pwReq.NewPassword
 	}
 	pwReq.NewPassword, err = ldappassword.Hash(pwReq.NewPassword, "{ARGON2}")
 	if err != nil {
@@ -77,7 +79,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 	var response *ber.Packet
 	if passwordGenerated {
 		response = ber.NewSequence("PasswdModifyResponseValue")
-		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pwReq.NewPassword, "genPasswd"))
+		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, generatedPassword, "genPasswd"))
 	}
 	return response, nil
 }
-- 
2.43.0


From 23be9db4d2887f7a845126fb704e6a1537c29db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:10 +0000
Subject: [PATCH 11/52] fix: reject undecodable password modify requests
 instead of generating a new password

---
 pkg/ldapserver/pwmodifyexop.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 72bc482..4c7edf8 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -93,11 +93,15 @@ func parsePasswordModifyExop(req *ber.Packet) (*ldap.PasswordModifyRequest, erro
 		return &pwReq, nil
 	}
 
-	inner := ber.DecodePacket(req.Data.Bytes())
-	if inner == nil {
+	if req.Data.Len() == 0 {
 		return &pwReq, nil
 	}
 
+	inner := ber.DecodePacket(req.Data.Bytes())
+	if inner == nil || inner.ClassType != ber.ClassUniversal || inner.TagType != ber.TypeConstructed || inner.Tag != ber.TagSequence {
+		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
+	}
+
 	if len(inner.Children) > 3 {
 		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
 	}
-- 
2.43.0


From 70318282d87a77498cba92bfc3323088259e98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:13 +0000
Subject: [PATCH 12/52] fix: reset the connection to anonymous when a bind
 fails

---
 pkg/ldapserver/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0ecab75..57e7300 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -294,6 +294,7 @@ handler:
 		case ldap.ApplicationBindRequest:
 			server.Stats.countBinds(1)
 			ldapResultCode := HandleBindRequest(req, server.BindFns, conn)
+			boundDN = "" // A failed bind leaves the connection anonymous (RFC4511 4.2.1)
 			if ldapResultCode == ldap.LDAPResultSuccess {
 				boundDN, ok = req.Children[1].Value.(string)
 				if !ok {
-- 
2.43.0


From c191a424e57fb8a774bf1efde60024df931176b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:15 +0000
Subject: [PATCH 13/52] fix: reject malformed changes in modify requests
 instead of crashing

---
 pkg/ldapserver/modify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index f9f4c20..86671b0 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -82,6 +82,9 @@ func parseModList(req *ber.Packet) ([]ldap.Change, error) {
 
 	for _, c := range req.Children {
 		var change ldap.Change
+		if len(c.Children) != 2 || c.Children[0].Data.Len() == 0 {
+			return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding Change"))
+		}
 		switch c.Children[0].Data.Bytes()[0] {
 		default:
 			return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid change operation"))
-- 
2.43.0


From 231c062e0fec43aef7a0f4a424a433e3ad93449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:18 +0000
Subject: [PATCH 14/52] fix: close only the affected connection when handling a
 request panics

---
 pkg/ldapserver/server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 57e7300..eeceed1 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -8,6 +8,7 @@ package ldapserver
 import (
 	"crypto/tls"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"net"
@@ -213,6 +214,18 @@ listener:
 func (server *Server) handleConnection(conn net.Conn) {
 	boundDN := "" // "" == anonymous
 
+	defer func() {
+		// Do not let a single bad request take down the whole server.
+		if r := recover(); r != nil {
+			logger.Error(fmt.Errorf("%v", r), "panic while handling request, closing connection")
+			for _, c := range server.CloseFns {
+				c.Close(boundDN, conn)
+			}
+			conn.Close()
+			server.Stats.countConnsClose(1)
+		}
+	}()
+
 handler:
 	for {
 		// Read incoming LDAP packet.
-- 
2.43.0


From 274916c394d16544a12612c429bed5d48df6d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:20 +0000
Subject: [PATCH 15/52] fix: answer compare requests with a compare response

---
 pkg/ldapserver/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index eeceed1..b1a8738 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -327,7 +327,7 @@ handler:
 			}
 
 		case ldap.ApplicationCompareRequest:
-			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareRequest, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
+			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareResponse, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
 			if err = sendPacket(conn, responsePacket); err != nil {
 				logger.Error(err, "sendPacket error")
 			}
-- 
2.43.0


From aa47785f214bcf0a9f4fb0fa06f36ecda78ba16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:54 +0000
Subject: [PATCH 16/52] fix: apply delete changes to the result of the
 preceding changes

---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index d2e83ad..aa2de08 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -65,7 +65,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(old.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
-- 
2.43.0


From 87ace434825a4a42f0f69937558db2acc0408ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:56 +0000
Subject: [PATCH 17/52] fix: reject malformed password hashes instead of
 crashing

---
 pkg/ldappassword/ldappassword.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index d4c801c..74d0753 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -22,6 +22,9 @@ var Argon2DefaultParams = argon2id.DefaultParams
 
 func Validate(password string, hash string) (bool, error) {
 	algorithm := ""
+	if hash == "" {
+		return false, fmt.Errorf("no password hash")
+	}
 	if hash[0] == '{' {
 		algorithmEnd := strings.Index(hash[0:], "}")
 		if algorithmEnd >= 1 {
@@ -41,6 +44,9 @@ func Validate(password string, hash string) (bool, error) {
 	case "{ARGON2}":
 		// Follows the format used by the Argon2 reference C implementation and looks like this:
 		// $argon2id$v=19$m=65536,t=3,p=2$c29tZXNhbHQ$RdescudvJCsgt3ub+b+dWRWJTmaaJObG
+		if params, _, _, err := argon2id.DecodeHash(hash); err == nil && (params.Iterations < 1 || params.Parallelism < 1 || params.KeyLength < 4) {
+			return false, fmt.Errorf("argon2 error: invalid parameters")
+		}
 		match, err := argon2id.ComparePasswordAndHash(password, hash)
 		if err != nil {
 			return false, fmt.Errorf("argon2 error: %w", err)
@@ -51,6 +57,9 @@ func Validate(password string, hash string) (bool, error) {
 		return true, nil
 
 	case "{CRYPT}":
+		if len(hash) < 2 {
+			return false, fmt.Errorf("crypt error: hash too short")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
@@ -74,6 +83,9 @@ func Validate(password string, hash string) (bool, error) {
 		if err != nil {
 			return false, fmt.Errorf("ssha error: %w", err)
 		}
+		if len(decodedBytes) < 4 {
+			return false, fmt.Errorf("ssha error: hash too short")
+		}
 		salt := decodedBytes[len(decodedBytes)-4:]
 		h := sha1.New() //nolint,gosec
 		h.Write([]byte(password))
-- 
2.43.0


From 24577c7739e6faba68337480e264dd52225127cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:19 +0000
Subject: [PATCH 18/52] fix: do not accept passwords with text after a NUL for
 crypt hashes

---
 pkg/ldappassword/ldappassword.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index 74d0753..ba8c41a 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -60,6 +60,10 @@ func Validate(password string, hash string) (bool, error) {
 		if len(hash) < 2 {
 			return false, fmt.Errorf("crypt error: hash too short")
 		}
+		if strings.IndexByte(password, 0) >= 0 {
+			// The C library would ignore everything after the NUL.
+			return false, fmt.Errorf("crypt error: password contains NUL")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
-- 
2.43.0


From 1810c7fafc9e120d2e2a8877284962fa6d881d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:15 +0000
Subject: [PATCH 19/52] fix: do not miss entries of or-filters in indexed LDIF
 searches

---
 server/handler/ldif/filter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/filter.go b/server/handler/ldif/filter.go
index cf32e50..376154c 100644
--- a/server/handler/ldif/filter.go
+++ b/server/handler/ldif/filter.go
@@ -41,7 +41,7 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 			}
 		}
 		for _, f := range matches {
-			if !withObjectClass && strings.EqualFold("objectClass", f[1]) {
+			if !withObjectClass && strings.EqualFold("objectClass", f[1]) && !strings.Contains(f[0], "|") {
 				continue
 			}
 			result = append(result, f[1:])
@@ -97,10 +97,15 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 
 	case ldapserver.FilterOr:
 		for idx, child := range f.Children {
+			leaves := len(parent)
 			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.|%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if len(parent) == leaves {
+				// Entries matching only this child cannot be found by index.
+				return nil, errors.New("or filter with a child without index lookup")
+			}
 		}
 
 	case ldapserver.FilterNot:
-- 
2.43.0


From 8dc4dce56370407970f037dcd2a48cf48ca96b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:18 +0000
Subject: [PATCH 20/52] fix: look up values in the LDIF indexes without regard
 to case

---
 server/handler/ldif/index.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 42c20fc..9db540f 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -47,6 +47,12 @@ func RemoveIndexAttribute(name string) {
 	delete(indexAttributes, name)
 }
 
+// foldValue returns the same text for all values which are equal without
+// regard to case.
+func foldValue(value string) string {
+	return strings.ToLower(strings.ToUpper(value))
+}
+
 type Index interface {
 	Add(name, op string, values []string, entry *ldifEntry) bool
 	Load(name, op string, params ...string) ([]*ldifEntry, bool)
@@ -60,14 +66,14 @@ func newIndexMap() indexMap {
 
 func (im indexMap) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		value = strings.ToLower(value)
+		value = foldValue(value)
 		im[value] = append(im[value], entry)
 	}
 	return true
 }
 
 func (im indexMap) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
-	entries := im[strings.ToLower(value[0])]
+	entries := im[foldValue(value[0])]
 	return entries, true
 }
 
@@ -83,7 +89,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 
 func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		sfx := []byte(value)
+		sfx := []byte(foldValue(value))
 		var entries []*ldifEntry
 		if v, ok := ist.t.Get(sfx); ok {
 			entries = v.([]*ldifEntry)
@@ -96,7 +102,7 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	sfx := []byte(value[0])
+	sfx := []byte(foldValue(value[0]))
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
@@ -116,7 +122,7 @@ func newIndexRadixTree() *indexRadixTree {
 
 func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		pfx := value
+		pfx := foldValue(value)
 		var entries []*ldifEntry
 		if v, ok := irt.t.Get(pfx); ok {
 			entries = v.([]*ldifEntry)
@@ -129,7 +135,7 @@ func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (irt *indexRadixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	pfx := value[0]
+	pfx := foldValue(value[0])
 	irt.t.WalkPrefix(pfx, func(key string, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
-- 
2.43.0


From 1eebadb251dedd283bcfe008bc4feaf93dc9572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:20 +0000
Subject: [PATCH 21/52] fix: do not return entries outside of the base in
 subtree searches

---
 pkg/ldapserver/filter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index f96297d..7e1e201 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -176,6 +176,9 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 	}
 	switch scope {
 	case ldap.ScopeWholeSubtree: // The scope is constrained to the entry named by baseObject and to all its subordinates.
+		if !parsedBaseDn.EqualFold(parsedDn) && !parsedBaseDn.AncestorOfFold(parsedDn) {
+			return false, ldap.LDAPResultSuccess
+		}
 	case ldap.ScopeBaseObject: // The scope is constrained to the entry named by baseObject.
 		if !parsedDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
-- 
2.43.0


From 824151db96bae6e9be8d105e10b205a14764b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:22 +0000
Subject: [PATCH 22/52] fix: answer requests which abandon a paged search

---
 server/handler/ldif/handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d93dc27..c57fdd9 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -292,6 +292,8 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 					// No paging size with cookie, means abandon.
 					start = false
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("search paging pump abandon")
+					pumpCh = make(chan *ldifEntry)
+					close(pumpCh)
 					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
 				}
-- 
2.43.0


From 5a47dad20eeffb1e665d5a79d9a5dd3f85c80176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:24 +0000
Subject: [PATCH 23/52] fix: end paged searches properly when the last page is
 full

---
 server/handler/ldif/handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index c57fdd9..605dd4b 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -484,6 +484,10 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 			return false
 		})
 	}
+	if pagingControl != nil {
+		// Keep the search until the client has been told that it is complete.
+		pump(nil)
+	}
 }
 
 func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
-- 
2.43.0


From 43d082ad02497d567c6eaef9ee0d799026ee84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:08 +0000
Subject: [PATCH 24/52] fix: refuse binds as LDIF entries without a password
 instead of crashing

---
 server/handler/ldif/entry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/entry.go b/server/handler/ldif/entry.go
index 150bf61..7335cc3 100644
--- a/server/handler/ldif/entry.go
+++ b/server/handler/ldif/entry.go
@@ -20,6 +20,9 @@ type ldifEntry struct {
 }
 
 func (entry *ldifEntry) validatePassword(bindSimplePw string) error {
+	if entry.UserPassword == nil {
+		return fmt.Errorf("no password")
+	}
 	match, err := ldappassword.Validate(bindSimplePw, entry.UserPassword.Values[0])
 	if err != nil {
 		return err
-- 
2.43.0


From 8a51bfbb0d06d9e94983e4c6775e95c490176122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:11 +0000
Subject: [PATCH 25/52] fix: report when LDIF search results are cut off by the
 size limit

---
 pkg/ldapserver/search.go       |  6 ++++++
 server/handler/ldif/handler.go | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index ab9224a..df375ae 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -89,6 +89,12 @@ func HandleSearchRequest(req *ber.Packet, controls *[]ldap.Control, messageID in
 			return &searchResp.Controls, ldap.NewError(ldap.LDAPResultOperationsError, err)
 		}
 	}
+	if resultErr == nil && searchResp.ResultCode == ldap.LDAPResultSizeLimitExceeded {
+		resultErr = ldap.NewError(
+			ldap.LDAPResultSizeLimitExceeded,
+			errors.New(ldap.LDAPResultCodeMap[ldap.LDAPResultSizeLimitExceeded]),
+		)
+	}
 	return &searchResp.Controls, resultErr
 }
 
diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 605dd4b..c02e201 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -327,6 +327,7 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 	var entry *ldap.Entry
 	var count uint32
 	var keep bool
+	var sizeLimitExceeded bool
 results:
 	for {
 		select {
@@ -361,6 +362,12 @@ results:
 					continue
 				}
 
+				if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
+					// TODO(longsleep): handle total sizelimit for paging.
+					sizeLimitExceeded = true
+					break results
+				}
+
 				// Make a copy, before filtering attributes.
 				e := &ldap.Entry{
 					DN:         entry.DN,
@@ -386,10 +393,6 @@ results:
 						break results
 					}
 				}
-				if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
-					// TODO(longsleep): handle total sizelimit for paging.
-					break results
-				}
 			}
 		}
 	}
@@ -401,11 +404,16 @@ results:
 		})
 	}
 
+	resultCode = ldap.LDAPResultSuccess
+	if sizeLimitExceeded {
+		resultCode = ldap.LDAPResultSizeLimitExceeded
+	}
+
 	return ldapserver.ServerSearchResult{
 		Entries:    entries,
 		Referrals:  []string{},
 		Controls:   doneControls,
-		ResultCode: ldap.LDAPResultSuccess,
+		ResultCode: resultCode,
 	}, nil
 }
 
-- 
2.43.0


From 1cb1c59e32cb98e379d850cc307392e8146af025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:13 +0000
Subject: [PATCH 26/52] fix: serve anonymous clients from the database only if
 enabled and local

---
 server/handler/boltdb/handler.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 4f192fb..98edcbe 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -121,7 +121,7 @@ func (h *boltdbHandler) Bind(bindDN, bindSimplePw string, conn net.Conn) (ldapse
 
 	// Handle anoymous bind
 	if bindDN == "" {
-		if !h.allowLocalAnonymousBind {
+		if !h.anonymousAllowed(conn) {
 			logger.Debugln("ldap anonymous Bind disabled")
 			return ldap.LDAPResultInvalidCredentials, nil
 		} else if bindSimplePw == "" {
@@ -294,6 +294,13 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 		"attrs":  req.Attributes,
 	})
 
+	if boundDN == "" && !h.anonymousAllowed(conn) {
+		logger.Debugln("ldap anonymous search disabled")
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultInsufficientAccessRights,
+		}, errors.New("anonymous search not allowed")
+	}
+
 	logger.Debug("Calling boltdb search")
 	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
 	logger.Debugf("boltdb search returned %d entries", len(entries))
@@ -325,6 +332,14 @@ func (h *boltdbHandler) Reload(ctx context.Context) error {
 	return nil
 }
 
+func (h *boltdbHandler) anonymousAllowed(conn net.Conn) bool {
+	if !h.allowLocalAnonymousBind {
+		return false
+	}
+	host, _, _ := net.SplitHostPort(conn.RemoteAddr().String())
+	return net.ParseIP(host).IsLoopback()
+}
+
 func (h *boltdbHandler) writeAllowed(boundDN string) bool {
 	if h.adminDN != "" && h.adminDN == boundDN {
 		return true
-- 
2.43.0


From 1f01a9d251a01990cc7876be9805b239e3a1fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:16 +0000
Subject: [PATCH 27/52] fix: keep the service users when reloading the main
 LDIF data fails

---
 server/handler/ldif/middleware.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index f314444..f085254 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -120,12 +120,17 @@ func (h *ldifMiddleware) WithContext(ctx context.Context) handler.Handler {
 }
 
 func (h *ldifMiddleware) Reload(ctx context.Context) error {
+	previous := h.load()
 	err := h.open()
 	if err != nil {
 		return err
 	}
 
-	return h.next.Reload(ctx)
+	err = h.next.Reload(ctx)
+	if err != nil {
+		h.current.Store(previous)
+	}
+	return err
 }
 
 func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserver.LDAPResultCode, error) {
-- 
2.43.0


From 0794c7efc582570332d089713d64fa749fd68acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:18 +0000
Subject: [PATCH 28/52] fix: embed files completely in LDIF templates

---
 server/handler/ldif/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler/ldif/template.go b/server/handler/ldif/template.go
index 846ffb1..d668e99 100644
--- a/server/handler/ldif/template.go
+++ b/server/handler/ldif/template.go
@@ -113,6 +113,10 @@ func TemplateFuncs(m map[string]interface{}, options *Options) template.FuncMap
 				return "", fmt.Errorf("LDIF template formatAsFile size limit exceeded: %s", fn)
 			}
 
+			if err = encoder.Close(); err != nil {
+				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
+			}
+
 			return buf.String(), nil
 		},
 	}
-- 
2.43.0


From 947b254e2d3292ac533da05ac5836f663722d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:21 +0000
Subject: [PATCH 29/52] fix: fail to load LDIF templates which cannot be read
 completely

---
 server/handler/ldif/ldif.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 1a77222..95b17e0 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -106,6 +106,9 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 		}
 		text = append(text, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read LDIF template: %w", err)
+	}
 
 	if m == nil {
 		m = make(map[string]interface{})
-- 
2.43.0


From 124490bc4a3ea52586532cf6f36326ddada07dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:23 +0000
Subject: [PATCH 30/52] fix: ignore continuation lines of comments in LDIF
 templates

---
 server/handler/ldif/ldif.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 95b17e0..6719e51 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -98,12 +98,19 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
 	var text []string
+	var isComment bool
 	for scanner.Scan() {
 		t := scanner.Text()
 		if t != "" && t[0] == '#' {
 			// Ignore commented lines.
+			isComment = true
 			continue
 		}
+		if isComment && t != "" && t[0] == ' ' {
+			// Ignore continued comment lines.
+			continue
+		}
+		isComment = false
 		text = append(text, scanner.Text())
 	}
 	if err := scanner.Err(); err != nil {
-- 
2.43.0


From 3f5b860059a93c4d83f241580d79082762331b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:26 +0000
Subject: [PATCH 31/52] fix: refuse LDIF files with change records instead of
 skipping entries

---
 server/handler/ldif/ldif.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 6719e51..867af9a 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -156,6 +156,9 @@ func treeFromLDIF(l *ldif.LDIF, index Index, options *Options) (*suffix.Tree, er
 	// NOTE(longsleep): Create in memory tree records from LDIF data.
 	var entry *ldap.Entry
 	for _, entryRecord := range l.Entries {
+		if entryRecord != nil && entryRecord.Entry == nil {
+			return nil, fmt.Errorf("change records are not supported")
+		}
 		if entryRecord == nil || entryRecord.Entry == nil {
 			// NOTE(longsleep): We don't use l.AllEntries as "nil" records can happen.
 			continue
-- 
2.43.0


From bb26d6ea09a2d64ae79b0f8db9605f9bcdca5df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:29 +0000
Subject: [PATCH 32/52] fix: load LDIF files with a separate version line and
 refuse change records

---
 cmd/idmd/boltdb/load/load.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/boltdb/load/load.go b/cmd/idmd/boltdb/load/load.go
index 4bbc4a8..6988149 100644
--- a/cmd/idmd/boltdb/load/load.go
+++ b/cmd/idmd/boltdb/load/load.go
@@ -62,7 +62,14 @@ func (l *LDIFLoader) Load(ldifFile string) error {
 		return err
 	}
 
-	for _, entry := range lf.AllEntries() {
+	for _, record := range lf.Entries {
+		if record == nil {
+			continue
+		}
+		entry := record.Entry
+		if entry == nil {
+			return fmt.Errorf("change records are not supported in '%s'", ldifFile)
+		}
 		l.logger.Debugf("Adding '%s'", entry.DN)
 		if err := bdb.EntryPut(entry); err != nil {
 			return fmt.Errorf("error adding Entry '%s': %w", entry.DN, err)
-- 
2.43.0


From 68fecbbda7a86f70f7d9683fc44e5e779a80251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:31 +0000
Subject: [PATCH 33/52] fix: report password file lines with missing fields
 instead of crashing

---
 cmd/idmd/gen/newusers/newusers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4c0f135..08c3d8d 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -154,7 +154,7 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 
 		// pw_name:pw_passwd:pw_uid:pw_gid:pw_gecos:pw_dir:pw_shell
 		parts := strings.Split(line, ":")
-		if len(parts) < 5 {
+		if len(parts) < 7 {
 			return nil, fmt.Errorf("not enough fields in line %d", count)
 		}
 		e := &entry{
-- 
2.43.0


From 17b016c88e1fd87d15efdc001af8330a792f7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:34 +0000
Subject: [PATCH 34/52] fix: report password files which cannot be read
 completely

---
 cmd/idmd/gen/newusers/newusers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 08c3d8d..b35eca8 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -179,6 +179,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 		results = append(results, e)
 
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%w in line %d", err, count+1)
+	}
 
 	return results, nil
 }
-- 
2.43.0


From 0325ca90e20c4ed3f0bc196980431f922a162639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:36 +0000
Subject: [PATCH 35/52] fix: print generated password values verbatim

---
 cmd/idmd/gen/passwd/passwd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 1499a63..6a93cfc 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -141,7 +141,7 @@ func passwd(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	fmt.Fprintf(os.Stdout, hash)
+	fmt.Fprint(os.Stdout, hash)
 	if !OmitTrailingNewline {
 		fmt.Fprintf(os.Stdout, "\n")
 	}
-- 
2.43.0


From 601b7fafaed13ad54f352f52f4d8243c6faed376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:39 +0000
Subject: [PATCH 36/52] fix: keep user and group number zero in generated users

---
 cmd/idmd/gen/newusers/output_ldif.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index ab862ea..49fcd24 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -40,7 +40,7 @@ func outputLDIF(r io.Reader) error {
 			if convErr != nil {
 				return fmt.Errorf("uid must be numeric, line %d", entry.line)
 			}
-			detail["uidNumber"] = n
+			detail["uidNumber"] = strconv.FormatInt(n, 10)
 			if n > autoIncrement {
 				autoIncrement = n
 			}
@@ -50,7 +50,7 @@ func outputLDIF(r io.Reader) error {
 			if convErr != nil {
 				return fmt.Errorf("gid must be numeric, line %d", entry.line)
 			}
-			detail["gidNumber"] = n
+			detail["gidNumber"] = strconv.FormatInt(n, 10)
 			if n > autoIncrement {
 				autoIncrement = n
 			}
-- 
2.43.0


From 7f760c3fa618c9e9483917c82705abc0b262c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:00 +0000
Subject: [PATCH 37/52] fix: report names which cannot be used for generated
 users

---
 cmd/idmd/gen/newusers/newusers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index b35eca8..4b4ab18 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -140,6 +140,7 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 	scanner := bufio.NewScanner(r)
 
 	var results []*entry
+	names := make(map[string]bool)
 	var count uint64
 	for scanner.Scan() {
 		count++
@@ -169,6 +170,13 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 			Dir:    parts[5],
 			Shell:  parts[6],
 		}
+		if e.Name == "" || strings.TrimSpace(e.Name) != e.Name || strings.ContainsAny(e.Name, ",+\"\\<>;") {
+			return nil, fmt.Errorf("unsupported name in line %d", e.line)
+		}
+		if names[strings.ToLower(e.Name)] {
+			return nil, fmt.Errorf("duplicate name in line %d", e.line)
+		}
+		names[strings.ToLower(e.Name)] = true
 		if e.Passwd != "" {
 			score := ldappassword.EstimatePasswordStrength(e.Passwd, nil)
 			if score < DefaultMinPasswordStrength {
-- 
2.43.0


From 177bc5ee52ab7e65a521cbd39bda3539b878fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:03 +0000
Subject: [PATCH 38/52] fix: report template text in the input for generated
 users

---
 cmd/idmd/gen/newusers/newusers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4b4ab18..85d27e6 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -177,6 +177,10 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 			return nil, fmt.Errorf("duplicate name in line %d", e.line)
 		}
 		names[strings.ToLower(e.Name)] = true
+		if strings.Contains(e.Name+":"+e.Gecos, "{{") || (DefaultPasswordScheme != "{ARGON2}" && strings.Contains(e.Passwd, "{{")) {
+			// The generated LDIF is a template itself.
+			return nil, fmt.Errorf("template text in line %d", e.line)
+		}
 		if e.Passwd != "" {
 			score := ldappassword.EstimatePasswordStrength(e.Passwd, nil)
 			if score < DefaultMinPasswordStrength {
-- 
2.43.0


From d5fe757d435283f97981c73670e7ca9d1ad98782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:31 +0000
Subject: [PATCH 39/52] fix: reject argon2 password values with leading text

---
 pkg/ldappassword/ldappassword.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index ba8c41a..455a164 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -44,6 +44,9 @@ func Validate(password string, hash string) (bool, error) {
 	case "{ARGON2}":
 		// Follows the format used by the Argon2 reference C implementation and looks like this:
 		// $argon2id$v=19$m=65536,t=3,p=2$c29tZXNhbHQ$RdescudvJCsgt3ub+b+dWRWJTmaaJObG
+		if !strings.HasPrefix(hash, "$") {
+			return false, fmt.Errorf("argon2 error: invalid hash")
+		}
 		if params, _, _, err := argon2id.DecodeHash(hash); err == nil && (params.Iterations < 1 || params.Parallelism < 1 || params.KeyLength < 4) {
 			return false, fmt.Errorf("argon2 error: invalid parameters")
 		}
-- 
2.43.0


From 1bd21c24cee1b11993b24cf328e84dacaf40450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:03 +0000
Subject: [PATCH 40/52] fix: do not match other binary values in equality
 filters

---
 pkg/ldapserver/filter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 7e1e201..6f2ef01 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -7,6 +7,7 @@ package ldapserver
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -59,7 +60,7 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					if strings.EqualFold(v, value) {
+					if strings.EqualFold(v, value) && casefoldEqualBinary(v, value) {
 						return true, ldap.LDAPResultSuccess
 					}
 				}
@@ -135,6 +136,15 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// casefoldEqualBinary compares values which are not valid UTF-8, for which
+// strings.EqualFold treats all the invalid bytes as equal.
+func casefoldEqualBinary(a, b string) bool {
+	if utf8.ValidString(a) && utf8.ValidString(b) {
+		return true
+	}
+	return casefold.String(a) == casefold.String(b)
+}
+
 // matchSubstrings checks if the provided case folded value contains all the
 // given pieces, in order and without overlap.
 func matchSubstrings(pieces []*ber.Packet, v string) bool {
-- 
2.43.0


From 7e04da4da2f0a56a5dbe2f55c9044340110e88f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:58 +0000
Subject: [PATCH 41/52] fix: refuse requests that are nested too deeply

Decoding a request is recursive and keeps a copy of the data on each level. A few megabytes of nested headers overflowed the stack, which ends the process. Far less was enough to use up the memory. No login was needed.
---
 pkg/ldapserver/nesting.go      | 139 +++++++++++++++++++++++++++++++++
 pkg/ldapserver/pwmodifyexop.go |   4 +
 pkg/ldapserver/server.go       |   7 ++
 3 files changed, 150 insertions(+)
 create mode 100644 pkg/ldapserver/nesting.go

diff --git a/pkg/ldapserver/nesting.go b/pkg/ldapserver/nesting.go
new file mode 100644
index 0000000..d3a0eef
--- /dev/null
+++ b/pkg/ldapserver/nesting.go
@@ -0,0 +1,139 @@
+// Copyright 2021 The LibreGraph Authors.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+package ldapserver
+
+import (
+	"errors"
+	"math"
+	"net"
+)
+
+// maxNesting is how deeply the elements of a request may be nested. Decoding
+// is recursive and keeps a copy of the data on every level, so that without a
+// limit a single small request can exhaust the stack or the memory.
+const maxNesting = 256
+
+var errNesting = errors.New("request is nested too deeply")
+
+// nestingConn is a connection which fails to read too deeply nested requests.
+type nestingConn struct {
+	net.Conn
+	guard nestingGuard
+}
+
+func (c *nestingConn) Read(b []byte) (int, error) {
+	n, err := c.Conn.Read(b)
+	if nErr := c.guard.check(b[:n]); nErr != nil {
+		return 0, nErr
+	}
+	return n, err
+}
+
+// checkNesting reports whether the elements in data are nested too deeply.
+func checkNesting(data []byte) error {
+	return (&nestingGuard{}).check(data)
+}
+
+// nestingGuard follows the BER elements in a stream of bytes.
+type nestingGuard struct {
+	pos    int64   // number of bytes seen
+	ends   []int64 // ends of the open elements, -1 if of indefinite length
+	tag    byte    // first identifier octet of the current element
+	octets int     // length octets to come
+	length int64
+	skip   int64 // content bytes to come
+	state  int   // what the next byte is
+}
+
+const (
+	nestingTag = iota
+	nestingTagMore
+	nestingLength
+	nestingLengthMore
+)
+
+func (g *nestingGuard) check(b []byte) error {
+	for len(b) > 0 {
+		if g.skip > 0 {
+			n := int64(len(b))
+			if n > g.skip {
+				n = g.skip
+			}
+			g.skip -= n
+			g.pos += n
+			b = b[n:]
+			continue
+		}
+
+		c := b[0]
+		b = b[1:]
+		g.pos++
+		switch g.state {
+		case nestingTag:
+			for l := len(g.ends); l > 0 && g.ends[l-1] >= 0 && g.ends[l-1] < g.pos; l-- {
+				g.ends = g.ends[:l-1]
+			}
+			g.tag = c
+			g.state = nestingLength
+			if c&0x1f == 0x1f {
+				g.state = nestingTagMore
+			}
+		case nestingTagMore:
+			if c&0x80 == 0 {
+				g.state = nestingLength
+			}
+		case nestingLength:
+			g.length = int64(c)
+			g.octets = 0
+			if c > 0x80 {
+				g.length = 0
+				g.octets = int(c & 0x7f)
+				g.state = nestingLengthMore
+				continue
+			}
+			if c == 0x80 {
+				g.length = -1
+			}
+			if err := g.open(); err != nil {
+				return err
+			}
+		case nestingLengthMore:
+			g.length = g.length<<8 | int64(c)
+			g.octets--
+			if g.octets == 0 {
+				if err := g.open(); err != nil {
+					return err
+				}
+			}
+		}
+	}
+	return nil
+}
+
+// open is called at the end of the header of an element.
+func (g *nestingGuard) open() error {
+	g.state = nestingTag
+	switch {
+	case g.tag == 0 && g.length == 0:
+		// End of contents.
+		if l := len(g.ends); l > 0 && g.ends[l-1] < 0 {
+			g.ends = g.ends[:l-1]
+		}
+	case g.tag&0x20 == 0:
+		g.skip = g.length
+	default:
+		if len(g.ends) >= maxNesting {
+			return errNesting
+		}
+		end := int64(-1)
+		if g.length >= 0 {
+			if end = g.pos + g.length; end < g.pos {
+				end = math.MaxInt64
+			}
+		}
+		g.ends = append(g.ends, end)
+	}
+	return nil
+}
diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 4c7edf8..401def4 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -97,6 +97,10 @@ func parsePasswordModifyExop(req *ber.Packet) (*ldap.PasswordModifyRequest, erro
 		return &pwReq, nil
 	}
 
+	if err := checkNesting(req.Data.Bytes()); err != nil {
+		return nil, ldap.NewError(ldap.LDAPResultDecodingError, err)
+	}
+
 	inner := ber.DecodePacket(req.Data.Bytes())
 	if inner == nil || inner.ClassType != ber.ClassUniversal || inner.TagType != ber.TypeConstructed || inner.Tag != ber.TagSequence {
 		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index b1a8738..b8cb579 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -213,6 +213,7 @@ listener:
 
 func (server *Server) handleConnection(conn net.Conn) {
 	boundDN := "" // "" == anonymous
+	conn = &nestingConn{Conn: conn}
 
 	defer func() {
 		// Do not let a single bad request take down the whole server.
@@ -257,6 +258,12 @@ handler:
 		controls := []ldap.Control{}
 		if len(packet.Children) > 2 {
 			for _, child := range packet.Children[2].Children {
+				for _, part := range child.Children {
+					if err = checkNesting(part.Data.Bytes()); err != nil {
+						logger.Error(err, "handleConnection decode control")
+						break handler
+					}
+				}
 				c, err := ldap.DecodeControl(child)
 				if err != nil {
 					logger.Error(err, "handleConnection decode control")
-- 
2.43.0


From db0b55dae780c39227ff1e56a20a0a082447555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:11 +0000
Subject: [PATCH 42/52] fix: load LDIF folders whose names contain pattern
 characters

The folder name was used as part of a file name pattern. A folder called data[1] was loaded as empty without an error.
---
 server/handler/ldif/ldif.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 867af9a..4330191 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -46,6 +46,8 @@ func parseLDIFFile(fn string, options *Options) (*ldif.LDIF, error) {
 // parseLDIFDirectory opens all ldif files in the given path in sorted order,
 // cats them all together and parses the result as LDIF.
 func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error) {
+	// The folder name is no pattern.
+	pn = strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[").Replace(pn)
 	matches, err := filepath.Glob(filepath.Join(pn, "*.ldif"))
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From a4e89fbe8d3417710608799c359ad120d7fb10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:29 +0000
Subject: [PATCH 43/52] fix: export entries so that they can be loaded again

The LDIF library writes values with leading spaces so that they are lost when
read, and names with line breaks or attributes called control or changetype so
that the output cannot be read at all. Encode them differently.
---
 cmd/idmd/boltdb/export/export.go | 46 +++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 773da03..1ef8019 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -6,8 +6,10 @@
 package export
 
 import (
+	"encoding/base64"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
 	"github.com/go-ldap/ldif"
@@ -59,7 +61,7 @@ func (l *LDIFExporter) Export() error {
 		return err
 	}
 
-	ld, err := ldif.ToLDIF(entries)
+	ld, err := ldif.ToLDIF(loadable(entries))
 	if err != nil {
 		l.logger.Error(err)
 		return err
@@ -74,3 +76,45 @@ func (l *LDIFExporter) Export() error {
 	fmt.Print(output)
 	return nil
 }
+
+// loadable returns copies of the given entries for which the output of the
+// LDIF library can be read back.
+func loadable(entries []*ldap.Entry) []*ldap.Entry {
+	res := make([]*ldap.Entry, 0, len(entries))
+	for _, entry := range entries {
+		e := &ldap.Entry{DN: escapeControlChars(entry.DN)}
+		for _, attr := range entry.Attributes {
+			name := attr.Name
+			if name == "control" || name == "changetype" {
+				// These names have a special meaning, but only in lower case.
+				name = strings.ToUpper(name)
+			}
+			for _, value := range attr.Values {
+				a := &ldap.EntryAttribute{Name: name, Values: []string{value}}
+				if strings.HasPrefix(value, " ") {
+					// Leading spaces are dropped when read, unless the value is
+					// base64 encoded, which is marked by a second colon.
+					a.Name = name + ":"
+					a.Values = []string{base64.StdEncoding.EncodeToString([]byte(value))}
+				}
+				e.Attributes = append(e.Attributes, a)
+			}
+		}
+		res = append(res, e)
+	}
+	return res
+}
+
+// escapeControlChars hex escapes all control characters of a DN, so that it
+// does not contain line breaks.
+func escapeControlChars(dn string) string {
+	var b strings.Builder
+	for i := 0; i < len(dn); i++ {
+		if c := dn[i]; c < ' ' {
+			fmt.Fprintf(&b, "\\%02x", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
-- 
2.43.0


From 72304f9ea2acd005f435af599a746003d3a1ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 44/52] fix: report an unreadable secret file instead of
 prompting

---
 cmd/idmd/gen/passwd/passwd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 6a93cfc..0557024 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -105,6 +105,9 @@ func passwd(cmd *cobra.Command, args []string) error {
 		}
 		return nil
 	}()
+	if err != nil {
+		return err
+	}
 	if exclusive > 1 {
 		return fmt.Errorf("-s -g and -T are mutually exclusive")
 	} else if exclusive == 0 {
-- 
2.43.0


From 9b3cc0a5ddea2aeff6c45cf107b059c5b68f2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:12 +0000
Subject: [PATCH 45/52] fix: do not let assigned numbers wrap around

---
 cmd/idmd/gen/newusers/output_ldif.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index 49fcd24..00e8fe6 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -8,6 +8,7 @@ package newusers
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -109,6 +110,9 @@ func outputLDIF(r io.Reader) error {
 			detail["cn"] = entry.Name
 		}
 		if entry.UID == "" || entry.GID == "" {
+			if autoIncrement == math.MaxInt64 {
+				return fmt.Errorf("no more numbers available, line %d", entry.line)
+			}
 			autoIncrement++
 			if entry.UID == "" {
 				detail["uidNumber"] = autoIncrement
-- 
2.43.0


From 106075ffe2cac1bf412af1f08652e73d2b7f9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:14 +0000
Subject: [PATCH 46/52] fix: refuse clear-text passwords that are lost in the
 generated LDIF

---
 cmd/idmd/gen/newusers/newusers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 85d27e6..3f1061f 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -181,6 +181,10 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 			// The generated LDIF is a template itself.
 			return nil, fmt.Errorf("template text in line %d", e.line)
 		}
+		if DefaultPasswordScheme != "{ARGON2}" && (strings.HasPrefix(e.Passwd, " ") || strings.HasSuffix(e.Passwd, "\r")) {
+			// These would be dropped when the generated LDIF is read.
+			return nil, fmt.Errorf("unsupported password in line %d", e.line)
+		}
 		if e.Passwd != "" {
 			score := ldappassword.EstimatePasswordStrength(e.Passwd, nil)
 			if score < DefaultMinPasswordStrength {
-- 
2.43.0


From 7ccab5925a3e3ce9d5d40f57b13eec54bc4a9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:26 +0000
Subject: [PATCH 47/52] fix: reading disabled statistics panics

---
 pkg/ldapserver/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index b8cb579..a802d76 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -166,7 +166,11 @@ func (server *Server) SetStats(enable bool) {
 }
 
 func (server *Server) GetStats() Stats {
-	return *server.Stats.Clone()
+	stats := server.Stats.Clone()
+	if stats == nil {
+		return Stats{}
+	}
+	return *stats
 }
 
 func (server *Server) ListenAndServe(listenString string) error {
-- 
2.43.0


From cb299eb8fc970bacd5fa598ba55814d2642ae302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:03 +0000
Subject: [PATCH 48/52] fix: do not let new service users bind while a failing
 reload runs

---
 server/handler/ldif/middleware.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index f085254..70e4ad8 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -57,35 +57,35 @@ func NewLDIFMiddleware(logger logrus.FieldLogger, fn string, options *Options) (
 		baseDN: strings.ToLower(options.BaseDN),
 	}
 
-	err = h.open()
+	value, err := h.open()
 	if err != nil {
 		return nil, err
 	}
+	h.current.Store(value)
 
 	return h, nil
 }
 
-func (h *ldifMiddleware) open() error {
+func (h *ldifMiddleware) open() (*ldifMemoryValue, error) {
 	if !strings.EqualFold(h.options.BaseDN, h.baseDN) {
-		return fmt.Errorf("mismatched BaseDN")
+		return nil, fmt.Errorf("mismatched BaseDN")
 	}
 
 	h.logger.Debugln("loading LDIF")
 	l, err := parseLDIFFile(h.fn, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	t, err := treeFromLDIF(l, nil, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	// Store parsed data as memory value.
 	value := &ldifMemoryValue{
 		t: t,
 	}
-	h.current.Store(value)
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -94,7 +94,7 @@ func (h *ldifMiddleware) open() error {
 		"base_dn":       h.options.BaseDN,
 	}).Debugln("loaded LDIF")
 
-	return nil
+	return value, nil
 }
 
 func (h *ldifMiddleware) load() *ldifMemoryValue {
@@ -120,17 +120,18 @@ func (h *ldifMiddleware) WithContext(ctx context.Context) handler.Handler {
 }
 
 func (h *ldifMiddleware) Reload(ctx context.Context) error {
-	previous := h.load()
-	err := h.open()
+	value, err := h.open()
 	if err != nil {
 		return err
 	}
 
 	err = h.next.Reload(ctx)
 	if err != nil {
-		h.current.Store(previous)
+		return err
 	}
-	return err
+	h.current.Store(value)
+
+	return nil
 }
 
 func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserver.LDAPResultCode, error) {
-- 
2.43.0


From 20d151737338c86b04b5f1f5fe53fe7d0012d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:05 +0000
Subject: [PATCH 49/52] fix: close a connection accepted while the server stops

---
 pkg/ldapserver/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index a802d76..e1264ee 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -197,7 +197,11 @@ func (server *Server) Serve(ln net.Listener) error {
 				break
 			}
 			logger.V(1).Info("New Connection", "addr", ln.Addr())
-			newConn <- conn
+			select {
+			case newConn <- conn:
+			case <-server.Quit:
+				conn.Close()
+			}
 		}
 	}()
 
-- 
2.43.0


From 8ea4b710571b6253a43ab8325ef709c73aa424a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:22 +0000
Subject: [PATCH 50/52] fix: keep accepting connections after a temporary
 accept error

---
 pkg/ldapserver/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index e1264ee..aecb7ae 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -191,6 +192,11 @@ func (server *Server) Serve(ln net.Listener) error {
 		for {
 			conn, err := ln.Accept()
 			if err != nil {
+				if ne, ok := err.(net.Error); ok && ne.Temporary() { // For example too many open files.
+					logger.Error(err, "Error accepting network connection, trying again")
+					time.Sleep(50 * time.Millisecond)
+					continue
+				}
 				if !strings.HasSuffix(err.Error(), "use of closed network connection") {
 					logger.Error(err, "Error accepting network connection")
 				}
-- 
2.43.0


From 802f692c3c2197e7e4a92bad6a4a30207b221fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:24 +0000
Subject: [PATCH 51/52] fix: do not lose a stop signal that follows reload
 signals

---
 server/server.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/server/server.go b/server/server.go
index ecbd250..7f00b5f 100644
--- a/server/server.go
+++ b/server/server.go
@@ -115,6 +115,7 @@ func (s *Server) Serve(ctx context.Context) error {
 	errCh := make(chan error, 2)
 	exitCh := make(chan struct{}, 1)
 	signalCh := make(chan os.Signal, 1)
+	reloadCh := make(chan os.Signal, 1)
 	readyCh := make(chan struct{}, 1)
 	triggerCh := make(chan bool, 1)
 
@@ -201,20 +202,20 @@ func (s *Server) Serve(ctx context.Context) error {
 
 	// Wait for exit or error, with support for HUP to reload
 	err = func() error {
-		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
+		// Reload signals have their own channel, they must not displace others.
+		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM)
+		signal.Notify(reloadCh, syscall.SIGHUP)
 		for {
 			select {
 			case errFromChannel := <-errCh:
 				return errFromChannel
-			case reason := <-signalCh:
-				if reason == syscall.SIGHUP {
-					logger.Infoln("reload signal received")
-					select {
-					case triggerCh <- true:
-					default:
-					}
-					continue
+			case <-reloadCh:
+				logger.Infoln("reload signal received")
+				select {
+				case triggerCh <- true:
+				default:
 				}
+			case reason := <-signalCh:
 				logger.WithField("signal", reason).Warnln("received signal")
 				return nil
 			}
-- 
2.43.0


From 62fd623988757e5cc1b652b27cf93e638827f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:50 +0000
Subject: [PATCH 52/52] fix: handle signals before the server is ready

---
 server/server.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index 7f00b5f..877493b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -128,6 +128,11 @@ func (s *Server) Serve(ctx context.Context) error {
 		logger.WithFields(logrus.Fields{}).Infoln("ready")
 	}()
 
+	// Reload signals have their own channel, they must not displace others.
+	// Signals are handled before anyone can see that the server is ready.
+	signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM)
+	signal.Notify(reloadCh, syscall.SIGHUP)
+
 	var serversWg sync.WaitGroup
 
 	// NOTE(rhafer): since v3.4.3 the ldap package allows to set a custom logger.
@@ -202,9 +207,6 @@ func (s *Server) Serve(ctx context.Context) error {
 
 	// Wait for exit or error, with support for HUP to reload
 	err = func() error {
-		// Reload signals have their own channel, they must not displace others.
-		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM)
-		signal.Notify(reloadCh, syscall.SIGHUP)
 		for {
 			select {
 			case errFromChannel := <-errCh:
-- 
2.43.0

