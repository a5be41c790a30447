From 2b9373cdfcceecde48075d39e7310d2b2377dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:00 +0000
Subject: [PATCH 01/29] fix: restrict anonymous bind of the boltdb handler to
 loopback clients

The local anonymous option is documented to apply to local requests only.
The LDIF handler checks the client address; the boltdb handler did not.
---
 server/handler/boltdb/handler.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 4f192fb..47435cf 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -121,7 +121,7 @@ func (h *boltdbHandler) Bind(bindDN, bindSimplePw string, conn net.Conn) (ldapse
 
 	// Handle anoymous bind
 	if bindDN == "" {
-		if !h.allowLocalAnonymousBind {
+		if !h.anonymousAllowed(conn) {
 			logger.Debugln("ldap anonymous Bind disabled")
 			return ldap.LDAPResultInvalidCredentials, nil
 		} else if bindSimplePw == "" {
@@ -325,6 +325,16 @@ func (h *boltdbHandler) Reload(ctx context.Context) error {
 	return nil
 }
 
+// anonymousAllowed returns true if anonymous access is enabled and the client
+// is connected from a loopback address.
+func (h *boltdbHandler) anonymousAllowed(conn net.Conn) bool {
+	if !h.allowLocalAnonymousBind {
+		return false
+	}
+	host, _, _ := net.SplitHostPort(conn.RemoteAddr().String())
+	return net.ParseIP(host).IsLoopback()
+}
+
 func (h *boltdbHandler) writeAllowed(boundDN string) bool {
 	if h.adminDN != "" && h.adminDN == boundDN {
 		return true
-- 
2.43.0


From 256f6401578e91a938dbb9dd38a91a6dc591ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:00 +0000
Subject: [PATCH 02/29] fix: refuse anonymous searches in the boltdb handler

A client that never bound could read the whole directory, including the
password hashes. Searches without a bound identity now need the local
anonymous option and a loopback client, like in the LDIF handler.
---
 server/handler/boltdb/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 47435cf..8b4cb93 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -294,6 +294,12 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 		"attrs":  req.Attributes,
 	})
 
+	if boundDN == "" && !h.anonymousAllowed(conn) {
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultInsufficientAccessRights,
+		}, errors.New("anonymous search not allowed")
+	}
+
 	logger.Debug("Calling boltdb search")
 	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
 	logger.Debugf("boltdb search returned %d entries", len(entries))
-- 
2.43.0


From 1cf2a9c41b43dbb561c386ebf8a143cb68198c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:13 +0000
Subject: [PATCH 03/29] fix: report storage errors of a boltdb search to the
 client

An entry that could not be read ended the search early, and the entries
found so far were returned as a complete successful result. A search base
that does not exist still gives an empty result.
---
 pkg/ldbbolt/ldbbolt.go           | 2 +-
 server/handler/boltdb/handler.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 2d6f554..0475fc0 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -110,7 +110,7 @@ func (bdb *LdbBolt) Search(base string, scope int) ([]*ldap.Entry, error) {
 		entryID := bdb.getIDByDN(tx, nDN)
 		var entryIDs []uint64
 		if entryID == 0 {
-			return fmt.Errorf("not found")
+			return ErrEntryNotFound
 		}
 		switch scope {
 		case ldap.ScopeBaseObject:
diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 8b4cb93..a8b35e9 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -301,7 +301,13 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 	}
 
 	logger.Debug("Calling boltdb search")
-	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
+	entries, err := h.bdb.Search(req.BaseDN, req.Scope)
+	if err != nil && !errors.Is(err, ldbbolt.ErrEntryNotFound) {
+		logger.WithError(err).Debug("ldap search failed")
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultOperationsError,
+		}, err
+	}
 	logger.Debugf("boltdb search returned %d entries", len(entries))
 
 	return ldapserver.ServerSearchResult{
-- 
2.43.0


From ed99aa416fe093e404c1ea4803d7a5c88594ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:13 +0000
Subject: [PATCH 04/29] fix: release the statistics lock after counting an add

The lock was taken a second time instead of being released, so the first
add request with metrics enabled blocked all connections.
---
 pkg/ldapserver/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index c18e627..2b30685 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -47,7 +47,7 @@ func (stats *Stats) countAdds(delta uint64) {
 	if stats != nil {
 		stats.statsMutex.Lock()
 		stats.Adds += delta
-		stats.statsMutex.Lock()
+		stats.statsMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From a3bfff7cfbf9bfb92a937f8efc4530bd0279de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:41 +0000
Subject: [PATCH 05/29] fix: include the connection maximum in cloned
 statistics

Readers of the statistics always saw zero for the maximum number of
concurrent connections.
---
 pkg/ldapserver/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index 2b30685..2a1dbcd 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -106,6 +106,7 @@ func (stats *Stats) Clone() *Stats {
 		stats.statsMutex.RLock()
 		s2.Conns = stats.Conns
 		s2.ConnsCurrent = stats.ConnsCurrent
+		s2.ConnsMax = stats.ConnsMax
 		s2.Adds = stats.Adds
 		s2.Binds = stats.Binds
 		s2.Deletes = stats.Deletes
-- 
2.43.0


From 44bdc2ce3657dc867185419c99586b7aad8e4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:41 +0000
Subject: [PATCH 06/29] fix: handle extended operation errors that carry only a
 result code

The boltdb handler refuses a password change for another user with such an
error. Reading the missing inner error stopped the whole server.
---
 pkg/ldapserver/extended.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/extended.go b/pkg/ldapserver/extended.go
index 83ad790..751f27c 100644
--- a/pkg/ldapserver/extended.go
+++ b/pkg/ldapserver/extended.go
@@ -33,7 +33,9 @@ func HandleExtendedRequest(req *ber.Packet, boundDN string, server *Server, conn
 		msg := ""
 		if err != nil {
 			if lerr, ok := err.(*ldap.Error); ok {
-				msg = lerr.Err.Error()
+				if lerr.Err != nil {
+					msg = lerr.Err.Error()
+				}
 				resCode = LDAPResultCode(lerr.ResultCode)
 			} else {
 				msg = err.Error()
-- 
2.43.0


From 98ce381db16451d22b8909b1e01e8c2c7367bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:41 +0000
Subject: [PATCH 07/29] fix: answer compare requests with a compare response

The response was tagged as a compare request, which clients cannot match
to their request.
---
 pkg/ldapserver/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0ecab75..624a296 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -313,7 +313,7 @@ handler:
 			}
 
 		case ldap.ApplicationCompareRequest:
-			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareRequest, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
+			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareResponse, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
 			if err = sendPacket(conn, responsePacket); err != nil {
 				logger.Error(err, "sendPacket error")
 			}
-- 
2.43.0


From b3c265a785bbe5726c97734ce26d36dbb598c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:58 +0000
Subject: [PATCH 08/29] fix: return the generated password instead of its hash

A password change without a new password answers with the generated one.
The hash was sent, so the user could never log in with the answer.
---
 pkg/ldapserver/pwmodifyexop.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 8d71965..72bc482 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -25,6 +25,7 @@ func init() {
 
 func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, conn net.Conn) (*ber.Packet, error) {
 	var passwordGenerated bool
+	var generatedPassword string
 	logger.V(1).Info("HandlePasswordModifyExOp")
 	if boundDN == "" {
 		return nil, ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("authentication required"))
@@ -48,6 +49,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 			return nil, ldap.NewError(ldap.LDAPResultOperationsError, errors.New("Failed to generate new Password"))
 		}
 		passwordGenerated = true
+		generatedPassword = pwReq.NewPassword
 	}
 	pwReq.NewPassword, err = ldappassword.Hash(pwReq.NewPassword, "{ARGON2}")
 	if err != nil {
@@ -77,7 +79,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 	var response *ber.Packet
 	if passwordGenerated {
 		response = ber.NewSequence("PasswdModifyResponseValue")
-		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pwReq.NewPassword, "genPasswd"))
+		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, generatedPassword, "genPasswd"))
 	}
 	return response, nil
 }
-- 
2.43.0


From b072a04885b185f997133ca273e0757d572e0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:58 +0000
Subject: [PATCH 09/29] fix: end only the affected connection when a request
 panics

Malformed packets, for example a modify change without an operation or an
entry name without components, made the connection goroutine panic, which
stopped the whole server. The connection is now logged and torn down.
---
 pkg/ldapserver/server.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 624a296..c4b632b 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -8,6 +8,7 @@ package ldapserver
 import (
 	"crypto/tls"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"net"
@@ -213,6 +214,19 @@ listener:
 func (server *Server) handleConnection(conn net.Conn) {
 	boundDN := "" // "" == anonymous
 
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Error(fmt.Errorf("%v", r), "handleConnection panic")
+		}
+
+		for _, c := range server.CloseFns {
+			c.Close(boundDN, conn)
+		}
+
+		conn.Close()
+		server.Stats.countConnsClose(1)
+	}()
+
 handler:
 	for {
 		// Read incoming LDAP packet.
@@ -429,13 +443,6 @@ handler:
 
 		}
 	}
-
-	for _, c := range server.CloseFns {
-		c.Close(boundDN, conn)
-	}
-
-	conn.Close()
-	server.Stats.countConnsClose(1)
 }
 
 func sendPacket(conn net.Conn, packet *ber.Packet) error {
-- 
2.43.0


From 21348f05c67093a7ff17866eff23218fba8fc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 10/29] fix: apply delete changes to the result of the earlier
 changes

A delete in a modify request with several changes started from the stored
values, so the effect of an earlier add, replace or delete of the same
attribute was lost.
---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index d2e83ad..aa2de08 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -65,7 +65,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(old.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
-- 
2.43.0


From 18f0e381b4e8ab4411dd17c0ddf425c0d91f8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 11/29] fix: do not log the attribute values of modify requests

The values include passwords and password hashes. The number of values is
logged instead.
---
 pkg/ldapserver/modify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index f9f4c20..785337b 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -41,7 +41,7 @@ func HandleModifyRequest(req *ber.Packet, boundDN string, server *Server, conn n
 func dumpModRequest(mr *ldap.ModifyRequest) string {
 	str := fmt.Sprintf("dn: %s\n", mr.DN)
 	for _, change := range mr.Changes {
-		str += fmt.Sprintf("op: %d\n attr: %s values: %v\n", change.Operation, change.Modification.Type, change.Modification.Vals)
+		str += fmt.Sprintf("op: %d\n attr: %s values: %d\n", change.Operation, change.Modification.Type, len(change.Modification.Vals))
 	}
 	return str
 }
-- 
2.43.0


From f7b2b4b10305768e18ff40343f390930464e1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 12/29] fix: decide the search scope on parsed names

A name with an escaped comma made a single level search fail, because the
name was split at every comma. A subtree search accepted every entry the
backend offered, and the LDIF handler offers all names that end with the
characters of the search base.
---
 pkg/ldapserver/filter.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 1ec4cc1..53aff14 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -158,20 +158,18 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 	}
 	switch scope {
 	case ldap.ScopeWholeSubtree: // The scope is constrained to the entry named by baseObject and to all its subordinates.
+		if !parsedDn.EqualFold(parsedBaseDn) && !parsedBaseDn.AncestorOfFold(parsedDn) {
+			return false, ldap.LDAPResultSuccess
+		}
 	case ldap.ScopeBaseObject: // The scope is constrained to the entry named by baseObject.
 		if !parsedDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	case ldap.ScopeSingleLevel: // The scope is constrained to the immediate subordinates of the entry named by baseObject.
-		parts := strings.Split(entry.DN, ",")
-		if len(parts) < 2 && !parsedDn.EqualFold(parsedBaseDn) {
+		if len(parsedDn.RDNs) == 0 {
 			return false, ldap.LDAPResultSuccess
 		}
-		subDn := strings.Join(parts[1:], ",")
-		parsedSubDn, err := ldap.ParseDN(subDn)
-		if err != nil {
-			return false, ldap.LDAPResultOperationsError
-		}
+		parsedSubDn := &ldap.DN{RDNs: parsedDn.RDNs[1:]}
 		if !parsedSubDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
-- 
2.43.0


From 5a01242bc9b5cd430fc8de114298a0baccbe2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 13/29] fix: match all components of a substring filter

Only the first component was compared, so a filter like (cn=a*z) returned
every entry whose name starts with "a".
---
 pkg/ldapserver/filter.go | 50 +++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 53aff14..35a7171 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -110,25 +110,14 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 			return false, ldap.LDAPResultOperationsError
 		}
 		attribute := f.Children[0].Value.(string)
-		bytes := f.Children[1].Children[0].Data.Bytes()
-		value := casefold.String(string(bytes))
+		if len(f.Children[1].Children) == 0 {
+			return false, ldap.LDAPResultOperationsError
+		}
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					v = casefold.String(v)
-					switch f.Children[1].Children[0].Tag {
-					case FilterSubstringsInitial:
-						if strings.HasPrefix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsAny:
-						if strings.Contains(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsFinal:
-						if strings.HasSuffix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
+					if matchSubstrings(casefold.String(v), f.Children[1].Children) {
+						return true, ldap.LDAPResultSuccess
 					}
 				}
 			}
@@ -146,6 +135,35 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// matchSubstrings returns true if the case folded value contains all the
+// substring components in order.
+func matchSubstrings(v string, components []*ber.Packet) bool {
+	for _, component := range components {
+		value := casefold.String(string(component.Data.Bytes()))
+		switch component.Tag {
+		case FilterSubstringsInitial:
+			if !strings.HasPrefix(v, value) {
+				return false
+			}
+			v = v[len(value):]
+		case FilterSubstringsAny:
+			pos := strings.Index(v, value)
+			if pos < 0 {
+				return false
+			}
+			v = v[pos+len(value):]
+		case FilterSubstringsFinal:
+			if !strings.HasSuffix(v, value) {
+				return false
+			}
+			v = v[:len(v)-len(value)]
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
 	parsedBaseDn, err := ldap.ParseDN(baseDN)
-- 
2.43.0


From 0d9741f127625e3b81056b78fe1eda2f979d4b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 14/29] fix: answer the request that abandons a paged LDIF
 search

A page size of zero with a cookie ends a paged search. The handler then
waited for entries on a channel that does not exist, so the connection was
stuck for ever.
---
 server/handler/ldif/handler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d93dc27..db787d8 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -294,6 +294,7 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("search paging pump abandon")
 					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+					pagingCookie = []byte{}
 				}
 			}
 		} else {
@@ -313,6 +314,15 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 		}, err
 	}
 
+	if pumpCh == nil {
+		// Abandoned, there are no further entries.
+		return ldapserver.ServerSearchResult{
+			Referrals:  []string{},
+			Controls:   []ldap.Control{&ldap.ControlPaging{Cookie: pagingCookie}},
+			ResultCode: ldap.LDAPResultSuccess,
+		}, nil
+	}
+
 	filterPacket, err := ldapserver.CompileFilter(searchReq.Filter)
 	if err != nil {
 		return ldapserver.ServerSearchResult{
-- 
2.43.0


From b146720cf2b794859991ca3a93e45e4eecce8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 15/29] fix: report read errors of LDIF templates

A line longer than 64 KiB or an I/O error ended the scan silently, and all
following entries of the file were missing.
---
 server/handler/ldif/ldif.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 1a77222..95b17e0 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -106,6 +106,9 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 		}
 		text = append(text, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read LDIF template: %w", err)
+	}
 
 	if m == nil {
 		m = make(map[string]interface{})
-- 
2.43.0


From c40fcfe3eb13d6ef6d8ab0936f7bb251ca3059e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 16/29] fix: use the LDIF index for or filters only if it
 covers all branches

A branch the index cannot answer, like a negation, and object class
branches were left out, so entries matching only that branch were missing
from the result.
---
 server/handler/ldif/filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/filter.go b/server/handler/ldif/filter.go
index cf32e50..a338400 100644
--- a/server/handler/ldif/filter.go
+++ b/server/handler/ldif/filter.go
@@ -41,7 +41,7 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 			}
 		}
 		for _, f := range matches {
-			if !withObjectClass && strings.EqualFold("objectClass", f[1]) {
+			if !withObjectClass && strings.EqualFold("objectClass", f[1]) && !strings.Contains(f[0], "|") {
 				continue
 			}
 			result = append(result, f[1:])
@@ -97,10 +97,14 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 
 	case ldapserver.FilterOr:
 		for idx, child := range f.Children {
+			count := len(parent)
 			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.|%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if len(parent) == count {
+				return nil, errors.New("unsupported child in or filter")
+			}
 		}
 
 	case ldapserver.FilterNot:
-- 
2.43.0


From 96288960b0535d5a380122a41c6250bf3ccfb7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:44 +0000
Subject: [PATCH 17/29] fix: ignore letter case in the LDIF substring index

Filters compare without letter case, but the prefix and suffix indexes
were case sensitive, so matching entries were missing from the result.
---
 server/handler/ldif/index.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 42c20fc..24e3e57 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -12,6 +12,7 @@ import (
 	"github.com/armon/go-radix"
 	"github.com/libregraph/idm/pkg/ldapserver"
 	"github.com/spacewander/go-suffix-tree"
+	"golang.org/x/text/cases"
 )
 
 var indexAttributes = map[string]string{
@@ -47,6 +48,12 @@ func RemoveIndexAttribute(name string) {
 	delete(indexAttributes, name)
 }
 
+// indexFold returns the form of a value used as index key. Filters ignore letter
+// case, so values which differ only in case must have the same key.
+func indexFold(value string) string {
+	return cases.Fold().String(value)
+}
+
 type Index interface {
 	Add(name, op string, values []string, entry *ldifEntry) bool
 	Load(name, op string, params ...string) ([]*ldifEntry, bool)
@@ -60,14 +67,14 @@ func newIndexMap() indexMap {
 
 func (im indexMap) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		value = strings.ToLower(value)
+		value = indexFold(value)
 		im[value] = append(im[value], entry)
 	}
 	return true
 }
 
 func (im indexMap) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
-	entries := im[strings.ToLower(value[0])]
+	entries := im[indexFold(value[0])]
 	return entries, true
 }
 
@@ -83,7 +90,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 
 func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		sfx := []byte(value)
+		sfx := []byte(indexFold(value))
 		var entries []*ldifEntry
 		if v, ok := ist.t.Get(sfx); ok {
 			entries = v.([]*ldifEntry)
@@ -96,7 +103,7 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	sfx := []byte(value[0])
+	sfx := []byte(indexFold(value[0]))
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
@@ -116,7 +123,7 @@ func newIndexRadixTree() *indexRadixTree {
 
 func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		pfx := value
+		pfx := indexFold(value)
 		var entries []*ldifEntry
 		if v, ok := irt.t.Get(pfx); ok {
 			entries = v.([]*ldifEntry)
@@ -129,7 +136,7 @@ func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (irt *indexRadixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	pfx := value[0]
+	pfx := indexFold(value[0])
 	irt.t.WalkPrefix(pfx, func(key string, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
-- 
2.43.0


From 94408c4389c2eae85971682db415427e6e1c8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:19 +0000
Subject: [PATCH 18/29] fix: reject user lines with five or six fields

All seven fields are used, so such a line ended gen newusers with a panic
instead of the error that names the line.
---
 cmd/idmd/gen/newusers/newusers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4c0f135..08c3d8d 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -154,7 +154,7 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 
 		// pw_name:pw_passwd:pw_uid:pw_gid:pw_gecos:pw_dir:pw_shell
 		parts := strings.Split(line, ":")
-		if len(parts) < 5 {
+		if len(parts) < 7 {
 			return nil, fmt.Errorf("not enough fields in line %d", count)
 		}
 		e := &entry{
-- 
2.43.0


From 26f24c62ab4bf4e9e4b5f502cde0593355dc2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:19 +0000
Subject: [PATCH 19/29] fix: report read errors in gen newusers

A line longer than 64 KiB or an I/O error ended the input silently, and the
output lacked the remaining users.
---
 cmd/idmd/gen/newusers/newusers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 08c3d8d..b383454 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -179,6 +179,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 		results = append(results, e)
 
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read line %d: %w", count+1, err)
+	}
 
 	return results, nil
 }
-- 
2.43.0


From ef4b53114878ebbe3f56a540703116cb7d3379d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:19 +0000
Subject: [PATCH 20/29] fix: report a secret file that cannot be read

The error was dropped, and with it the reason why there is no secret.
---
 cmd/idmd/gen/passwd/passwd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 1499a63..cd4204b 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -105,6 +105,9 @@ func passwd(cmd *cobra.Command, args []string) error {
 		}
 		return nil
 	}()
+	if err != nil {
+		return err
+	}
 	if exclusive > 1 {
 		return fmt.Errorf("-s -g and -T are mutually exclusive")
 	} else if exclusive == 0 {
-- 
2.43.0


From 7671fe54cb553a7ed64bb9c7d30eb21238d8b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:19 +0000
Subject: [PATCH 21/29] fix: print the generated password value unchanged

The value was used as format string, so a cleartext secret with a percent
sign came out altered.
---
 cmd/idmd/gen/passwd/passwd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index cd4204b..0557024 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -144,7 +144,7 @@ func passwd(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	fmt.Fprintf(os.Stdout, hash)
+	fmt.Fprint(os.Stdout, hash)
 	if !OmitTrailingNewline {
 		fmt.Fprintf(os.Stdout, "\n")
 	}
-- 
2.43.0


From ec565a3c92362fdd97f6168d6b79701006479193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:43 +0000
Subject: [PATCH 22/29] fix: refuse modify changes with missing or surplus
 elements

---
 pkg/ldapserver/modify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index 785337b..aa8343f 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -82,6 +82,10 @@ func parseModList(req *ber.Packet) ([]ldap.Change, error) {
 
 	for _, c := range req.Children {
 		var change ldap.Change
+		// A change has 2 Elements (operation and modification)
+		if len(c.Children) != 2 {
+			return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding change"))
+		}
 		switch c.Children[0].Data.Bytes()[0] {
 		default:
 			return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid change operation"))
-- 
2.43.0


From 7cc2ca25e64061b1373f50d889ec34260f48f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:53 +0000
Subject: [PATCH 23/29] fix: report failed writes of command output

The export, passwd and newusers commands ignored errors when writing to
standard output. With a full disk or a closed pipe the output was cut
off and the command still ended with status 0.
---
 cmd/idmd/boltdb/export/export.go     | 5 ++++-
 cmd/idmd/gen/newusers/output_ldif.go | 8 ++++++--
 cmd/idmd/gen/passwd/passwd.go        | 6 ++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 773da03..aff4a71 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -71,6 +71,9 @@ func (l *LDIFExporter) Export() error {
 		return err
 	}
 
-	fmt.Print(output)
+	if _, err = fmt.Print(output); err != nil {
+		l.logger.Error(err)
+		return err
+	}
 	return nil
 }
diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index ab862ea..8550378 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -118,11 +118,15 @@ func outputLDIF(r io.Reader) error {
 			}
 		}
 
-		fmt.Fprintf(out, "# %d: %s\n", entry.line, strings.TrimSpace(entry.Name))
+		if _, err = fmt.Fprintf(out, "# %d: %s\n", entry.line, strings.TrimSpace(entry.Name)); err != nil {
+			return fmt.Errorf("failed to write output: %w", err)
+		}
 		if err = tpl.Execute(out, m); err != nil {
 			return fmt.Errorf("# failed to generate: %w", err)
 		}
-		fmt.Fprintf(out, "\n")
+		if _, err = fmt.Fprintf(out, "\n"); err != nil {
+			return fmt.Errorf("failed to write output: %w", err)
+		}
 	}
 
 	return nil
diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 0557024..fb94ae9 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -144,9 +144,11 @@ func passwd(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	fmt.Fprint(os.Stdout, hash)
 	if !OmitTrailingNewline {
-		fmt.Fprintf(os.Stdout, "\n")
+		hash += "\n"
+	}
+	if _, err = fmt.Fprint(os.Stdout, hash); err != nil {
+		return fmt.Errorf("failed to write output: %w", err)
 	}
 	return nil
 }
-- 
2.43.0


From 2d99a612a17b46e84da66575b666c01665f41308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:53 +0000
Subject: [PATCH 24/29] fix: refuse to open the database with an invalid base
 DN

An unparsable base DN was silently replaced by an empty one, so the
load command stored entries outside of the intended tree.
---
 pkg/ldbbolt/ldbbolt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 0475fc0..40ba590 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -54,6 +54,11 @@ var (
 func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string, options *bolt.Options) error {
 	bdb.logger = logger
 	logger = logger.WithField("db", dbfile)
+	base, err := ldapdn.ParseNormalize(baseDN)
+	if err != nil {
+		logger.WithError(err).Error("Error parsing base DN")
+		return err
+	}
 	logger.Debug("Open boltdb")
 	db, err := bolt.Open(dbfile, 0o600, options)
 	if err != nil {
@@ -62,7 +67,7 @@ func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string,
 	}
 	bdb.db = db
 	bdb.options = options
-	bdb.base, _ = ldapdn.ParseNormalize(baseDN)
+	bdb.base = base
 	return nil
 }
 
-- 
2.43.0


From 084b193db75da46eea0872796ecb541b511fcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:36 +0000
Subject: [PATCH 25/29] fix: encode the last bytes of files embedded by LDIF
 templates

The base64 encoder was not closed, so the last one or two bytes of a file were lost when its size was not a multiple of three.
---
 server/handler/ldif/template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/template.go b/server/handler/ldif/template.go
index 846ffb1..0aba161 100644
--- a/server/handler/ldif/template.go
+++ b/server/handler/ldif/template.go
@@ -112,6 +112,9 @@ func TemplateFuncs(m map[string]interface{}, options *Options) template.FuncMap
 			if n > formatAsFileSizeLimit {
 				return "", fmt.Errorf("LDIF template formatAsFile size limit exceeded: %s", fn)
 			}
+			if err = encoder.Close(); err != nil {
+				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
+			}
 
 			return buf.String(), nil
 		},
-- 
2.43.0


From aba1ec625d77f328f6e8fccb565a373a08ce4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:23 +0000
Subject: [PATCH 26/29] fix: refuse searches with an unknown scope

A search request whose scope is none of the three defined ones was
answered with every matching entry, no matter where it is in the tree.
Answer it with a protocol error instead.
---
 pkg/ldapserver/filter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 35a7171..c92fc2b 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -191,6 +191,8 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 		if !parsedSubDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
+	default:
+		return false, ldap.LDAPResultProtocolError
 	}
 
 	return true, ldap.LDAPResultSuccess
-- 
2.43.0


From 0805d0ba566d2a99165fd5c5a1108040850e319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:58 +0000
Subject: [PATCH 27/29] fix: send each attribute of a search entry once

An attribute that was requested more than once, by its name in different
spellings or by its name and a star, appeared several times in the entry.
---
 pkg/ldapserver/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 992707d..ab9224a 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -164,6 +164,7 @@ func filterAttributes(entry *ldap.Entry, attributes []string) (*ldap.Entry, erro
 		for _, requested := range attributes {
 			if requested == "*" || strings.EqualFold(attr.Name, requested) {
 				newAttributes = append(newAttributes, attr)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 93e025e134cc300aead72965d1f4f7fe10b4d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:31 +0000
Subject: [PATCH 28/29] fix: keep all values of an attribute listed twice in an
 add request

Each further mention of an attribute replaced the values listed before it,
so an add reported success although values were lost.
---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index aa2de08..14bdc2a 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -138,7 +138,7 @@ func EntryFromAddRequest(add *ldap.AddRequest) *ldap.Entry {
 	attrs := map[string][]string{}
 
 	for _, a := range add.Attributes {
-		attrs[a.Type] = a.Vals
+		attrs[a.Type] = append(attrs[a.Type], a.Vals...)
 	}
 	return ldap.NewEntry(add.DN, attrs)
 }
-- 
2.43.0


From 6a3c47285fec83256dc24be273955a3f22e7d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:28:07 +0000
Subject: [PATCH 29/29] fix: escape special characters in the attribute types
 of normalised names

---
 pkg/ldapdn/ldapdn.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapdn/ldapdn.go b/pkg/ldapdn/ldapdn.go
index 6cff7cc..4ca06d2 100644
--- a/pkg/ldapdn/ldapdn.go
+++ b/pkg/ldapdn/ldapdn.go
@@ -3,6 +3,7 @@ package ldapdn
 import (
 	"bytes"
 	"encoding/hex"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
 	"golang.org/x/text/cases"
@@ -25,12 +26,19 @@ func Normalize(dn *ldap.DN) string {
 			} else if r > 0 {
 				nDN += ","
 			}
-			nDN = nDN + caseFold.String(ava.Type) + "=" + encodeRDNValue(caseFold.String(ava.Value))
+			nDN = nDN + encodeRDNType(caseFold.String(ava.Type)) + "=" + encodeRDNValue(caseFold.String(ava.Value))
 		}
 	}
 	return nDN
 }
 
+// encodeRDNType escapes the supplied string (the attribute type of an RDN) the
+// same way as a value. In addition it escapes the equals sign, which would
+// otherwise end the attribute type.
+func encodeRDNType(rDNType string) string {
+	return strings.ReplaceAll(encodeRDNValue(rDNType), "=", "\\=")
+}
+
 // encodeRDNValue applies the DN escaping rules (RFC4514) to the supplied
 // string (the value part of an RDN). Returns the escaped string.
 // Note: This function is taken from https://github.com/go-ldap/ldap/pull/104
-- 
2.43.0

