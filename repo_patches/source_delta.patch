From 7d2cf70aee524080c149ca13f35d959f5071a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 01/48] fix: do not strip leading characters of local paths
 when looking for the source list

---
 resync/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..b2c0313 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -181,7 +181,6 @@ class Client(object):
         errors = []
         for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
                     urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
@@ -191,7 +190,6 @@ class Client(object):
         for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
                     urljoin(self.sitemap, 'sitemap.xml'),
                     urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From ec7165b24064cff6b24ef47184b5cf5d3baa0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 02/48] fix: create missing local directories even if an
 earlier sync in the same process made them

---
 resync/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index b2c0313..0a435e8 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -5,9 +5,9 @@ try:  # python3
     from urllib.parse import urlsplit, urlunsplit, urljoin
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
+import os
 import os.path
 import datetime
-import distutils.dir_util
 import re
 import time
 import logging
@@ -493,7 +493,8 @@ class Client(object):
         Returns the number of resources updated/created (0 or 1)
         """
         path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
+        if (path):
+            os.makedirs(path, exist_ok=True)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
-- 
2.43.0


From 5d9df0acc4f998ba44a86513746e937fc60f0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 03/48] fix: dry run must not create directories or change the
 stored sync state

---
 resync/client.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 0a435e8..33dd7da 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -314,7 +314,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -467,7 +467,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -492,15 +492,15 @@ class Client(object):
 
         Returns the number of resources updated/created (0 or 1)
         """
-        path = os.path.dirname(filename)
-        if (path):
-            os.makedirs(path, exist_ok=True)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
+            path = os.path.dirname(filename)
+            if (path):
+                os.makedirs(path, exist_ok=True)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From abb9ecc43072744d6932a96738532a85f30bf0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 04/48] fix: check authority of an explicitly given change
 list, and honour strict mode in incremental sync

---
 resync/client.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 33dd7da..1008880 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -396,13 +396,13 @@ class Client(object):
         if (not self.noauth):
             uauth_cs = UrlAuthority(change_list, self.strictauth)
             if (not change_list_uri):
-                uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+                uauth_sm = UrlAuthority(self.sitemap, self.strictauth)
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From f8b77d9d59dce0de8dae1a3e837593c0615eb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 05/48] fix: compare paths at component boundaries in strict
 authority mode

---
 resync/url_authority.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..38a423e 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -68,6 +68,6 @@ class UrlAuthority(object):
             # b.example.org
         path = os.path.dirname(s.path)
         if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
+                and not path.startswith(self.master_path.rstrip('/') + '/')):
             return(False)
         return(True)
-- 
2.43.0


From 48e01c4f580005359e7219168b7a71e9cd8b6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 06/48] fix: ignore only digest types the source does not
 supply, for change lists as well

---
 resync/client.py               |  4 ++--
 resync/list_base_with_index.py | 13 +++++++++++++
 resync/resource_list.py        | 13 -------------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 1008880..368f08c 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -790,8 +790,8 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in list(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
         self.logger.info("Not calculating %s hash(es) on destination as not present "
diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..980e780 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -407,6 +407,19 @@ class ListBaseWithIndex(ListBase):
             sitemap_prefix = basename[:-4]
         return(sitemap_prefix + ("%05d" % (part_number)) + sitemap_suffix)
 
+    def hashes(self):
+        """Return set of hashes uses in this list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
+
     def is_file_uri(self, uri):
         """Return true if uri looks like a local file URI, false otherwise.
 
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..3ecb0ac 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -211,16 +211,3 @@ class ResourceList(ListBaseWithIndex):
             src_cur = next(src_iter, None)
         # have now gone through both lists
         return(same, updated, deleted, created)
-
-    def hashes(self):
-        """Return set of hashes uses in this resource_list."""
-        hashes = set()
-        if (self.resources is not None):
-            for resource in self:
-                if (resource.md5 is not None):
-                    hashes.add('md5')
-                if (resource.sha1 is not None):
-                    hashes.add('sha-1')
-                if (resource.sha256 is not None):
-                    hashes.add('sha-256')
-        return(hashes)
-- 
2.43.0


From ba46b7df0093159e6f57407a1388ebae2d4d0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 07/48] fix: incremental sync deletes a resource whose creation
 it had already applied

---
 resync/client.py             | 5 ++++-
 resync/resource_container.py | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 368f08c..fb4877b 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -410,7 +410,10 @@ class Client(object):
             self.logger.info(
                 "Skipped %d changes before %s" %
                 (num_skipped, datetime_to_str(from_timestamp)))
-        num_dupes = src_change_list.prune_dupes()
+        # (a resource created and then deleted may have been created here by an
+        # earlier sync, then there is a local copy that must still be deleted)
+        num_dupes = src_change_list.prune_dupes(
+            keep_deleted=lambda r: os.path.exists(self.mapper.src_to_dst(r.uri)))
         if (num_dupes > 0):
             self.logger.info("Removed %d prior changes" % (num_dupes))
         # Review and log status before
diff --git a/resync/resource_container.py b/resync/resource_container.py
index 0aec561..e286f20 100644
--- a/resync/resource_container.py
+++ b/resync/resource_container.py
@@ -208,12 +208,13 @@ class ResourceContainer(object):
             uris.append(r.uri)
         return(uris)
 
-    def prune_dupes(self):
+    def prune_dupes(self, keep_deleted=None):
         """Remove all but the last entry for a given resource URI.
 
         Returns the number of entries removed. Also removes all entries for a
         given URI where the first entry is a create and the last entry is a
-        delete.
+        delete, except where the function keep_deleted is given and is true
+        for that delete entry.
         """
         n = 0
         pruned1 = []
@@ -232,7 +233,8 @@ class ResourceContainer(object):
         # go through all deletes and prune if first was create
         pruned2 = []
         for r in reversed(pruned1):
-            if (r.uri in deletes and deletes[r.uri] == 'created'):
+            if (r.uri in deletes and deletes[r.uri] == 'created'
+                    and not (keep_deleted is not None and keep_deleted(r))):
                 n += 1
             else:
                 pruned2.append(r)
-- 
2.43.0


From f5f42fb2239a66ba6e6f6121eaf9d2a56c79c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 08/48] fix: final status of an incremental sync said NO
 CHANGES and counted failed downloads

---
 resync/client.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index fb4877b..27b2d6b 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -455,20 +455,18 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
             else:
                 raise ClientError("Unknown change type %s" % (resource.change))
         # 7. Report status and planned actions
-        self.log_status(incremental=True, created=num_created, updated=num_updated,
-                        deleted=num_deleted, to_delete=to_delete)
+        self.log_status(in_sync=in_sync, incremental=True, created=num_created,
+                        updated=num_updated, deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
         if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From ba1c24c66c4e2a0225bf7a88ba8c07221ceac05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 09/48] fix: incremental sync reported the changes it only
 planned as applied

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 27b2d6b..27514b5 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -435,7 +435,7 @@ class Client(object):
         # either there are no changes or if there are only deletions and
         # we don't allow deletion
         in_sync = ((to_update + to_delete + to_create) == 0)
-        self.log_status(in_sync=in_sync, incremental=True, created=to_create,
+        self.log_status(in_sync=in_sync, incremental=True, audit=True, created=to_create,
                         updated=to_update, deleted=to_delete)
         if (in_sync or ((to_update + to_create) == 0 and not allow_deletion)):
             self.logger.debug("Completed incremental")
-- 
2.43.0


From 66657cabe7395fe4971ef2541279f2f8e11d4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 10/48] fix: overlap of local source and destination compared
 as text instead of as directories

---
 resync/mapper.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..f83290b 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -5,8 +5,10 @@ import os.path
 import re
 try:  # python3
     from urllib.parse import urlparse
+    from urllib.request import url2pathname
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlparse  # pragma: no cover
+    from urllib import url2pathname  # pragma: no cover
 import logging
 
 
@@ -210,11 +212,16 @@ class Map:
         destination are the same, or if one is a component of the other path.
         """
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
-        if (scheme != ''):
+        if (scheme == ''):
+            src_path = self.src_uri
+        elif (scheme == 'file'):
+            src_path = url2pathname(path)
+        else:
             return(False)
-        s = os.path.normpath(self.src_uri)
-        d = os.path.normpath(self.dst_path)
-        lcp = os.path.commonprefix([s, d])
+        # (root is left empty when trailing slashes are stripped)
+        s = os.path.realpath(src_path or '/')
+        d = os.path.realpath(self.dst_path or '/')
+        lcp = os.path.commonpath([s, d])
         return(s == lcp or d == lcp)
 
     def __repr__(self):
-- 
2.43.0


From 5aa38638f329ec8d9c71eaf108bda13381f71951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 11/48] fix: mappings were used as regular expressions and only
 one trailing slash was stripped

---
 resync/mapper.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index f83290b..762379c 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -164,10 +164,19 @@ class Map:
 
     def strip_trailing_slashes(self, path):
         """Return input path minus any trailing slashes."""
-        m = re.match(r"(.*)/+$", path)
-        if (m is None):
-            return(path)
-        return(m.group(1))
+        return(path.rstrip('/'))
+
+    def relative_path(self, base, name):
+        """Part of name after base, starting with a slash, else None.
+
+        The comparison is literal. If name is just base without a trailing
+        slash then a slash is returned.
+        """
+        if (name == base):
+            return('/')
+        if (name.startswith(base + '/')):
+            return(name[len(base):])
+        return(None)
 
     def dst_to_src(self, dst_file):
         """Return the src URI from the dst filepath.
@@ -180,12 +189,9 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
-        if (m is None):
+        rel_path = self.relative_path(self.dst_path, dst_file)
+        if (rel_path is None):
             return(None)
-        rel_path = m.group(1)
-        if rel_path is None:
-            rel_path = '/'
         return self.src_uri + rel_path
 
     def src_to_dst(self, src_uri):
@@ -197,12 +203,9 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
-        if (m is None):
+        rel_path = self.relative_path(self.src_uri, src_uri)
+        if (rel_path is None):
             return(None)
-        rel_path = m.group(1)
-        if rel_path is None:
-            rel_path = '/'
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From 8c4d13ceceadbfce78265acfd73755263302774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 12/48] fix: dot segments in a source URI could lead out of the
 destination directory

---
 resync/mapper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 762379c..cd42f87 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -197,7 +197,8 @@ class Map:
     def src_to_dst(self, src_uri):
         """Return the dst filepath from the src URI.
 
-        Returns None on failure, local destination path on success.
+        Returns None on failure, local destination path on success. Raises
+        a MapperError if dot segments in the URI would lead out of dst_path.
 
         Relies upon self.dst_path and self.src_path not including trailing
         slashes. However, a match of just self.src_path withouth a trailing
@@ -206,6 +207,10 @@ class Map:
         rel_path = self.relative_path(self.src_uri, src_uri)
         if (rel_path is None):
             return(None)
+        if (os.path.normpath('.' + rel_path).split('/')[0] == '..'):
+            raise MapperError(
+                "Source URI (%s) leads out of the destination path (%s)" %
+                (src_uri, self.dst_path))
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From 0a9f7b3433a6b089700895469e6acfb218473b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 13/48] fix: baseline sync stored the local time of a deleted
 file as source timestamp

---
 resync/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 27514b5..dd6fd50 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -308,11 +308,14 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             self.logger.info("updated: %s -> %s" % (uri, filename))
             num_updated += self.update_resource(resource, filename, 'updated')
+        # (the times of files to delete are local times and not times from the source)
+        last_timestamp = self.last_timestamp
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
+        self.last_timestamp = last_timestamp
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From 000a601683f01e69f35e3142d4edbdfc9bc46b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 14/48] fix: remembered time skipped changes whose download
 failed when ignoring failures

---
 resync/client.py | 61 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index dd6fd50..a374ba3 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -61,6 +61,7 @@ class Client(object):
         self.strictauth = False
         self.max_sitemap_entries = None
         self.ignore_failures = False
+        self.failed_timestamps = []
         self.pretty_xml = True
         self.fake_input = None
         self.tries = 20
@@ -295,6 +296,7 @@ class Client(object):
             "Will GET %d resources%s" %
             (len(created) + len(updated), delete_msg))
         self.last_timestamp = 0
+        self.failed_timestamps = []
         num_created = 0
         num_updated = 0
         num_deleted = 0
@@ -317,12 +319,8 @@ class Client(object):
                                                 filename, allow_deletion)
         self.last_timestamp = last_timestamp
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
-            ClientState().set_state(self.sitemap, self.last_timestamp)
-            self.logger.info(
-                "Written last timestamp %s for incremental sync" %
-                (datetime_to_str(
-                    self.last_timestamp)))
+        if (not audit_only):
+            self.store_last_timestamp()
         # 7. Done
         self.log_status(in_sync=(len(updated) + len(deleted) + len(created) == 0),
                         same=len(same), created=num_created,
@@ -384,6 +382,7 @@ class Client(object):
             self.prune_hashes(src_change_list.hashes(), 'change')
         # Check all changes have timestamp and record last
         self.last_timestamp = 0
+        self.failed_timestamps = []
         for resource in src_change_list:
             if resource.timestamp is None and resource.ts_datetime is None:
                 raise ClientFatalError(
@@ -471,15 +470,29 @@ class Client(object):
         self.log_status(in_sync=in_sync, incremental=True, created=num_created,
                         updated=num_updated, deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (not self.dryrun and self.last_timestamp > 0):
-            ClientState().set_state(self.sitemap, self.last_timestamp)
-            self.logger.info(
-                "Written last timestamp %s for incremental sync" %
-                (datetime_to_str(
-                    self.last_timestamp)))
+        self.store_last_timestamp()
         # 9. Done
         self.logger.debug("Completed incremental sync")
 
+    def store_last_timestamp(self):
+        """Store last timestamp seen to allow incremental sync later.
+
+        If there were failures that were ignored then store no time later than
+        the first change missed, so that an incremental sync will try it again.
+        """
+        timestamp = self.last_timestamp
+        if (len(self.failed_timestamps) > 0):
+            if (None in self.failed_timestamps):
+                return
+            failed_timestamp = min(self.failed_timestamps)
+            if (timestamp == 0 or failed_timestamp < timestamp):
+                timestamp = failed_timestamp
+        if (not self.dryrun and timestamp > 0):
+            ClientState().set_state(self.sitemap, timestamp)
+            self.logger.info(
+                "Written last timestamp %s for incremental sync" %
+                (datetime_to_str(timestamp)))
+
     def update_resource(self, resource, filename, change=None):
         """Update resource from uri to filename on local system.
 
@@ -521,18 +534,10 @@ class Client(object):
                     else:
                         # No more tries left, so fail
                         msg = "Failed to GET %s after %s tries -- %s" % (resource.uri, self.tries, str(e))
-                        if (self.ignore_failures):
-                            self.logger.warning(msg)
-                            return(num_updated)
-                        else:
-                            raise ClientFatalError(msg)
+                        return self.update_failed(resource, msg)
                 except IOError as e:
                     msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
-                    if (self.ignore_failures):
-                        self.logger.warning(msg)
-                        return(num_updated)
-                    else:
-                        raise ClientFatalError(msg)
+                    return self.update_failed(resource, msg)
             # 2. set timestamp if we have one
             if (resource.timestamp is not None):
                 unixtime = int(resource.timestamp)  # no fractional
@@ -550,6 +555,18 @@ class Client(object):
                 self.check_hashes(filename, resource)
         return(num_updated)
 
+    def update_failed(self, resource, msg):
+        """Handle failure to update resource, error unless failures are ignored.
+
+        Returns the number of resources updated, always zero.
+        """
+        if (not self.ignore_failures):
+            raise ClientFatalError(msg)
+        self.logger.warning(msg)
+        self.failed_timestamps.append(
+            resource.ts_datetime if (resource.ts_datetime is not None) else resource.timestamp)
+        return(0)
+
     def check_hashes(self, filename, resource):
         """Check all hashes present in self.hashes _and_ resource object.
 
-- 
2.43.0


From a11bced79b9947e9259873d0efe46d8015d68fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 15/48] fix: connection timeouts were not retried, and
 incomplete reads not handled, in downloads

---
 resync/client.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index a374ba3..6d6abe4 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -3,7 +3,9 @@
 import sys
 try:  # python3
     from urllib.parse import urlsplit, urlunsplit, urljoin
+    from http.client import HTTPException
 except ImportError:  # pragma: no cover  python2
+    from httplib import HTTPException  # pragma: no cover
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
 import os
 import os.path
@@ -526,18 +528,21 @@ class Client(object):
                             shutil.copyfileobj(fh_in, fh_out)
                     num_updated += 1
                     break
-                except socket.timeout as e:
-                    if try_i < self.tries:
+                except (IOError, HTTPException) as e:
+                    # (a timeout when connecting is wrapped in a URLError)
+                    timed_out = (isinstance(e, socket.timeout)
+                                 or isinstance(getattr(e, 'reason', None), socket.timeout))
+                    if timed_out and try_i < self.tries:
                         msg = 'Download timed out, retrying...'
                         self.logger.info(msg)
                         # Continue loop
-                    else:
+                    elif timed_out:
                         # No more tries left, so fail
                         msg = "Failed to GET %s after %s tries -- %s" % (resource.uri, self.tries, str(e))
                         return self.update_failed(resource, msg)
-                except IOError as e:
-                    msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
-                    return self.update_failed(resource, msg)
+                    else:
+                        msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
+                        return self.update_failed(resource, msg)
             # 2. set timestamp if we have one
             if (resource.timestamp is not None):
                 unixtime = int(resource.timestamp)  # no fractional
-- 
2.43.0


From e2478540d48a1868c8053a58fe25f07f560aad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 16/48] fix: interrupted or concurrent writing of the client
 state file lost or corrupted stored timestamps

---
 resync/client_state.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index ce30374..5f1fc59 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -6,10 +6,12 @@ of the last change seen.
 """
 
 import sys
+import os
 import os.path
 import datetime
 import distutils.dir_util
 import re
+import tempfile
 import time
 import logging
 try:  # python3
@@ -44,9 +46,18 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w') as configfile:
-            parser.write(configfile)
-            configfile.close()
+        # Write complete new file before replacing the old one, so that there
+        # is a complete file at any time
+        (fd, tmpfile) = tempfile.mkstemp(
+            prefix=os.path.basename(self.status_file) + '.',
+            dir=os.path.dirname(self.status_file) or '.')
+        try:
+            with os.fdopen(fd, 'w') as configfile:
+                parser.write(configfile)
+            os.replace(tmpfile, self.status_file)
+        except BaseException:
+            os.unlink(tmpfile)
+            raise
 
     def get_state(self, site):
         """Read client status file and return dict."""
-- 
2.43.0


From 9d51e4ab6f95bc1758994a30b803c509ad79e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 17/48] fix: reading an index back failed for change lists,
 archives and other lists of plain storage

---
 resync/list_base_with_index.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 980e780..ebad1ba 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -16,6 +16,7 @@ from .hashes import Hashes
 from .list_base import ListBase
 from .mapper import Mapper, MapperError
 from .resource import Resource
+from .resource_container import ResourceContainer
 from .sitemap import Sitemap
 from .url_authority import UrlAuthority
 from .url_or_file_open import url_or_file_open
@@ -107,7 +108,11 @@ class ListBaseWithIndex(ListBase):
             pass
         self.logger.info("Read sitemap/sitemapindex from %s" % (uri))
         s = self.new_sitemap()
-        s.parse_xml(fh=fh, resources=self, capability=self.capability_name)
+        # Parse into simple container first because the entries of a sitemapindex
+        # are not (necessarily) suitable as entries of this list
+        doc = s.parse_xml(fh=fh, resources=ResourceContainer(md=self.md, ln=self.ln),
+                          capability=self.capability_name)
+        self.md = doc.md
         # what did we read? sitemap or sitemapindex?
         if (s.parsed_index):
             # sitemapindex
@@ -117,23 +122,25 @@ class ListBaseWithIndex(ListBase):
                     (uri))
             self.logger.info(
                 "Parsed as sitemapindex, %d sitemaps" %
-                (len(
-                    self.resources)))
+                (len(doc.resources)))
             sitemapindex_is_file = self.is_file_uri(uri)
             if (index_only):
                 # don't read the component sitemaps
                 self.sitemapindex = True
+                add = getattr(self.resources, 'add', None) or self.resources.append
+                for r in doc:
+                    add(r)
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemaps = self.resources
             self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            self.logger.info("Now reading %d sitemaps" % len(doc.resources))
+            for sitemap_uri in doc.uris():
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
             # sitemap
+            self.add(doc)
             self.logger.info("Parsed as sitemap, %d resources" %
                              (len(self.resources)))
 
@@ -179,7 +186,7 @@ class ListBaseWithIndex(ListBase):
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
-            self.resources.add(r)
+            self.add(r)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
-- 
2.43.0


From 20ec6c6f98cd9c5819c9c957113498dbdd9c7fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 18/48] fix: lists split with a limit of one entry lost the
 limit, no limit failed, and a part beyond the end was empty

---
 resync/list_base_with_index.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index ebad1ba..89dba25 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -266,7 +266,7 @@ class ListBaseWithIndex(ListBase):
                 (len(self), str(
                     self.max_sitemap_entries)))
         start = part_number * self.max_sitemap_entries
-        if (start > len(self)):
+        if (start >= len(self)):
             raise ListBaseIndexError(
                 "Request for component sitemap with part_number too high, would start at entry %d yet the list has only %d entries" %
                 (start, len(self)))
@@ -384,9 +384,11 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
+        while (self.max_sitemap_entries is None
+                or len(chunk) < max(self.max_sitemap_entries, 1)):
+            try:
+                chunk.add(next(resource_iter))
+            except StopIteration:
                 break
         # Get next to see whether there are more resources
         try:
-- 
2.43.0


From f40902fde2bb375687e77520d50cc118d8f94a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 19/48] fix: iterations over the same list disturbed each
 other, so a list could not be compared with itself

---
 resync/capability_list.py | 15 ++++-----------
 resync/resource_list.py   |  9 +--------
 resync/resource_set.py    | 10 +---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..2e70781 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        ordered = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    ordered.append(self[uri])
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
         for cap in uris:
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                ordered.append(self[uri])
+        return(iter(ordered))
 
 
 class CapabilityList(ListBase):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 3ecb0ac..3a57006 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From db93b07002398198ca3e4f29ff7172006efbef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 20/48] fix: resources with identical timestamps were unequal
 without tolerance

---
 resync/resource.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resync/resource.py b/resync/resource.py
index 48c224b..7664ab3 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -456,9 +456,11 @@ class Resource(object):
             return False
         if (self.timestamp is not None or other.timestamp is not None):
             # not equal if only one timestamp specified
-            if (self.timestamp is None
-                    or other.timestamp is None
-                    or abs(self.timestamp - other.timestamp) >= delta):
+            if (self.timestamp is None or other.timestamp is None):
+                return False
+            # (identical timestamps are equal whatever the value of delta)
+            if (self.timestamp != other.timestamp
+                    and abs(self.timestamp - other.timestamp) >= delta):
                 return False
         if ((self.md5 is not None and other.md5 is not None)
                 and self.md5 != other.md5):
-- 
2.43.0


From 85c84bf72e60a85722f140f6ee11fbe3f89602f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 21/48] fix: at, completed, from and until of list entries were
 written but lost when read back

---
 resync/sitemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..a795ab8 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -339,7 +339,8 @@ class Sitemap(object):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
             # simple attributes that map directly to Resource object attributes
-            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type'):
+            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
+                        'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
                     setattr(resource, att, md[att])
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
-- 
2.43.0


From 1ca8491ff23e995929001ab08391fba6850dfe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 22/48] fix: documents with characters outside the locale's
 encoding could not be written

---
 resync/list_base.py            | 2 +-
 resync/list_base_with_index.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/resync/list_base.py b/resync/list_base.py
index daac991..3aae985 100644
--- a/resync/list_base.py
+++ b/resync/list_base.py
@@ -140,7 +140,7 @@ class ListBase(ResourceContainer):
         Must be overridden to support multi-file lists.
         """
         self.default_capability()
-        fh = open(basename, 'w')
+        fh = open(basename, 'w', encoding='utf-8')
         s = self.new_sitemap()
         s.resources_as_xml(self, fh=fh, sitemapindex=self.sitemapindex)
         fh.close()
diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 89dba25..2bc8039 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -329,7 +329,7 @@ class ListBaseWithIndex(ListBase):
                     raise ListBaseIndexError(
                         "Cannot map sitemap filename to URI (%s)" % str(e))
                 self.logger.info("Writing sitemap %s..." % (file))
-                f = open(file, 'w')
+                f = open(file, 'w', encoding='utf-8')
                 chunk.index = index_uri
                 chunk.md = index.md
                 s.resources_as_xml(chunk, fh=f)
@@ -342,19 +342,19 @@ class ListBaseWithIndex(ListBase):
                 # Get next chunk
                 (chunk, nxt) = self.get_resources_chunk(resources_iter, nxt)
             self.logger.info("Wrote %d sitemaps" % (len(index)))
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(index, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         elif self.sitemapindex:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(chunk, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         else:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemap %s..." % (basename))
             s.resources_as_xml(chunk, fh=f)
             f.close()
-- 
2.43.0


From 7c4d5af66d502dbcdd81ff97407e362e2b31d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 23/48] fix: datetimes with non-ASCII digits or a trailing
 newline were accepted

---
 resync/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/w3c_datetime.py b/resync/w3c_datetime.py
index e5544d5..6ea02cf 100644
--- a/resync/w3c_datetime.py
+++ b/resync/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context='datetime'):
     if (s == ''):
         raise ValueError('Attempt to set empty %s' % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?\Z", s, re.ASCII)
     if (m is not None):
         if (m.group(1) is None):
             s += '-01-01'
@@ -86,7 +86,7 @@ def str_to_datetime(s, context='datetime'):
             s += '-01'
         s += 'T00:00:00Z'
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?\Z", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if (m is not None):
@@ -102,7 +102,7 @@ def str_to_datetime(s, context='datetime'):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))$", s)
+                 r"(\d\d):(\d\d))\Z", s, re.ASCII)
     if (m is None):
         raise ValueError("Bad datetime format (%s)" % s)
     str = m.group(1) + 'Z'
-- 
2.43.0


From ea4e3bc81d32164cfe8f0b15f9dbed1e887b4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 24/48] fix: duplicate mappings differing only in trailing
 slashes were not refused

---
 resync/mapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index cd42f87..16f3a6a 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -64,19 +64,20 @@ class Mapper():
                         "Bad mapping argument (%s), got %s" %
                         (mapping, str(entry)))
                 (src_uri, dst_path) = entry
+                new_map = Map(src_uri, dst_path)
                 # Check for dupes
                 for map in self.mappings:
-                    if (src_uri == map.src_uri):
+                    if (new_map.src_uri == map.src_uri):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "source URI %s (with destination path %s)" %
                             (src_uri, dst_path))
-                    if (dst_path == map.dst_path):
+                    if (new_map.dst_path == map.dst_path):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "destination path %s (with source URI %s)" %
                             (dst_path, src_uri))
-                self.mappings.append(Map(src_uri, dst_path))
+                self.mappings.append(new_map)
 
     def default_src_uri(self):
         """Default src_uri from mapping.
-- 
2.43.0


From 6030d680a52add0149033674f5d6ddb1b4ddd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 25/48] fix: files of a dump got paths outside the package or
 the name of the manifest

---
 resync/dump.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..9b90604 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -129,7 +129,8 @@ class Dump(object):
         total size calculated is the size of files on disk.
         """
         total_size = 0  # total size of all files in bytes
-        path_prefix = None
+        directories = set()
+        paths = set()
         for resource in self.resources:
             if (resource.path is None):
                 # explicit test because exception raised by getsize otherwise
@@ -137,11 +138,9 @@ class Dump(object):
                 raise DumpError(
                     "No file path defined for resource %s" %
                     resource.uri)
-            if (path_prefix is None):
-                path_prefix = os.path.dirname(resource.path)
-            else:
-                path_prefix = os.path.commonprefix(
-                    [path_prefix, os.path.dirname(resource.path)])
+            path = os.path.abspath(resource.path)
+            paths.add(path)
+            directories.add(os.path.dirname(path))
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
@@ -154,6 +153,12 @@ class Dump(object):
                     "Size of file (%s, %d) exceeds maximum (%d) dump size" %
                     (resource.path, size, self.max_size))
             total_size += size
+        path_prefix = None
+        if (len(directories) > 0):
+            path_prefix = os.path.commonpath(directories)
+            if (os.path.join(path_prefix, 'manifest.xml') in paths):
+                # keep this file apart from the manifest of the dump
+                path_prefix = os.path.dirname(path_prefix)
         self.path_prefix = path_prefix
         self.total_size = total_size
         self.logger.info(
-- 
2.43.0


From d6267c9e37e7844142fc8199070170642acce07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 26/48] fix: separate manifests gave local paths, and dumped
 resources lost theirs

---
 resync/dump.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 9b90604..1a20555 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -42,16 +42,22 @@ class Dump(object):
         for manifest in self.partition_dumps():
             dumpbase = "%s%05d" % (basename, n)
             dumpfile = "%s.%s" % (dumpbase, self.format)
-            if (write_separate_manifests):
-                manifest.write(basename=dumpbase + '.xml')
-            if (self.format == 'zip'):
-                self.write_zip(manifest.resources, dumpfile)
-            elif (self.format == 'warc'):
-                self.write_warc(manifest.resources, dumpfile)
-            else:
-                raise DumpError(
-                    "Unknown dump format requested (%s)" %
-                    (self.format))
+            local_paths = [(resource, resource.path) for resource in manifest.resources]
+            try:
+                if (self.format == 'zip'):
+                    self.write_zip(manifest.resources, dumpfile)
+                elif (self.format == 'warc'):
+                    self.write_warc(manifest.resources, dumpfile)
+                else:
+                    raise DumpError(
+                        "Unknown dump format requested (%s)" %
+                        (self.format))
+                if (write_separate_manifests):
+                    # after the dump file so that this has archive paths too
+                    manifest.write(basename=dumpbase + '.xml')
+            finally:
+                for (resource, path) in local_paths:
+                    resource.path = path
             n += 1
         self.logger.info("Wrote %d dump files" % (n))
         return(n)
-- 
2.43.0


From c77e9431c026196a0019a24c2dd98b6f0f509b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 27/48] fix: change lists on standard output were followed by a
 message about a dump not requested

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 6d6abe4..10866c9 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -774,7 +774,7 @@ class Client(object):
 
     def write_dump_if_requested(self, resource_list, dump):
         """Write a dump to the file dump."""
-        if (dump is None):
+        if (not dump):
             return
         print("OOPS - FIXME - Wrinting dump to %s not yet implemented" % (dump))
         return(1)
-- 
2.43.0


From 3515e074b4d9b23a7e1b64bb618ef1b41f433d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 28/48] fix: explorer ended with an error at the end of input

---
 resync/explorer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..fa0817a 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -145,7 +145,10 @@ class Explorer(Client):
             if (self.fake_input):
                 inp = self.fake_input
             else:
-                inp = input("Follow [%s%sq(uit)]?" % (num_prompt, up_prompt))
+                try:
+                    inp = input("Follow [%s%sq(uit)]?" % (num_prompt, up_prompt))
+                except EOFError:
+                    raise ExplorerQuit()  # no more input
             if (inp in options.keys()):
                 break
             if (inp == 'q'):
-- 
2.43.0


From ebcb1276ba6c7ca769977f13df27c912008269c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 29/48] fix: explorer could not show the headers of web
 resources

---
 resync/explorer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index fa0817a..3948bac 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -281,8 +281,8 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                status_code = str(response.getcode())
+                headers = response.info()
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
@@ -294,7 +294,7 @@ class Explorer(Client):
                 if header in headers:
                     check_str = ''
                     if (check_headers is not None and header in check_headers):
-                        if (headers[header] == check_headers[header]):
+                        if (str(headers[header]) == str(check_headers[header])):
                             check_str = ' MATCHES EXPECTED VALUE'
                         else:
                             check_str = ' EXPECTED %s' % (
-- 
2.43.0


From e8f51198ab82735d2530097e56f7e8bca9b36625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 30/48] fix: explorer did not read documents linked as up or
 index from lists

---
 resync/explorer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3948bac..67dbaf4 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -160,7 +160,10 @@ class Explorer(Client):
         #
         checks = {}
         r = options[inp]
-        if (r.capability is None):
+        if (inp in ('u', 'i')):
+            # Links to some other capability document, of whatever type
+            caps = None
+        elif (r.capability is None):
             if (capability in ['resourcelist', 'changelist',
                                'resourcedump', 'changedump']):
                 caps = 'resource'
-- 
2.43.0


From 3749b3c168010017053c669368e50a86773b2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 31/48] fix: explorer offered nothing from a document with one
 malformed URI

---
 resync/explorer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 67dbaf4..3b0ce82 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -342,7 +342,11 @@ class Explorer(Client):
 
         Prints warning if expansion happens.
         """
-        full_uri = urljoin(context, uri)
+        try:
+            full_uri = urljoin(context, uri)
+        except ValueError as e:
+            print("  WARNING - bad URI %s (%s)" % (uri, str(e)))
+            return(uri)
         if (full_uri != uri):
             print("  WARNING - expanded relative URI to %s" % (full_uri))
             uri = full_uri
-- 
2.43.0


From 9dba54ab7322bbe393588bacb7426de96788c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 32/48] fix: --checksum without --hash ended with an
 AttributeError

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..ff43b43 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,7 +212,7 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
-        args.hash.append('md5')
+        args.hash = (args.hash or []) + ['md5']
     if include_remote:
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
-- 
2.43.0


From 1524480d63444a4df7d01253e4de5e9eb1c74f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 33/48] fix: a negative --delay ended with a traceback

---
 resync/client_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index ff43b43..4617615 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -163,6 +163,14 @@ def parse_capability_lists(cls_str):
     return(cls_str.split(','))
 
 
+def parse_delay(delay_str):
+    """Parse --delay option, a non-negative number of seconds."""
+    delay = float(delay_str)
+    if not delay >= 0.0:
+        raise argparse.ArgumentTypeError("--delay must be non-negative!")
+    return(delay)
+
+
 def add_shared_misc_options(opt, default_logfile, include_remote=False):
     """Add shared miscellaneous options to the argument_group opt.
 
@@ -189,7 +197,7 @@ def add_shared_misc_options(opt, default_logfile, include_remote=False):
                               "only to resources on the same server/sub-path etc. Use with care.")
         opt.add_argument('--access-token', type=str, default=None,
                          help="include this access token (a bearer token) in web requests")
-        opt.add_argument('--delay', type=float, default=None,
+        opt.add_argument('--delay', type=parse_delay, default=None,
                          help="add a delay between web requests (default is None)")
     # Want these to show at the end
     opt.add_argument('--logger', '-l', action='store_true',
@@ -217,6 +225,4 @@ def process_shared_misc_options(args, include_remote=False):
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
         if args.delay:
-            if args.delay < 0.0:
-                raise argparse.ArgumentTypeError("--delay must be non-negative!")
             set_url_or_file_open_config('delay', args.delay)
-- 
2.43.0


From 37dbe6806a16048924b76bc135e75042469bd9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 34/48] fix: expected failures of the scripts ended with a
 traceback

---
 resync-build           |  6 +++---
 resync-explorer        |  6 +++---
 resync-sync            |  6 +++---
 resync/client.py       | 25 +++++++++++++++++++------
 resync/client_utils.py |  2 +-
 5 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/resync-build b/resync-build
index 1be0d96..4c49696 100755
--- a/resync-build
+++ b/resync-build
@@ -20,7 +20,7 @@ import argparse
 import sys
 
 from resync import __version__
-from resync.client import Client, ClientFatalError
+from resync.client import Client, EXPECTED_ERRORS
 from resync.client_utils import init_logging, count_true_args, parse_links, parse_capabilities, parse_capability_lists, add_shared_misc_options, process_shared_misc_options
 
 DEFAULT_LOGFILE = 'resync-client.log'
@@ -191,9 +191,9 @@ def main():
                 links=links)
         else:
             parser.error("Unknown mode requested")
-    # Any problem we expect will come as a ClientFatalError, anything else
+    # Any problem we expect will come as one of EXPECTED_ERRORS, anything else
     # is... an exception ;-)
-    except ClientFatalError as e:
+    except EXPECTED_ERRORS as e:
         sys.stderr.write("\nFatalError: " + str(e) + "\n")
 
 
diff --git a/resync-explorer b/resync-explorer
index 9f6a9e7..8bdb87c 100755
--- a/resync-explorer
+++ b/resync-explorer
@@ -20,7 +20,7 @@ import argparse
 import sys
 
 from resync import __version__
-from resync.client import ClientFatalError
+from resync.client import EXPECTED_ERRORS
 from resync.client_utils import init_logging, add_shared_misc_options, process_shared_misc_options
 from resync.explorer import Explorer
 
@@ -89,9 +89,9 @@ def main():
 
         c.explore()
 
-    # Any problem we expect will come as a ClientFatalError, anything else
+    # Any problem we expect will come as one of EXPECTED_ERRORS, anything else
     # is... an exception ;-)
-    except ClientFatalError as e:
+    except EXPECTED_ERRORS as e:
         sys.stderr.write("\nFatalError: " + str(e) + "\n")
 
 
diff --git a/resync-sync b/resync-sync
index 10fd6ed..707cc57 100755
--- a/resync-sync
+++ b/resync-sync
@@ -20,7 +20,7 @@ import argparse
 import sys
 
 from resync import __version__
-from resync.client import Client, ClientFatalError
+from resync.client import Client, EXPECTED_ERRORS
 from resync.client_utils import init_logging, count_true_args, parse_links, parse_capabilities, parse_capability_lists, add_shared_misc_options, process_shared_misc_options
 
 DEFAULT_LOGFILE = 'resync-client.log'
@@ -153,9 +153,9 @@ def main():
             c.parse_document()
         else:
             parser.error("Unknown mode requested")
-    # Any problem we expect will come as a ClientFatalError, anything else
+    # Any problem we expect will come as one of EXPECTED_ERRORS, anything else
     # is... an exception ;-)
-    except ClientFatalError as e:
+    except EXPECTED_ERRORS as e:
         sys.stderr.write("\nFatalError: " + str(e) + "\n")
 
 
diff --git a/resync/client.py b/resync/client.py
index 10866c9..308e185 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -17,22 +17,27 @@ import shutil
 import socket
 
 from .resource_list_builder import ResourceListBuilder
-from .resource_list import ResourceList
+from .resource_list import ResourceList, ResourceListDupeError
 from .change_list import ChangeList
 from .capability_list import CapabilityList
 from .source_description import SourceDescription
-from .mapper import Mapper
+from .mapper import Mapper, MapperError
 from .sitemap import Sitemap
-from .dump import Dump
+from .dump import Dump, DumpError
 from .resource import Resource
 from .url_authority import UrlAuthority
 from .hashes import Hashes
 from .client_state import ClientState
 from .client_utils import ClientFatalError, ClientError
 from .list_base_with_index import ListBaseIndexError
+from .resource_set import ResourceSetDupeError
 from .url_or_file_open import url_or_file_open
 from .w3c_datetime import str_to_datetime, datetime_to_str
 
+# Problems that are not bugs, and that scripts report without a traceback
+EXPECTED_ERRORS = (ClientFatalError, ClientError, MapperError, DumpError,
+                   ListBaseIndexError, ResourceListDupeError, ResourceSetDupeError, OSError)
+
 
 class Client(object):
     """Implementation of a ResourceSync client.
@@ -409,7 +414,10 @@ class Client(object):
                         (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
-        num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
+        try:
+            num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
+        except Exception as e:
+            raise ClientFatalError("Aborting - %s" % str(e))
         if (num_skipped > 0):
             self.logger.info(
                 "Skipped %d changes before %s" %
@@ -654,7 +662,7 @@ class Client(object):
         self.logger.info("Reading sitemap(s) from %s ..." % (self.sitemap))
         try:
             list = s.parse_xml(url_or_file_open(self.sitemap))
-        except IOError as e:
+        except Exception as e:
             raise ClientFatalError("Cannot read document (%s)" % str(e))
         num_entries = len(list.resources)
         capability = '(unknown capability)'
@@ -790,7 +798,12 @@ class Client(object):
             "Reading %s resource list from %s ..." %
             (name, ref_sitemap))
         rl.mapper = self.mapper
-        rl.read(uri=ref_sitemap, index_only=(not self.allow_multifile))
+        try:
+            rl.read(uri=ref_sitemap, index_only=(not self.allow_multifile))
+        except Exception as e:
+            raise ClientFatalError(
+                "Can't read %s resource list from %s (%s)" %
+                (name, ref_sitemap, str(e)))
         num_entries = len(rl.resources)
         self.logger.info(
             "Read %s resource list with %d entries in %d sitemaps" %
diff --git a/resync/client_utils.py b/resync/client_utils.py
index 4617615..7b07bef 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -176,7 +176,7 @@ def add_shared_misc_options(opt, default_logfile, include_remote=False):
 
     Options that the resync-sync, resync-build and resync-explorer scripts use.
     """
-    opt.add_argument('--hash', type=str, action='append',
+    opt.add_argument('--hash', type=str, action='append', choices=('md5', 'sha-1', 'sha-256'),
                      help="use specified hash types in addition to last modification time "
                           "and size (repeatable, may include `md5`, `sha-1` and `sha-256`)")
     opt.add_argument('--checksum', action='store_true',
-- 
2.43.0


From 1388c51cc3066a8584d5cce4f1d8bfb5b9940b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 35/48] fix: --exclude had no effect on what resync-sync
 deletes or downloads

---
 resync/client.py                | 19 ++++++++++++++++---
 resync/resource_list_builder.py | 11 +++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 308e185..c6f3101 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -206,6 +206,15 @@ class Client(object):
             "Failed to find source resource list from common patterns (%s)" %
             ". ".join(errors))
 
+    def resource_list_builder(self):
+        """Return a ResourceListBuilder with the current settings."""
+        rlb = ResourceListBuilder(set_hashes=self.hashes, mapper=self.mapper)
+        try:
+            rlb.add_exclude_patterns(self.exclude_patterns)
+        except ValueError as e:
+            raise ClientFatalError(str(e))
+        return(rlb)
+
     def build_resource_list(self, paths=None, set_path=False):
         """Return a resource list for files on local disk.
 
@@ -228,10 +237,9 @@ class Client(object):
             # Expect comma separated list of paths
             paths = paths.split(',')
         # 1. Build from disk
-        rlb = ResourceListBuilder(set_hashes=self.hashes, mapper=self.mapper)
+        rlb = self.resource_list_builder()
         rlb.set_path = set_path
         try:
-            rlb.add_exclude_patterns(self.exclude_patterns)
             rl = rlb.from_disk(paths=paths)
         except ValueError as e:
             raise ClientFatalError(str(e))
@@ -276,7 +284,9 @@ class Client(object):
         if (len(self.hashes) > 0):
             self.prune_hashes(src_resource_list.hashes(), 'resource')
         # 1.b destination resource list mapped back to source URIs
-        rlb = ResourceListBuilder(set_hashes=self.hashes, mapper=self.mapper)
+        rlb = self.resource_list_builder()
+        for resource in [r for r in src_resource_list if rlb.excludes_uri(r.uri)]:
+            del src_resource_list.resources[resource.uri]
         dst_resource_list = rlb.from_disk()
         # 2. Compare these resource lists respecting any comparison options
         (same, updated, deleted, created) = dst_resource_list.compare(src_resource_list)
@@ -383,6 +393,9 @@ class Client(object):
         self.logger.info(
             "Read source change list, %d changes listed" %
             (len(src_change_list)))
+        rlb = self.resource_list_builder()
+        src_change_list.resources = [r for r in src_change_list
+                                     if not rlb.excludes_uri(r.uri)]
         # if (len(src_change_list)==0):
         #    raise ClientFatalError("Aborting as there are no resources to sync")
         if (len(self.hashes) > 0):
diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..9f48c23 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -82,6 +82,17 @@ class ResourceListBuilder():
                 return True
         return False
 
+    def excludes_uri(self, uri):
+        """True if the local file for uri, or a directory it is in, is excluded."""
+        if (len(self.compiled_exclude_patterns) == 0):
+            return False
+        for map in self.mapper.mappings:
+            path = map.src_to_dst(uri)  # might throw MapperError
+            if (path is not None):
+                return any(self._exclude(name)
+                           for name in path[len(map.dst_path):].split('/') if name != '')
+        return False
+
     def from_disk(self, resource_list=None, paths=None):
         """Create or extend resource_list with resources from disk scan.
 
-- 
2.43.0


From 7e101415a530ac0cf03ac2c56545f2e7631682a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 36/48] fix: digest types a source list lacked were never used
 again by the same client

---
 resync/client.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c6f3101..b099154 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -281,10 +281,10 @@ class Client(object):
         if (len(src_resource_list) == 0):
             raise ClientFatalError(
                 "Aborting as there are no resources to sync")
-        if (len(self.hashes) > 0):
-            self.prune_hashes(src_resource_list.hashes(), 'resource')
         # 1.b destination resource list mapped back to source URIs
         rlb = self.resource_list_builder()
+        if (len(self.hashes) > 0):
+            rlb.set_hashes = self.prune_hashes(src_resource_list.hashes(), 'resource')
         for resource in [r for r in src_resource_list if rlb.excludes_uri(r.uri)]:
             del src_resource_list.resources[resource.uri]
         dst_resource_list = rlb.from_disk()
@@ -840,14 +840,14 @@ class Client(object):
         return(rl)
 
     def prune_hashes(self, hashes, list_type):
-        """Prune any hashes not in source resource or change list."""
-        discarded = []
-        for hash in list(self.hashes):
-            if (hash not in hashes):
-                self.hashes.discard(hash)
-                discarded.append(hash)
+        """Return self.hashes without any hashes not in source resource or change list.
+
+        Does not change self.hashes as other lists used later may include them.
+        """
+        discarded = self.hashes - set(hashes)
         self.logger.info("Not calculating %s hash(es) on destination as not present "
                          "in source %s list" % (', '.join(sorted(discarded)), list_type))
+        return(self.hashes - discarded)
 
     def log_status(self, in_sync=True, incremental=False, audit=False,
                    same=None, created=0, updated=0, deleted=0, to_delete=0):
-- 
2.43.0


From 175ad13b66a65d57e243f6c4584217ca6b963649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 37/48] fix: --multifile was ignored for change lists and took
 the files of a reference list for resources

---
 resync/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index b099154..d7e2d82 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -384,6 +384,7 @@ class Client(object):
         try:
             self.logger.info("Reading change list %s" % (change_list))
             src_change_list = ChangeList()
+            src_change_list.allow_multifile = self.allow_multifile
             src_change_list.read(uri=change_list)
             self.logger.debug("Finished reading change list")
         except Exception as e:
@@ -758,6 +759,7 @@ class Client(object):
             cl.add_changed_resources(created, change='created')
         # 4. Write out change list
         cl.mapper = self.mapper
+        cl.allow_multifile = self.allow_multifile
         cl.pretty_xml = self.pretty_xml
         if (self.max_sitemap_entries is not None):
             cl.max_sitemap_entries = self.max_sitemap_entries
@@ -806,13 +808,13 @@ class Client(object):
         The name parameter is used just in output messages to say what type
         of resource list is being read.
         """
-        rl = ResourceList()
+        rl = ResourceList(allow_multifile=self.allow_multifile)
         self.logger.info(
             "Reading %s resource list from %s ..." %
             (name, ref_sitemap))
         rl.mapper = self.mapper
         try:
-            rl.read(uri=ref_sitemap, index_only=(not self.allow_multifile))
+            rl.read(uri=ref_sitemap)
         except Exception as e:
             raise ClientFatalError(
                 "Can't read %s resource list from %s (%s)" %
-- 
2.43.0


From eeae6c35fa547bcaaf8f1adb5abfc42eb01951b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 38/48] fix: files of a list could be documents of another kind

---
 resync/list_base_with_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 2bc8039..5290138 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -183,12 +183,12 @@ class ListBaseWithIndex(ListBase):
         self.logger.info(
             "Reading sitemap from %s (%d bytes)" %
             (sitemap_uri, self.content_length))
-        component = sitemap.parse_xml(fh=fh, sitemapindex=False)
+        component = sitemap.parse_xml(fh=fh, capability=self.capability_name,
+                                      sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
             self.add(r)
         # FIXME - if rel="up" check it goes to correct place
-        # FIXME - check capability
 
     # OUTPUT
 
-- 
2.43.0


From d92b807770878b48110a118b0d4c493dff4efdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 39/48] fix: links of a copied resource were shared with the
 original

---
 resync/resource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/resource.py b/resync/resource.py
index 7664ab3..6b2e194 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -1,6 +1,7 @@
 """ResourceSync Resources - information about a web resource and changes."""
 
 import re
+from copy import deepcopy
 from posixpath import basename
 from urllib.parse import urlparse
 
@@ -98,6 +99,8 @@ class Resource(object):
                         'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']:
                 if hasattr(resource, att):
                     setattr(self, att, getattr(resource, att))
+            # (changes to links of the copy must not change the original)
+            self.ln = deepcopy(self.ln)
         # Any arguments will then override
         if (uri is not None):
             self.uri = uri
-- 
2.43.0


From 731611a2964ed0b6bc5a7ae0c4b62d160ef0df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 40/48] fix: digests after a malformed one were lost

---
 resync/resource.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/resource.py b/resync/resource.py
index 6b2e194..4825854 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -315,8 +315,10 @@ class Resource(object):
         hash_seen = set()
         errors = []
         for entry in hashes_str.split():
-            (hash_type, value) = entry.split(':', 1)
-            if hash_type in hash_seen:
+            (hash_type, sep, value) = entry.partition(':')
+            if not sep:
+                errors.append("hash value without type %s" % (entry))
+            elif hash_type in hash_seen:
                 errors.append("duplicate hash type %s" % (hash_type))
             else:
                 hash_seen.add(hash_type)
-- 
2.43.0


From 530f6fa305f20ffcb0d45e810f527a4e4fd94838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 41/48] fix: client state file that cannot be read is an error,
 not taken for an empty one

---
 resync/client_state.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index 5f1fc59..f8342f4 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -32,8 +32,7 @@ class ClientState(object):
 
         FIXME - should have some file lock to avoid race
         """
-        parser = ConfigParser()
-        parser.read(self.status_file)
+        parser = self.read_status()
         status_section = 'incremental'
         if (not parser.has_section(status_section)):
             parser.add_section(status_section)
@@ -61,9 +60,8 @@ class ClientState(object):
 
     def get_state(self, site):
         """Read client status file and return dict."""
-        parser = ConfigParser()
+        parser = self.read_status()
         status_section = 'incremental'
-        parser.read(self.status_file)
         timestamp = None
         try:
             timestamp = float(
@@ -76,6 +74,18 @@ class ClientState(object):
             pass
         return(timestamp)
 
+    def read_status(self):
+        """Return ConfigParser with content of the status file, empty if there is none.
+
+        A status file that is there but cannot be read is an error (parser.read()
+        would take it for an empty one).
+        """
+        parser = ConfigParser()
+        if (os.path.lexists(self.status_file)):
+            with open(self.status_file) as fh:
+                parser.read_file(fh, self.status_file)
+        return(parser)
+
     def config_site_to_name(self, name):
         """Convert site name to safe string for config.
 
-- 
2.43.0


From 6f12b6121bf266eb8cb910ac42382e0f50c9c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 42/48] fix: failed deletion is tried again by the next
 incremental sync

---
 resync/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index d7e2d82..215361c 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -329,12 +329,14 @@ class Client(object):
             num_updated += self.update_resource(resource, filename, 'updated')
         # (the times of files to delete are local times and not times from the source)
         last_timestamp = self.last_timestamp
+        num_failed = len(self.failed_timestamps)
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         self.last_timestamp = last_timestamp
+        self.failed_timestamps[num_failed:] = [None] * (len(self.failed_timestamps) - num_failed)
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only):
             self.store_last_timestamp()
@@ -657,6 +659,10 @@ class Client(object):
                         uri, filename, str(e))
                     # if (self.ignore_failures):
                     self.logger.warning(msg)
+                    if (os.path.lexists(filename)):
+                        # still there, so an incremental sync should try it again
+                        self.failed_timestamps.append(
+                            resource.ts_datetime if (resource.ts_datetime is not None) else resource.timestamp)
                     #    return
                     # else:
                     #    raise ClientFatalError(msg)
-- 
2.43.0


From 33d84bb8b5b175e2d95cfd7f024c4de037bcd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 43/48] fix: dump with incomplete content left behind when a
 file cannot be read or written

---
 resync/dump.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index 1a20555..75f6385 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -85,7 +85,12 @@ class Dump(object):
         zf.writestr('manifest.xml', rdm.as_xml())
         # Add all files in the resources
         for resource in resources:
-            zf.write(real_path[resource.path], arcname=resource.path)
+            try:
+                zf.write(real_path[resource.path], arcname=resource.path)
+            except Exception:
+                # zipfile completes the dump with what it has of this resource
+                os.unlink(dumpfile)
+                raise
         zf.close()
         zipsize = os.path.getsize(dumpfile)
         self.logger.info(
-- 
2.43.0


From 73d9af544d9244aea1d4bb9eca4f5204a297927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 44/48] fix: https URIs taken for local file names when reading
 a list in several files

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 5290138..5e8cca1 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -435,7 +435,7 @@ class ListBaseWithIndex(ListBase):
         Test is to see whether have either an explicit file: URI or whether
         there is no scheme name.
         """
-        return(re.match(r'file:', uri) or not re.match(r'\w{3,4}:', uri))
+        return(re.match(r'file:', uri) or not re.match(r'\w{3,}:', uri))
 
 
 class ListBaseIndexError(Exception):
-- 
2.43.0


From ea76542261961a3df801ef0eab3de8b9f2743f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 45/48] fix: authority over files of a list in several files
 was checked for local files only

---
 resync/list_base_with_index.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 5e8cca1..5030508 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -158,14 +158,14 @@ class ListBaseWithIndex(ListBase):
                 self.logger.info(
                     "Mapped %s to local file %s" %
                     (remote_uri, sitemap_uri))
-            else:
-                # The individual sitemaps should be at a URL (scheme/server/path)
-                # that the sitemapindex URL can speak authoritatively about
-                if (self.check_url_authority
-                        and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
-                    raise ListBaseIndexError(
-                        "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
-                        (sitemapindex_uri, sitemap_uri))
+        else:
+            # The individual sitemaps should be at a URL (scheme/server/path)
+            # that the sitemapindex URL can speak authoritatively about
+            if (self.check_url_authority
+                    and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
+                raise ListBaseIndexError(
+                    "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
+                    (sitemapindex_uri, sitemap_uri))
         try:
             fh = url_or_file_open(sitemap_uri)
             self.num_files += 1
-- 
2.43.0


From 2ba5a361c82e8587125194e65ad435390b644fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:27 +0000
Subject: [PATCH 46/48] fix: local file names with a percent sign, hash or
 outer blanks were not opened

---
 resync/url_or_file_open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 4981fa4..ab03d5c 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -2,7 +2,7 @@
 
 import re
 import time
-from urllib.request import Request, urlopen
+from urllib.request import Request, pathname2url, urlopen
 
 from . import __version__
 
@@ -31,7 +31,7 @@ def url_or_file_open(uri, method=None, timeout=None):
     no timeout is specified then the global default will be used.
     """
     if (not re.match(r'''\w+:''', uri)):
-        uri = 'file:' + uri
+        uri = 'file:' + pathname2url(uri)
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From dd29491c72931a8407ba80df771a7422d81688a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:11 +0000
Subject: [PATCH 47/48] fix: strict authority was granted over paths that dot
 segments lead out of

---
 resync/url_authority.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 38a423e..7ec353e 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -2,6 +2,7 @@
 
 from urllib.parse import urlparse
 import os.path
+import re
 
 
 class UrlAuthority(object):
@@ -49,7 +50,26 @@ class UrlAuthority(object):
         m = urlparse(url)
         self.master_scheme = m.scheme
         self.master_netloc = m.netloc
-        self.master_path = os.path.dirname(m.path)
+        self.master_path = self.path_directory(m.path)
+
+    def path_directory(self, path):
+        """Directory part of path after resolution of dot segments.
+
+        Servers resolve them too, also in percent encoded form, so the path
+        /a/../b is not below /a.
+        """
+        segments = []
+        dots = ''
+        for segment in path.split('/'):
+            dots = re.sub(r'%2e', '.', segment, flags=re.IGNORECASE)
+            if (dots == '..' and len(segments) > 0 and segments[-1] != '..'):
+                if (segments != ['']):
+                    segments.pop()
+            elif (dots != '.'):
+                segments.append(dots if (dots == '..') else segment)
+        if (dots in ('.', '..')):
+            segments.append('')
+        return(os.path.dirname('/'.join(segments)))
 
     def has_authority_over(self, url):
         """Return True of the current master has authority over url.
@@ -66,7 +86,7 @@ class UrlAuthority(object):
                 return(False)
             # Maybe should allow parallel for 3+ components, eg. a.example.org,
             # b.example.org
-        path = os.path.dirname(s.path)
+        path = self.path_directory(s.path)
         if (self.strict and path != self.master_path
                 and not path.startswith(self.master_path.rstrip('/') + '/')):
             return(False)
-- 
2.43.0


From 25071b305fcc105595ca5f02a91fba8bf4891605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:17 +0000
Subject: [PATCH 48/48] fix: writing a list in several files changed the list's
 own index link

---
 resync/list_base_with_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 5030508..97f6f6c 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -316,7 +316,7 @@ class ListBaseWithIndex(ListBase):
             # max_sitemap_entries to go into each sitemap, store the
             # names of the sitemaps as we go. Copy md from self into
             # the index and use this for all chunks also
-            index = ListBase(md=self.md.copy(), ln=list(self.ln))
+            index = ListBase(md=self.md.copy(), ln=[link.copy() for link in self.ln])
             index.capability_name = self.capability_name
             index.default_capability()
             while (len(chunk) > 0):
@@ -379,7 +379,7 @@ class ListBaseWithIndex(ListBase):
         the iterator, providing indication of whether more is available.
         Use this as first when asking for the following chunk.
         """
-        chunk = ListBase(md=self.md.copy(), ln=list(self.ln))
+        chunk = ListBase(md=self.md.copy(), ln=[link.copy() for link in self.ln])
         chunk.capability_name = self.capability_name
         chunk.default_capability()
         if (first is not None):
-- 
2.43.0

