From bf34f17363343be5273b81ec7056fafc26ec8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:32 +0000
Subject: [PATCH 1/5] fix: Backend rejected every nonzero per-message skipped
 keys limit

Operator precedence made the check evaluate to the limit itself instead of comparing it with the per-session limit.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..cd2c4bc 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From e275186b48fa46be562b8bd0fa5294245170f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:32 +0000
Subject: [PATCH 2/5] fix: signed pre key rotation never increased its upload
 retry delay

The delay was reset to one minute in front of every attempt.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..2c71989 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -676,8 +676,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
+                    retry_delay = 60  # Start with one minute of retry delay
                     while True:
-                        retry_delay = 60  # Start with one minute of retry delay
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 138ec1f2cf2106ee10d31d141fba17ac210281b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:32 +0000
Subject: [PATCH 3/5] fix: loading could replace a newer cached value

A store or delete completing while the underlying load of the same key was pending was overwritten in the cache by the
outdated value.
---
 omemo/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..1c538d1 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -249,7 +249,8 @@ class Storage(ABC):
 
         value = await self._load(key)
         if self.__cache is not None:
-            self.__cache[key] = value
+            # Don't replace a newer value that was cached by a store/delete while the value was being loaded
+            value = self.__cache.setdefault(key, value)
         return value
 
     async def store(self, key: str, value: JSONType) -> None:
-- 
2.43.0


From 0f00d347dee245ed5deab0c0520d94f1f2852cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:05 +0000
Subject: [PATCH 4/5] fix: sessions were built from bundles with a different
 identity key than the trusted one

Neither encrypt nor replace_sessions compared the identity key of the bundle with the identity key on record, which is
the one trust decisions are made for.
---
 omemo/session_manager.py | 54 +++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 2c71989..a196548 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1236,14 +1236,21 @@ class SessionManager(ABC):
                     content, plain_key_material = await backend.encrypt_empty()
 
                     # Build a new session to replace the old one
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+
+                    if bundle.identity_key != device.identity_key:
+                        raise KeyExchangeFailed(
+                            "The identity key of the bundle does not match the identity key known for the device."
+                        )
+
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
@@ -1896,19 +1903,32 @@ class SessionManager(ABC):
 
                 try:
                     # Build the session if necessary, and encrypt the key material
-                    session, encrypted_key_material = await backend.build_session_active(
-                        device.bare_jid,
-                        device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
+                    if session is None:
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        # The trust decision was made for the identity key known for the device
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                "The identity key of the bundle does not match the identity key known for the"
+                                " device."
+                            )
+
+                        session, encrypted_key_material = await backend.build_session_active(
                             device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
-                        plain_key_material
-                    ) if session is None else (session, await backend.encrypt_key_material(
-                        session,
-                        plain_key_material
-                    ))
+                            device.device_id,
+                            bundle,
+                            plain_key_material
+                        )
+                    else:
+                        encrypted_key_material = await backend.encrypt_key_material(
+                            session,
+                            plain_key_material
+                        )
                 except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                     # Those failures are non-critical, i.e. encryption for other devices is still performed
                     # and the errors are simply collected and returned.
-- 
2.43.0


From 4ee5eb2dbdadabea5ca3df30b950ceebbbde01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 5/5] fix: a device with a namespace that is not loaded could
 break device information queries

_download_bundle is documented to raise UnknownNamespace for unknown namespaces; that failure of one namespace of one
device failed the whole query instead of the next namespace being tried.
---
 omemo/session_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index a196548..22dcf72 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1446,6 +1446,11 @@ class SessionManager(ABC):
                             f" namespace {namespace}.",
                             exc_info=True
                         )
+                    except UnknownNamespace:
+                        logging.getLogger(SessionManager.LOG_TAG).warning(
+                            f"Namespace {namespace} of device {device_id} of bare JID {bare_jid} is not known.",
+                            exc_info=True
+                        )
                     else:
                         logging.getLogger(SessionManager.LOG_TAG).debug(
                             f"Identity key information extracted from bundle of namespace {namespace}."
-- 
2.43.0

