From 5e9a6edf63a53f2819de71a35755b21b7edabbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 01/70] fix: keep reads and writes of ConnectionTCP on the
 connection they started on

A read or write in progress when the connection was lost continued on the
connection that replaced it, and its failure marked the new one as lost.
Lost connections are now closed too.
---
 connection/1_connection_tcp.ts | 56 ++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/connection/1_connection_tcp.ts b/connection/1_connection_tcp.ts
index 33c2316..a5ebb69 100644
--- a/connection/1_connection_tcp.ts
+++ b/connection/1_connection_tcp.ts
@@ -68,27 +68,44 @@ export class ConnectionTCP implements Connection {
     this.#connection = connection;
   }
 
+  #onConnectionLost(connection: Deno.Conn) {
+    if (this.#connection === connection) {
+      this.#canRead = this.#canWrite = false;
+      this.#connection = undefined;
+      try {
+        connection.close();
+      } catch {
+        //
+      }
+    }
+    // otherwise it was closed or replaced meanwhile
+    if (this.#connection === undefined) {
+      this.stateChangeHandler?.(false);
+    }
+  }
+
   async read(p: Uint8Array) {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
-    let offset = 0;
-
     try {
-      do {
-        const read = await this.#connection!.read(p.subarray(offset));
-        if (read === null) {
-          this.#canRead = false;
-          this.stateChangeHandler?.(false);
-          throw new ConnectionError("The connection was closed.");
-        }
+      this.#assertConnected();
+      // the bytes must all come from the same connection
+      const connection = this.#connection!;
+      let offset = 0;
+      try {
+        do {
+          const read = await connection.read(p.subarray(offset));
+          if (read === null) {
+            throw new ConnectionError("The connection was closed.");
+          }
 
-        this.callback?.read(read);
-        offset += read;
-      } while (offset < p.byteLength);
-    } catch {
-      this.#canRead = false;
-      this.stateChangeHandler?.(false);
-      throw new ConnectionError("The connection was closed.");
+          this.callback?.read(read);
+          offset += read;
+        } while (offset < p.byteLength);
+      } catch {
+        this.#onConnectionLost(connection);
+        throw new ConnectionError("The connection was closed.");
+      }
     } finally {
       unlock();
     }
@@ -99,15 +116,16 @@ export class ConnectionTCP implements Connection {
     const unlock = await this.#wMutex.lock();
     try {
       this.#assertConnected();
+      // the bytes must all go to the same connection
+      const connection = this.#connection!;
       let written = 0;
       while (written < p.byteLength) {
         try {
-          const wrote = await this.#connection!.write(p.subarray(written));
+          const wrote = await connection.write(p.subarray(written));
           this.callback?.write(wrote);
           written += wrote;
         } catch {
-          this.#canWrite = false;
-          this.stateChangeHandler?.(false);
+          this.#onConnectionLost(connection);
           throw new ConnectionError("The connection was closed.");
         }
       }
-- 
2.43.0


From 969873664df9b3085e000dcff7a84f352097529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 02/70] fix: don't leave calls that are rejected while being
 sent unhandled

---
 client/2_client_encrypted.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index cfa0480..c8e6c21 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -339,6 +339,8 @@ export class ClientEncrypted extends ClientAbstract {
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
     const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
+    // it can be rejected before being awaited below
+    drop(sentRequest.promiseWithResolvers.promise);
     await this.#send(function_, (messageId) => {
       this.#L.debug("sending", function_._, "with msg_id", messageId);
       this.#sentRequests.set(messageId, sentRequest);
-- 
2.43.0


From cd7c6c4ced991d0cca01a9fd967485c4539243bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 03/70] fix: don't let a connection attempt in progress undo
 disconnect()

---
 session/1_session.ts           | 13 +++++++++++++
 session/2_session_encrypted.ts |  1 +
 2 files changed, 14 insertions(+)

diff --git a/session/1_session.ts b/session/1_session.ts
index 9381bac..7245e36 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -19,6 +19,7 @@
  */
 
 import { delay, SECOND } from "../0_deps.ts";
+import { ConnectionError } from "../0_errors.ts";
 import { drop, getLogger, type Logger, Mutex } from "../1_utilities.ts";
 import type { Connection, ConnectionCallback } from "../2_connection.ts";
 import { type DC, type TransportProvider, transportProviderTcp, transportProviderWebSocket } from "../3_transport.ts";
@@ -136,16 +137,21 @@ export abstract class Session {
   }
 
   #connectMutex = new Mutex();
+  #disconnectCount = 0;
   async connect() {
+    const disconnectCount = this.#disconnectCount;
     const unlock = await this.#connectMutex.lock();
     try {
+      this.#assertNotDisconnectedSince(disconnectCount);
       if (this.isConnected) {
         this.#resolveConnectionStateChange();
         return;
       }
       await this.transport.connection.open();
       try {
+        this.#assertNotDisconnectedSince(disconnectCount);
         await this.transport.transport.initialize();
+        this.#assertNotDisconnectedSince(disconnectCount);
       } catch (err) {
         if (this.transport.connection.isConnected) {
           try {
@@ -164,6 +170,12 @@ export abstract class Session {
     }
   }
 
+  #assertNotDisconnectedSince(disconnectCount: number) {
+    if (this.#disconnectCount !== disconnectCount) {
+      throw new ConnectionError("The connection was disconnected.");
+    }
+  }
+
   #connectionStateChange = Promise.withResolvers<void>();
   #resolveConnectionStateChange() {
     const connectionStateChange = this.#connectionStateChange;
@@ -183,6 +195,7 @@ export abstract class Session {
 
   disconnect() {
     this.#isDisconnected = true;
+    ++this.#disconnectCount;
     if (this.transport.connection.isConnected) {
       drop(this.transport.connection.close());
     }
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index bb479c0..7a167c4 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -108,6 +108,7 @@ export class SessionEncrypted extends Session implements Session {
       await initTgCrypto();
       SessionEncrypted.#IS_TGCRYPTO_INITIALIZED = true;
     }
+    this.#assertNotDisconnected();
     this.#receiveLoop.start();
     this.#sendLoop.start();
     this.#pingLoop.start();
-- 
2.43.0


From 91bf5bc10112899053387f8bc13e647aaec81b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 04/70] fix: keep calls and the connection alive when the
 session is invalidated

The calls of the old session were given up only after the new session had been
started, in which message IDs repeat, so some of them were never answered.
Calls made meanwhile failed, a failure to reconnect was final, calls which the
server could have executed were resent after a packet that couldn't be decrypted,
and messages being sent meanwhile were never answered.
---
 session/1_session.ts           | 11 ++++++++-
 session/2_session_encrypted.ts | 42 ++++++++++++++++++++++------------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/session/1_session.ts b/session/1_session.ts
index 7245e36..fc70282 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -104,6 +104,10 @@ export abstract class Session {
       }
       return;
     }
+    await this.reconnect();
+  }
+
+  protected async reconnect() {
     if (this.#isReconnecting) {
       return;
     }
@@ -196,10 +200,15 @@ export abstract class Session {
   disconnect() {
     this.#isDisconnected = true;
     ++this.#disconnectCount;
+    this.closeConnection();
+    this.#resolveConnectionStateChange();
+  }
+
+  /** Closes the connection without preventing it from being reopened. */
+  protected closeConnection() {
     if (this.transport.connection.isConnected) {
       drop(this.transport.connection.close());
     }
-    this.#resolveConnectionStateChange();
   }
 
   abstract send(body: Uint8Array, onMessageId: (messageId: bigint) => () => void): Promise<void>;
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 7a167c4..3de2bcf 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -62,7 +62,6 @@ export class SessionEncrypted extends Session implements Session {
 
   #authKey = new Uint8Array();
   #authKeyId = 0n;
-  #isInvalidating = false;
 
   #sentMessages = new Set<bigint>();
   #pendingMessages = new Array<PendingMessage | undefined>();
@@ -100,7 +99,7 @@ export class SessionEncrypted extends Session implements Session {
   }
 
   override async connect(): Promise<void> {
-    if (!this.isConnected && !this.#isInvalidating) {
+    if (!this.isConnected) {
       this.#rejectAllPending(new ConnectionError("The connection was closed."));
     }
     await super.connect();
@@ -117,15 +116,18 @@ export class SessionEncrypted extends Session implements Session {
 
   override disconnect(): void {
     super.disconnect();
+    this.#reset();
+    this.#rejectAllPending(new ConnectionError("The connection was disconnected."));
+  }
+
+  #reset() {
     this.state.reset();
     this.#id = getRandomId();
+    this.#pendingAcks.clear();
     this.#receiveLoop.abort();
     this.#sendLoop.abort();
     this.#pingLoop.abort();
     this.#awakeSendLoop?.();
-    if (!this.#isInvalidating) {
-      this.#rejectAllPending(new ConnectionError("The connection was disconnected."));
-    }
   }
 
   #assertNotDisconnected() {
@@ -134,24 +136,23 @@ export class SessionEncrypted extends Session implements Session {
     }
   }
 
-  async #invalidateSession(reason: string) {
+  async #invalidateSession(reason: string, error: unknown = new SessionError("The session was invalidated.")) {
     this.#L.debug("invalidating session because of", reason);
-    this.#id = getRandomId();
-    this.state.reset();
-    this.#isInvalidating = true;
+    this.closeConnection();
+    this.#reset();
+    // message IDs of the new session may match the ones of this one, so nothing can be left registered
+    this.#rejectAllPending(error);
     try {
-      this.disconnect();
       await this.connect();
     } catch (err) {
-      this.#rejectAllPending(err);
+      drop(this.reconnect());
       throw err;
-    } finally {
-      this.#isInvalidating = false;
     }
-    this.#rejectAllPending(new SessionError("The session was invalidated."));
   }
 
+  #generation = 0; // changes whenever what was sent so far is given up
   #rejectAllPending(reason: unknown) {
+    ++this.#generation;
     for (let i = this.#pendingMessageHead; i < this.#pendingMessages.length; ++i) {
       const pendingMessage = this.#pendingMessages[i];
       if (pendingMessage === undefined) {
@@ -240,7 +241,8 @@ export class SessionEncrypted extends Session implements Session {
       return decrypted;
     } catch (err) {
       this.#L.error("decryption error:", err);
-      await this.#invalidateSession("decryption error");
+      // the server may have already executed what was sent, so it cannot be resent
+      await this.#invalidateSession("decryption error", new ConnectionError("The connection was closed."));
       throw err;
     }
   }
@@ -352,6 +354,7 @@ export class SessionEncrypted extends Session implements Session {
     let msg_id: bigint;
     let message: message;
     let unregister: (() => void) | undefined;
+    const generation = this.#generation;
 
     try {
       msg_id = this.state.nextMessageId();
@@ -417,6 +420,9 @@ export class SessionEncrypted extends Session implements Session {
       }
 
       const payload = await this.#encryptMessage(message);
+      if (generation !== this.#generation) {
+        throw new ConnectionError("The connection was closed.");
+      }
       await this.transport.transport.send(payload);
     } catch (err) {
       pendingMessage.promiseWithResolvers.reject(err);
@@ -425,6 +431,12 @@ export class SessionEncrypted extends Session implements Session {
     }
 
     this.#LsendLoop.out(message);
+    if (generation !== this.#generation) {
+      // nothing will be received for this message anymore
+      pendingMessage.promiseWithResolvers.resolve();
+      this.#onMessageFailed(msg_id, new ConnectionError("The connection was closed."));
+      return;
+    }
     this.#sentMessages.add(msg_id);
     if (!(message.body instanceof Uint8Array)) {
       const msg_ids = message.body.messages.map((v) => v.msg_id);
-- 
2.43.0


From 1e82cab7f705eddf338eed9e0a7c63c0404a5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 05/70] fix: don't leave pings that are rejected while being
 sent unhandled

---
 session/2_session_encrypted.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 3de2bcf..20a9b2e 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -655,6 +655,8 @@ export class SessionEncrypted extends Session implements Session {
     const ping_id = getRandomId();
     const call: Mtproto.ping_delay_disconnect = { _: "ping_delay_disconnect", ping_id, disconnect_delay };
     const promiseWithResolvers = Promise.withResolvers<Mtproto.pong>();
+    // it can be rejected before being awaited below
+    drop(promiseWithResolvers.promise);
     await this.send(Mtproto.serializeObject(call), (messageId) => {
       this.#pendingPings.set(messageId, { call, promiseWithResolvers });
       return () => this.#pendingPings.delete(messageId);
-- 
2.43.0


From f37e8cf34f23f17a17658fd0f642fba84b44d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 06/70] fix: don't stop pinging after the clock is set back

---
 session/2_session_encrypted.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 20a9b2e..aeb3a1a 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -640,12 +640,12 @@ export class SessionEncrypted extends Session implements Session {
       this.#LpingLoop.debug("sending ping now");
     }
     signal.throwIfAborted();
-    const then = Date.now();
+    const then = performance.now(); // unaffected by clock changes
     try {
       await this.#sendPingDelayDisconnect(this.#pingInterval / SECOND + 15);
       this.#LpingLoop.debug("received pong");
     } finally {
-      this.#timeElapsed = Date.now() - then;
+      this.#timeElapsed = performance.now() - then;
       this.#LpingLoop.debug(`took ${this.#timeElapsed}`);
     }
     signal.throwIfAborted();
-- 
2.43.0


From 3a9ccd017e10c55f2314e1887d7d44e97153c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 07/70] fix: don't let an authorization key creation in
 progress undo disconnect()

---
 client/2_client_encrypted.ts | 93 +++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 27 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index c8e6c21..3716335 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -135,27 +135,45 @@ export class ClientEncrypted extends ClientAbstract {
 
   #connectPromise?: Promise<void>;
   override connect(): Promise<void> {
-    return this.#connectPromise ??= this.#connect().finally(() => this.#connectPromise = undefined);
+    if (this.#connectPromise === undefined) {
+      const connectPromise: Promise<void> = this.#connect().finally(() => {
+        if (this.#connectPromise === connectPromise) {
+          this.#connectPromise = undefined;
+        }
+      });
+      this.#connectPromise = connectPromise;
+    }
+    return this.#connectPromise;
   }
 
   async #connect() {
+    const disconnectCount = this.#disconnectCount;
     if (!this.authKey.byteLength) {
       await this.#createAuthKey();
     } else if (this.#isPerfectForwardSecrecyEnabled) {
       this.#L.debug("creating temporary auth key");
       await this.#createAuthKeyInner(true);
     }
+    this.#assertNotDisconnectedSince(disconnectCount);
     await super.connect();
 
     if (this.#isPerfectForwardSecrecyEnabled) {
       this.#isAuthKeyBound = false;
       await this.#bindTemporaryAuthKey();
+      this.#assertNotDisconnectedSince(disconnectCount);
       this.#refreshTemporaryAuthKey();
     } else {
       this.#isAuthKeyBound = true;
     }
   }
 
+  #disconnectCount = 0;
+  #assertNotDisconnectedSince(disconnectCount: number) {
+    if (this.#disconnectCount !== disconnectCount) {
+      throw new ConnectionError("The connection was disconnected.");
+    }
+  }
+
   async #bindTemporaryAuthKey() {
     const nonce = getRandomId();
     const expires_at = toUnixTimestamp(new Date()) + TEMPORARY_AUTH_KEY_TTL;
@@ -205,6 +223,12 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   override disconnect() {
+    ++this.#disconnectCount;
+    this.#connectPromise = undefined;
+    this.#createAuthKeyPromise = undefined;
+    for (const plain of this.#plainClients) {
+      plain.disconnect();
+    }
     super.disconnect();
     this.#temporaryAuthKeyRefreshLoop.abort();
     this.lastRequest = undefined;
@@ -217,39 +241,54 @@ export class ClientEncrypted extends ClientAbstract {
 
   #createAuthKeyPromise?: Promise<unknown>;
   #createAuthKey() {
-    return this.#createAuthKeyPromise ??= (this.#isPerfectForwardSecrecyEnabled ? Promise.all([this.#createAuthKeyInner(false), this.#createAuthKeyInner(true)]) : this.#createAuthKeyInner(false)).finally(() => {
-      this.#createAuthKeyPromise = undefined;
-    });
+    if (this.#createAuthKeyPromise === undefined) {
+      const createAuthKeyPromise: Promise<unknown> = (this.#isPerfectForwardSecrecyEnabled ? Promise.all([this.#createAuthKeyInner(false), this.#createAuthKeyInner(true)]) : this.#createAuthKeyInner(false)).finally(() => {
+        if (this.#createAuthKeyPromise === createAuthKeyPromise) {
+          this.#createAuthKeyPromise = undefined;
+        }
+      });
+      this.#createAuthKeyPromise = createAuthKeyPromise;
+    }
+    return this.#createAuthKeyPromise;
   }
+  #plainClients = new Set<ClientPlain>();
   async #createAuthKeyInner(isTemporary: boolean) {
+    const disconnectCount = this.#disconnectCount;
     let lastErr: unknown;
     let errored = false;
     const plain = new ClientPlain(this.#dc, this.#params);
-    for (let i = 0; i < ClientEncrypted.#AUTH_KEY_CREATION_MAX_TRIES; ++i) {
-      try {
-        await plain.connect();
-        const [authKey, serverSalt] = await plain.createAuthKey(isTemporary);
-        if (isTemporary) {
-          this.#temporaryAuthKey = authKey;
-          await this.session.setAuthKey(this.#temporaryAuthKey);
-          this.session.serverSalt = serverSalt;
-          this.#isConnectionInitialized = false;
-        } else {
-          await this.setAuthKey(authKey);
-        }
-        if (!this.#isPerfectForwardSecrecyEnabled) {
-          await this.session.setAuthKey(authKey);
-          this.session.serverSalt = serverSalt;
+    this.#plainClients.add(plain);
+    try {
+      for (let i = 0; i < ClientEncrypted.#AUTH_KEY_CREATION_MAX_TRIES; ++i) {
+        this.#assertNotDisconnectedSince(disconnectCount);
+        try {
+          await plain.connect();
+          const [authKey, serverSalt] = await plain.createAuthKey(isTemporary);
+          this.#assertNotDisconnectedSince(disconnectCount);
+          if (isTemporary) {
+            this.#temporaryAuthKey = authKey;
+            await this.session.setAuthKey(this.#temporaryAuthKey);
+            this.session.serverSalt = serverSalt;
+            this.#isConnectionInitialized = false;
+          } else {
+            await this.setAuthKey(authKey);
+          }
+          if (!this.#isPerfectForwardSecrecyEnabled) {
+            await this.session.setAuthKey(authKey);
+            this.session.serverSalt = serverSalt;
+          }
+          errored = false;
+          break;
+        } catch (err) {
+          errored = true;
+          lastErr = err;
+          this.#L.error("failed to create auth key:", err);
+        } finally {
+          plain.disconnect();
         }
-        errored = false;
-        break;
-      } catch (err) {
-        errored = true;
-        lastErr = err;
-        this.#L.error("failed to create auth key:", err);
-      } finally {
-        plain.disconnect();
       }
+    } finally {
+      this.#plainClients.delete(plain);
     }
     if (errored) {
       throw lastErr;
-- 
2.43.0


From 513c6821036e2f03492d170add4067fe108d64ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 08/70] fix: renew temporary authorization keys without
 blocking the receive loop, and use them only once bound

Reconnecting was awaited by the receive loop that had to receive the answer to
the binding, a failure of it was final, and other calls could be sent before the
binding.
---
 client/2_client_encrypted.ts | 60 +++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 3716335..4638b0b 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -148,6 +148,14 @@ export class ClientEncrypted extends ClientAbstract {
 
   async #connect() {
     const disconnectCount = this.#disconnectCount;
+    if (this.#isPerfectForwardSecrecyEnabled) {
+      if (this.isConnected && this.#isAuthKeyBound) {
+        return;
+      }
+      // the previous temporary auth key isn't used anymore
+      this.session.disconnect();
+      this.#isAuthKeyBound = false;
+    }
     if (!this.authKey.byteLength) {
       await this.#createAuthKey();
     } else if (this.#isPerfectForwardSecrecyEnabled) {
@@ -158,9 +166,17 @@ export class ClientEncrypted extends ClientAbstract {
     await super.connect();
 
     if (this.#isPerfectForwardSecrecyEnabled) {
-      this.#isAuthKeyBound = false;
-      await this.#bindTemporaryAuthKey();
-      this.#assertNotDisconnectedSince(disconnectCount);
+      try {
+        await this.#bindTemporaryAuthKey();
+        this.#assertNotDisconnectedSince(disconnectCount);
+      } catch (err) {
+        if (disconnectCount === this.#disconnectCount) {
+          // it cannot be used without being bound
+          this.session.disconnect();
+        }
+        throw err;
+      }
+      this.#isAuthKeyBound = true;
       this.#refreshTemporaryAuthKey();
     } else {
       this.#isAuthKeyBound = true;
@@ -198,7 +214,24 @@ export class ClientEncrypted extends ClientAbstract {
       nonce,
       encrypted_message,
       expires_at,
-    }), this.#isAuthKeyBound = true;
+    });
+  }
+
+  async #renewTemporaryAuthKey() {
+    this.#L.debug("reconnecting with a new temporary auth key");
+    this.disconnect();
+    const disconnectCount = this.#disconnectCount;
+    while (disconnectCount === this.#disconnectCount) {
+      try {
+        await this.connect();
+        return;
+      } catch (err) {
+        this.#L.error("failed to reconnect with a new temporary auth key:", err);
+      }
+      if (disconnectCount === this.#disconnectCount) {
+        await delay(3 * SECOND);
+      }
+    }
   }
 
   #temporaryAuthKeyRefreshLoop = new AbortableLoop(async (_loop, signal) => {
@@ -207,9 +240,7 @@ export class ClientEncrypted extends ClientAbstract {
     if (this.#temporaryAuthKeyExpiresAt - Date.now() > 5 * SECOND) {
       return;
     }
-    this.#L.debug("reconnecting with a new temporary auth key");
-    this.disconnect();
-    drop(this.connect());
+    drop(this.#renewTemporaryAuthKey());
   }, (loop, err) => {
     if (this.isDisconnected) {
       loop.abort();
@@ -313,6 +344,10 @@ export class ClientEncrypted extends ClientAbstract {
   lastRequest?: Date;
   async #send(function_: Api.AnyFunction | Mtproto.ping, onMessageId: (messageId: bigint) => () => void) {
     this.lastRequest = new Date();
+    if (this.#isPerfectForwardSecrecyEnabled && !this.#isAuthKeyBound && this.#connectPromise !== undefined && function_._ !== "auth.bindTempAuthKey") {
+      // nothing else can be sent before the temporary auth key is bound
+      await this.#connectPromise;
+    }
     let body: Uint8Array<ArrayBuffer>;
     if (Mtproto.is("ping", function_)) {
       body = Mtproto.serializeObject(function_);
@@ -388,15 +423,13 @@ export class ClientEncrypted extends ClientAbstract {
     return await sentRequest.promiseWithResolvers.promise as R;
   }
 
-  async #onTransportError(transportError: TransportError) {
+  #onTransportError(transportError: TransportError) {
     this.#L.error("transport error:", transportError);
     if (!this.#isPerfectForwardSecrecyEnabled) {
       return;
     }
     if (transportError.code === -404) {
-      this.#L.debug("reconnecting with a new temporary auth key");
-      this.disconnect();
-      await this.connect();
+      drop(this.#renewTemporaryAuthKey());
     }
   }
 
@@ -435,9 +468,8 @@ export class ClientEncrypted extends ClientAbstract {
 
   async #onRpcError(msgId: bigint, error: Mtproto.rpc_error) {
     if (error.error_message === "AUTH_KEY_PERM_EMPTY" || error.error_message === "ENCRYPTED_MESSAGE_INVALID") {
-      this.#L.debug("reconnecting with a new temporary auth key because of", error.error_message);
-      this.disconnect();
-      await this.connect();
+      this.#L.debug("the temporary auth key cannot be used because of", error.error_message);
+      drop(this.#renewTemporaryAuthKey());
     }
 
     const request = this.#sentRequests.get(msgId);
-- 
2.43.0


From 659296516180a326a9e5212eca6cacacad32323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 09/70] fix: don't send over connections whose transport isn't
 initialized yet

---
 session/1_session.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session/1_session.ts b/session/1_session.ts
index fc70282..a4f74d1 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -137,10 +137,11 @@ export abstract class Session {
   }
 
   get isConnected(): boolean {
-    return this.transport.connection.isConnected;
+    return this.#isTransportInitialized && this.transport.connection.isConnected;
   }
 
   #connectMutex = new Mutex();
+  #isTransportInitialized = false; // nothing can be sent before it is
   #disconnectCount = 0;
   async connect() {
     const disconnectCount = this.#disconnectCount;
@@ -151,6 +152,7 @@ export abstract class Session {
         this.#resolveConnectionStateChange();
         return;
       }
+      this.#isTransportInitialized = false;
       await this.transport.connection.open();
       try {
         this.#assertNotDisconnectedSince(disconnectCount);
@@ -166,6 +168,7 @@ export abstract class Session {
         }
         throw err;
       }
+      this.#isTransportInitialized = true;
       this.#lastConnect = new Date();
       this.#isDisconnected = false;
       this.#resolveConnectionStateChange();
-- 
2.43.0


From 12d39b6a5f2ab5f758db394856dcd225612c0372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 10/70] fix: keep reconnecting when a connect() with forward
 secrecy fails, and release callers on disconnect()

---
 client/2_client_encrypted.ts | 47 ++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 4638b0b..b3efcc9 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -134,9 +134,12 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   #connectPromise?: Promise<void>;
+  #rejectConnect?: (reason: unknown) => void;
   override connect(): Promise<void> {
     if (this.#connectPromise === undefined) {
-      const connectPromise: Promise<void> = this.#connect().finally(() => {
+      const { promise, reject } = Promise.withResolvers<never>();
+      this.#rejectConnect = reject;
+      const connectPromise: Promise<void> = Promise.race([this.#connect(), promise]).finally(() => {
         if (this.#connectPromise === connectPromise) {
           this.#connectPromise = undefined;
         }
@@ -152,37 +155,46 @@ export class ClientEncrypted extends ClientAbstract {
       if (this.isConnected && this.#isAuthKeyBound) {
         return;
       }
+      const wasDisconnected = this.isDisconnected;
       // the previous temporary auth key isn't used anymore
       this.session.disconnect();
       this.#isAuthKeyBound = false;
-    }
-    if (!this.authKey.byteLength) {
-      await this.#createAuthKey();
-    } else if (this.#isPerfectForwardSecrecyEnabled) {
-      this.#L.debug("creating temporary auth key");
-      await this.#createAuthKeyInner(true);
-    }
-    this.#assertNotDisconnectedSince(disconnectCount);
-    await super.connect();
-
-    if (this.#isPerfectForwardSecrecyEnabled) {
       try {
-        await this.#bindTemporaryAuthKey();
-        this.#assertNotDisconnectedSince(disconnectCount);
+        await this.#connectInner(disconnectCount);
       } catch (err) {
         if (disconnectCount === this.#disconnectCount) {
-          // it cannot be used without being bound
+          // the new one cannot be used without being bound
           this.session.disconnect();
+          if (!wasDisconnected) {
+            drop(this.#connectUntilConnected());
+          }
         }
         throw err;
       }
       this.#isAuthKeyBound = true;
       this.#refreshTemporaryAuthKey();
     } else {
+      await this.#connectInner(disconnectCount);
       this.#isAuthKeyBound = true;
     }
   }
 
+  async #connectInner(disconnectCount: number) {
+    if (!this.authKey.byteLength) {
+      await this.#createAuthKey();
+    } else if (this.#isPerfectForwardSecrecyEnabled) {
+      this.#L.debug("creating temporary auth key");
+      await this.#createAuthKeyInner(true);
+    }
+    this.#assertNotDisconnectedSince(disconnectCount);
+    await super.connect();
+
+    if (this.#isPerfectForwardSecrecyEnabled) {
+      await this.#bindTemporaryAuthKey();
+      this.#assertNotDisconnectedSince(disconnectCount);
+    }
+  }
+
   #disconnectCount = 0;
   #assertNotDisconnectedSince(disconnectCount: number) {
     if (this.#disconnectCount !== disconnectCount) {
@@ -220,6 +232,10 @@ export class ClientEncrypted extends ClientAbstract {
   async #renewTemporaryAuthKey() {
     this.#L.debug("reconnecting with a new temporary auth key");
     this.disconnect();
+    await this.#connectUntilConnected();
+  }
+
+  async #connectUntilConnected() {
     const disconnectCount = this.#disconnectCount;
     while (disconnectCount === this.#disconnectCount) {
       try {
@@ -256,6 +272,7 @@ export class ClientEncrypted extends ClientAbstract {
   override disconnect() {
     ++this.#disconnectCount;
     this.#connectPromise = undefined;
+    this.#rejectConnect?.(new ConnectionError("The connection was disconnected."));
     this.#createAuthKeyPromise = undefined;
     for (const plain of this.#plainClients) {
       plain.disconnect();
-- 
2.43.0


From 810ea2cefe1b9a93db93faa1e4ec2d5a08335306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 11/70] fix: don't let reads in progress or cache eviction hide
 values set in the storage

---
 client/0_storage_operations.ts | 56 +++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 556ca19..1a875de 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -717,13 +717,18 @@ class StorageMap<K extends StorageKeyPart[], V> {
   #storage: Storage;
   #path: StorageKeyPart;
 
+  #pendingUpdates = new Map<string, V>();
+  #committingUpdates = new Map<string, V>();
+  #cache: Map<string, V | null>;
+  #generation = 0n;
+
   constructor(storage: Storage, path: StorageKeyPart) {
     this.#storage = storage;
     this.#path = path;
+    // when there is nothing behind the cache, nothing may be evicted from it
+    this.#cache = storage.isMemory ? new Map() : new LruCache(20_000);
   }
 
-  #pendingUpdates = new Map<string, V>();
-  #cache = new LruCache<string, V | null>(20_000);
   set(key: K, value: V) {
     const key_ = toString(key);
     this.#cache.set(key_, value);
@@ -739,36 +744,47 @@ class StorageMap<K extends StorageKeyPart[], V> {
   reset() {
     this.#pendingUpdates.clear();
     this.#cache.clear();
+    ++this.#generation;
   }
 
-  getSync(key: K): V | null {
-    const value = this.#cache.get(toString(key));
-    if (value === undefined) {
-      return null;
-    } else {
-      return value;
+  #peek(key: string): V | null | undefined {
+    for (const values of [this.#cache, this.#pendingUpdates, this.#committingUpdates]) {
+      const value = values.get(key);
+      if (value !== undefined) {
+        return value;
+      }
     }
   }
 
+  getSync(key: K): V | null {
+    return this.#peek(toString(key)) ?? null;
+  }
+
   async clear() {
     await awaitablePooledMap(10, await this.#storage.getMany({ prefix: [this.#path] }), async ([key]) => await this.#storage.set(key, null));
   }
 
   async get(key: K): Promise<V | null> {
     const key_ = toString(key);
-    let value = this.#cache.get(key_);
-    if (value === undefined) {
-      value = await this.#storage.get<V>([this.#path, ...key]);
-      this.#cache.set(key_, value);
+    while (true) {
+      const value = this.#peek(key_);
+      if (value !== undefined) {
+        return value;
+      }
+      const generation = this.#generation;
+      const storedValue = await this.#storage.get<V>([this.#path, ...key]);
+      if (this.#generation === generation && this.#peek(key_) === undefined) {
+        this.#cache.set(key_, storedValue);
+        return storedValue;
+      }
     }
-    return value;
   }
 
   async commit() {
     if (this.#storage.isMemory) {
       return;
     }
-    const pendingUpdates = this.#pendingUpdates;
+    const pendingUpdates = this.#committingUpdates = this.#pendingUpdates;
     this.#pendingUpdates = new Map();
     try {
       await awaitablePooledMap(2, pendingUpdates, async ([key, value]) => await this.#storage.set([this.#path, ...fromString(key) as StorageKeyPart[]], value));
@@ -779,6 +795,8 @@ class StorageMap<K extends StorageKeyPart[], V> {
         }
       }
       throw err;
+    } finally {
+      this.#committingUpdates = new Map();
     }
   }
 }
@@ -797,9 +815,9 @@ class StorageValue<T> {
   #value?: T | null;
   set(value: T | null) {
     this.#value = value;
+    ++this.#revision;
     if (!this.#storage.isMemory) {
       this.#isUpdatePending = true;
-      ++this.#revision;
     }
   }
 
@@ -818,8 +836,12 @@ class StorageValue<T> {
   }
 
   async get(): Promise<T | null> {
-    if (this.#value === undefined) {
-      this.#value = await this.#storage.get(this.#key);
+    while (this.#value === undefined) {
+      const revision = this.#revision;
+      const value = await this.#storage.get<T>(this.#key);
+      if (this.#revision === revision) {
+        this.#value = value;
+      }
     }
     return this.#value;
   }
-- 
2.43.0


From 2984f6e84092cda07ce1249a82025701445875c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:56 +0000
Subject: [PATCH 12/70] fix: support null and undefined fields in values stored
 as strings

---
 storage/1_utilities.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 3a5ab42..c242a76 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -31,6 +31,7 @@ const ValueType_ = {
   Uint8Array: 5,
   Array: 6,
   Map: 7,
+  Null: 8,
 } as const;
 export const ValueType: Readonly<typeof ValueType_> = Object.freeze(ValueType_);
 
@@ -56,7 +57,9 @@ export function toString(value: unknown): string {
     });
     return `${ValueType.Array}${items.join("")}`;
   } else if (typeof value === "object" && value !== null && Object.getPrototypeOf(value) === Object.prototype) {
-    return `${ValueType.Map}${toString(Object.entries(value)).slice(1)}`;
+    return `${ValueType.Map}${toString(Object.entries(value).filter(([, v]) => v !== undefined)).slice(1)}`;
+  } else if (value === null) {
+    return `${ValueType.Null}`;
   } else {
     unreachable();
   }
@@ -94,6 +97,8 @@ export function fromString<T>(string: string): T {
     case ValueType.Map:
       // deno-lint-ignore no-explicit-any
       return Object.fromEntries(fromString(`${ValueType.Array}${value}`) as [string, any]) as T;
+    case ValueType.Null:
+      return null as T;
   }
 }
 
-- 
2.43.0


From d52879c97cb86ca21e874c8fa397cadccd3f22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 13/70] fix: don't fail to list the values of a web storage
 that has branches

---
 storage/1_utilities.ts                  | 18 ++++++++++
 storage/2_storage_local_storage.node.ts | 47 ++++++++++---------------
 storage/2_storage_local_storage.ts      | 47 ++++++++++---------------
 storage/2_storage_session_storage.ts    | 47 ++++++++++---------------
 4 files changed, 72 insertions(+), 87 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index c242a76..e6b5fbb 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -102,6 +102,24 @@ export function fromString<T>(string: string): T {
   }
 }
 
+/**
+ * Parses a key produced by prepending a prefix to the result of `toString()`.
+ *
+ * @returns The parts of the key, or `null` if the key was produced using another prefix.
+ */
+export function parsePrefixedKey(prefix: string, string: string): StorageKeyPart[] | null {
+  if (!string.startsWith(`${prefix}${ValueType.Array}`)) {
+    return null;
+  }
+  string = string.slice(prefix.length);
+  try {
+    const key = fromString<StorageKeyPart[]>(string);
+    return toString(key) === string ? key : null;
+  } catch {
+    return null;
+  }
+}
+
 type FixedBigInt = [typeof ValueType.BigInt, -1 | 1, number, ...number[]];
 
 function fixBigInt(value: bigint): FixedBigInt {
diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 5ced7f1..8ead781 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -20,7 +20,7 @@
 
 import { LocalStorage } from "node-localstorage";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, parsePrefixedKey, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   #prefix: string;
@@ -72,43 +72,32 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(this.#storage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+      .map(([key, value]) => ({ parts: parsePrefixedKey(this.prefix, key), value }))
+      .filter((v): v is { parts: StorageKeyPart[]; value: string } => v.parts !== null)
+      .sort((a, b) => compareKeys(a.parts, b.parts));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const { parts, value } of entries) {
+      if ("prefix" in filter) {
+        for (const [i, p] of filter.prefix.entries()) {
+          if (toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 1908bc2..371b44c 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -19,7 +19,7 @@
  */
 
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, parsePrefixedKey, toString } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   readonly #prefix: string;
@@ -72,43 +72,32 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(localStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+      .map(([key, value]) => ({ parts: parsePrefixedKey(this.prefix, key), value }))
+      .filter((v): v is { parts: StorageKeyPart[]; value: string } => v.parts !== null)
+      .sort((a, b) => compareKeys(a.parts, b.parts));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const { parts, value } of entries) {
+      if ("prefix" in filter) {
+        for (const [i, p] of filter.prefix.entries()) {
+          if (toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index eea0c55..7b2c3ff 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -20,7 +20,7 @@
 
 import type { MaybePromise } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, parsePrefixedKey, toString } from "./1_utilities.ts";
 
 export class StorageSessionStorage implements Storage {
   readonly #prefix: string;
@@ -73,43 +73,32 @@ export class StorageSessionStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(sessionStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
-      .sort(([a], [b]) =>
-        compareKeys(
-          fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-          fromString<StorageKeyPart[]>(b.slice(this.prefix.length)),
-        )
-      );
+      .map(([key, value]) => ({ parts: parsePrefixedKey(this.prefix, key), value }))
+      .filter((v): v is { parts: StorageKeyPart[]; value: string } => v.parts !== null)
+      .sort((a, b) => compareKeys(a.parts, b.parts));
     if (params?.reverse) {
       entries.reverse();
     }
     const limit = params?.limit !== undefined ? (params.limit <= 0 ? 1 : params.limit) : undefined;
     let yielded = 0;
-    entries: for (let [key, value] of entries) {
-      if (!key.startsWith(this.prefix)) {
-        continue;
-      }
-      key = key.slice(this.prefix.length);
-      const parts = fromString(key);
-      if (Array.isArray(parts)) {
-        if ("prefix" in filter) {
-          for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
-              continue entries;
-            }
-          }
-        } else {
-          if (!isInRange(parts, filter.start, filter.end)) {
-            continue;
+    entries: for (const { parts, value } of entries) {
+      if ("prefix" in filter) {
+        for (const [i, p] of filter.prefix.entries()) {
+          if (toString(p) !== toString(parts[i])) {
+            continue entries;
           }
         }
-
-        yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
-        ++yielded;
-        if (limit !== undefined && yielded >= limit) {
-          return;
+      } else {
+        if (!isInRange(parts, filter.start, filter.end)) {
+          continue;
         }
       }
+
+      yield [parts, fromString(value)] as [readonly StorageKeyPart[], T];
+      ++yielded;
+      if (limit !== undefined && yielded >= limit) {
+        return;
+      }
     }
   }
 
-- 
2.43.0


From 1b34734b542b2eaa8cfbd8dccf47663de44a5248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 14/70] fix: restore stored updates and messages when they are
 listed from a storage that serializes

---
 client/0_storage_operations.ts | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 1a875de..8290049 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -263,13 +263,19 @@ export class StorageOperations {
   async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
     // @ts-ignore: TBD
     const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
+    // @ts-ignore: TBD
+    return await this.#restoreTlObject(buffer);
+  }
+
+  /** Restores an object from what was stored for it by `setTlObject`. */
+  async #restoreTlObject(buffer: Api.AnyType | Uint8Array | [string, Uint8Array] | null): Promise<Api.DeserializedType | null> {
     if (buffer !== null) {
       if (buffer instanceof Uint8Array) {
-        return Api.deserializeType(X, rleDecode(buffer));
+        return await Api.deserializeType(X, rleDecode(buffer));
       } else if (Array.isArray(buffer)) {
-        return Api.deserializeType(buffer[0], rleDecode(buffer[1]));
+        return await Api.deserializeType(buffer[0], rleDecode(buffer[1]));
       } else {
-        return buffer;
+        return buffer as Api.DeserializedType;
       }
     } else {
       return null;
@@ -360,8 +366,8 @@ export class StorageOperations {
     }
     ++limit;
     const messages = new Array<Api.Message>();
-    for await (const [_, buffer] of await this.#storage.getMany<Uint8Array>({ start: K.messages.message(chatId, 0), end: K.messages.message(chatId, offsetId) }, { limit, reverse: true })) {
-      const message = await this.getTlObject(buffer) as Api.Message;
+    for await (const [_, buffer] of await this.#storage.getMany<[string, Uint8Array]>({ start: K.messages.message(chatId, 0), end: K.messages.message(chatId, offsetId) }, { limit, reverse: true })) {
+      const message = await this.#restoreTlObject(buffer) as Api.Message;
       if ("id" in message && message.id === offsetId) {
         continue;
       }
@@ -515,8 +521,8 @@ export class StorageOperations {
   }
 
   async getFirstUpdate(boxId: bigint): Promise<[readonly StorageKeyPart[], Api.Update] | null> {
-    for await (const [key, update] of await this.#storage.getMany<Uint8Array>({ prefix: K.updates.updates(boxId) }, { limit: 1 })) {
-      return [key, (await this.getTlObject(update)) as Api.Update];
+    for await (const [key, update] of await this.#storage.getMany<[string, Uint8Array]>({ prefix: K.updates.updates(boxId) }, { limit: 1 })) {
+      return [key, (await this.#restoreTlObject(update)) as Api.Update];
     }
     return null;
   }
-- 
2.43.0


From 3bbac86a0076c0b64002c7a66dfe6d3d17365058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 15/70] fix: don't stop the periodic commits after the clock is
 set back

---
 client/0_storage_operations.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 8290049..403bda9 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -232,7 +232,7 @@ export class StorageOperations {
       } else if (this.#lastCommit === null) {
         this.#L.debug("committing because there is no last commit");
         commit = true;
-      } else if (Date.now() - this.#lastCommit.getTime() >= 5 * MINUTE) {
+      } else if (Math.abs(Date.now() - this.#lastCommit.getTime()) >= 5 * MINUTE) {
         this.#L.debug("committing because last commit is older than threshold");
         commit = true;
       } else {
-- 
2.43.0


From 045a7886be611a1dc746dfd7245eeebbe0f3196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 16/70] fix: verify the server's answers when creating an
 authorization key

---
 client/1_client_plain.ts | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 919b23a..505ec79 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -20,7 +20,7 @@
 
 import { assert, assertEquals, concat, ige256Decrypt, ige256Encrypt, unreachable } from "../0_deps.ts";
 import { factorize, getLogger, getRandomInt, intFromBytes, intToBytes, modExp, rsaPad, sha1 } from "../1_utilities.ts";
-import { Mtproto } from "../2_tl.ts";
+import { Mtproto, TLReader } from "../2_tl.ts";
 import { type DC, getDcId } from "../3_transport.ts";
 import { PUBLIC_KEYS, type PublicKeys, TEMPORARY_AUTH_KEY_TTL } from "../4_constants.ts";
 import { PublicKeyError } from "../4_errors.ts";
@@ -60,10 +60,11 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     for (let i = 0; i < 10; i++) {
       try {
         LcreateAuthKey.debug(`req_pq_multi [${i + 1}]`);
-        resPq = await this.invoke({ _: "req_pq_multi", nonce });
+        const result = await this.invoke({ _: "req_pq_multi", nonce });
 
-        assert(Mtproto.is("resPQ", resPq));
-        assertEquals(resPq.nonce, nonce);
+        assert(Mtproto.is("resPQ", result));
+        assertEquals(result.nonce, nonce);
+        resPq = result;
         LcreateAuthKey.debug("got res_pq");
         break;
       } catch (err) {
@@ -141,6 +142,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     });
 
     assert(Mtproto.is("server_DH_params_ok", dhParams));
+    assertEquals(dhParams.nonce, nonce);
+    assertEquals(dhParams.server_nonce, serverNonce);
     LcreateAuthKey.debug("got server_DH_params_ok");
 
     const newNonce_ = intToBytes(newNonce, 32);
@@ -154,7 +157,12 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const tmpAesIv = concat([sha1ServerNonceNewNonce.subarray(12, 20), sha1NewNonce, newNonce_.subarray(0, 4)]);
     const answerWithHash = ige256Decrypt(dhParams.encrypted_answer, tmpAesKey, tmpAesIv);
 
-    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerWithHash.slice(20));
+    const answerReader = new TLReader(answerWithHash.subarray(20));
+    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerReader);
+    const answer = answerWithHash.slice(20, answerWithHash.byteLength - answerReader.buffer.byteLength);
+    assertEquals(answerWithHash.slice(0, 20), await sha1(answer));
+    assertEquals(dhInnerData.nonce, nonce);
+    assertEquals(dhInnerData.server_nonce, serverNonce);
     const { g, g_a: gA_, dh_prime: dhPrime_ } = dhInnerData;
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
@@ -185,6 +193,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
       encrypted_data: encryptedData,
     });
     assert(Mtproto.is("dh_gen_ok", dhGenOk));
+    assertEquals(dhGenOk.nonce, nonce);
+    assertEquals(dhGenOk.server_nonce, serverNonce);
     LcreateAuthKey.debug("got dh_gen_ok");
 
     const serverNonceSlice = serverNonce_.subarray(0, 8);
@@ -193,6 +203,10 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const authKey_ = modExp(gA, b, dhPrime);
     const authKey = intToBytes(authKey_, 256, { byteOrder: "big", isSigned: false });
 
+    const authKeyAuxHash = (await sha1(authKey)).subarray(0, 8);
+    const newNonceHash1 = (await sha1(concat([newNonce_, new Uint8Array([1]), authKeyAuxHash]))).subarray(4, 20);
+    assertEquals(dhGenOk.new_nonce_hash1, intFromBytes(newNonceHash1));
+
     LcreateAuthKey.debug("auth key created");
 
     return [authKey, intFromBytes(salt)];
-- 
2.43.0


From 1c5b0bd8c379a1b947e223f6c9ad52aa19bbde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 17/70] fix: don't let an earlier connection's reads and writes
 into the next one in ConnectionTCP for node

---
 connection/1_connection_tcp.node.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/connection/1_connection_tcp.node.ts b/connection/1_connection_tcp.node.ts
index 40dd876..ffb1913 100644
--- a/connection/1_connection_tcp.node.ts
+++ b/connection/1_connection_tcp.node.ts
@@ -58,6 +58,9 @@ export class ConnectionTCP implements Connection {
       return;
     }
 
+    // nothing of an earlier connection may get into this one
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
@@ -113,17 +116,18 @@ export class ConnectionTCP implements Connection {
     return this.#socket?.readyState === "open";
   }
 
-  #assertConnected() {
-    if (!this.isConnected) {
+  #assertConnected(socket = this.#socket) {
+    if (!this.isConnected || this.#socket !== socket) {
       throw errConnectionNotOpen;
     }
   }
 
   async read(p: Uint8Array) {
     this.#assertConnected();
+    const socket = this.#socket;
     const unlock = await this.#rMutex.lock();
     try {
-      this.#assertConnected();
+      this.#assertConnected(socket);
       if (this.#buffer.length < p.byteLength) {
         await new Promise<void>((resolve, reject) => this.#nextResolve = [p.byteLength, { resolve, reject }]);
       }
@@ -135,12 +139,13 @@ export class ConnectionTCP implements Connection {
 
   async write(p: Uint8Array) {
     this.#assertConnected();
+    const socket = this.#socket;
     const unlock = await this.#wMutex.lock();
     try {
-      this.#assertConnected();
+      this.#assertConnected(socket);
       try {
         await new Promise<void>((resolve, reject) => {
-          this.#socket!.write(
+          socket!.write(
             p,
             (err) => {
               (err === undefined || err === null) ? resolve() : reject(err);
-- 
2.43.0


From 989cfdf6276453af983631f4821a7ae0dcf45876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 18/70] fix: don't let an earlier connection's reads and writes
 into the next one in ConnectionSocks5

---
 connection/1_connection_socks5.node.ts | 13 ++++---
 connection/1_connection_socks5.ts      | 47 +++++++++++++++++++-------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/connection/1_connection_socks5.node.ts b/connection/1_connection_socks5.node.ts
index ad58be9..a29ce92 100644
--- a/connection/1_connection_socks5.node.ts
+++ b/connection/1_connection_socks5.node.ts
@@ -125,7 +125,8 @@ export class ConnectionSocks5 implements Connection {
       return;
     }
 
-    this.#isReady = false;
+    // nothing of an earlier connection may get into this one
+    this.#cleanupSocket();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
@@ -264,17 +265,18 @@ export class ConnectionSocks5 implements Connection {
     return this.#isReady && this.#socket?.readyState === "open";
   }
 
-  #assertConnected() {
-    if (!this.isConnected) {
+  #assertConnected(socket = this.#socket) {
+    if (!this.isConnected || this.#socket !== socket) {
       throw errConnectionNotOpen;
     }
   }
 
   async read(p: Uint8Array) {
     this.#assertConnected();
+    const socket = this.#socket;
     const unlock = await this.#rMutex.lock();
     try {
-      this.#assertConnected();
+      this.#assertConnected(socket);
       await this.#readFromSocket(p);
     } finally {
       unlock();
@@ -283,9 +285,10 @@ export class ConnectionSocks5 implements Connection {
 
   async write(p: Uint8Array) {
     this.#assertConnected();
+    const socket = this.#socket;
     const unlock = await this.#wMutex.lock();
     try {
-      this.#assertConnected();
+      this.#assertConnected(socket);
       try {
         await this.#writeToSocket(p);
       } catch (err) {
diff --git a/connection/1_connection_socks5.ts b/connection/1_connection_socks5.ts
index 8ed0de0..ae6917a 100644
--- a/connection/1_connection_socks5.ts
+++ b/connection/1_connection_socks5.ts
@@ -70,12 +70,28 @@ export class ConnectionSocks5 implements Connection {
     return !!this.#connection && this.#canRead && this.#canWrite;
   }
 
-  #assertConnected() {
-    if (!this.isConnected) {
+  #assertConnected(connection = this.#connection) {
+    if (!this.isConnected || this.#connection !== connection) {
       throw new ConnectionError("The connection is not open.");
     }
   }
 
+  #onConnectionLost(connection: Deno.Conn) {
+    if (this.#connection === connection) {
+      this.#canRead = this.#canWrite = false;
+      this.#connection = undefined;
+      try {
+        connection.close();
+      } catch {
+        //
+      }
+    }
+    // otherwise it was closed or replaced meanwhile
+    if (this.#connection === undefined) {
+      this.stateChangeHandler?.(false);
+    }
+  }
+
   async #readFromConnection(connection: Deno.Conn, p: Uint8Array) {
     let offset = 0;
 
@@ -207,14 +223,17 @@ export class ConnectionSocks5 implements Connection {
 
   async read(p: Uint8Array) {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#rMutex.lock();
 
     try {
-      await this.#readFromConnection(this.#connection!, p);
-    } catch {
-      this.#canRead = false;
-      this.stateChangeHandler?.(false);
-      throw new ConnectionError("The connection was closed.");
+      this.#assertConnected(connection);
+      try {
+        await this.#readFromConnection(connection, p);
+      } catch (err) {
+        this.#onConnectionLost(connection);
+        throw err;
+      }
     } finally {
       unlock();
     }
@@ -222,14 +241,16 @@ export class ConnectionSocks5 implements Connection {
 
   async write(p: Uint8Array) {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#wMutex.lock();
     try {
-      this.#assertConnected();
-      await this.#writeToConnection(this.#connection!, p);
-    } catch {
-      this.#canWrite = false;
-      this.stateChangeHandler?.(false);
-      throw new ConnectionError("The connection was closed.");
+      this.#assertConnected(connection);
+      try {
+        await this.#writeToConnection(connection, p);
+      } catch (err) {
+        this.#onConnectionLost(connection);
+        throw err;
+      }
     } finally {
       unlock();
     }
-- 
2.43.0


From 4f79af00059a2d849a1329ebb013d9422cbaf7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 19/70] fix: reject SOCKS5 replies with an unknown address type

---
 connection/1_connection_socks5.node.ts | 2 ++
 connection/1_connection_socks5.ts      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/connection/1_connection_socks5.node.ts b/connection/1_connection_socks5.node.ts
index a29ce92..4f14e3d 100644
--- a/connection/1_connection_socks5.node.ts
+++ b/connection/1_connection_socks5.node.ts
@@ -247,6 +247,8 @@ export class ConnectionSocks5 implements Connection {
           await this.#readFromSocket(domainName);
           break;
         }
+        default:
+          throw new ConnectionError("Connection with SOCKS5 server failed.");
       }
 
       const port = new Uint8Array(2);
diff --git a/connection/1_connection_socks5.ts b/connection/1_connection_socks5.ts
index ae6917a..f07db81 100644
--- a/connection/1_connection_socks5.ts
+++ b/connection/1_connection_socks5.ts
@@ -200,6 +200,8 @@ export class ConnectionSocks5 implements Connection {
           await this.#readFromConnection(connection, domainName);
           break;
         }
+        default:
+          throw new ConnectionError("Connection with SOCKS5 server failed.");
       }
 
       const port = new Uint8Array(2);
-- 
2.43.0


From 87c31c531ad4f5c06465b135c943386ffc58c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 20/70] fix: don't let an earlier connection's reads and writes
 into the next one in ConnectionTLS, and close it when it cannot be followed

---
 connection/1_connection_tls.node.ts | 10 +++-
 connection/1_connection_tls.ts      | 87 +++++++++++++++++------------
 2 files changed, 60 insertions(+), 37 deletions(-)

diff --git a/connection/1_connection_tls.node.ts b/connection/1_connection_tls.node.ts
index 4d2062b..5a1ddf9 100644
--- a/connection/1_connection_tls.node.ts
+++ b/connection/1_connection_tls.node.ts
@@ -198,8 +198,8 @@ export class ConnectionTLS implements Connection {
     return this.#isReady && this.#socket?.readyState === "open";
   }
 
-  #assertConnected() {
-    if (!this.isConnected) {
+  #assertConnected(socket = this.#socket) {
+    if (!this.isConnected || this.#socket !== socket) {
       throw errConnectionNotOpen;
     }
   }
@@ -210,6 +210,8 @@ export class ConnectionTLS implements Connection {
     const header = new Uint8Array(HEADER_LENGTH);
     await this.#read(header);
     if (!startsWith(header, new Uint8Array([0x17, 0x03, 0x03]))) {
+      // the stream cannot be followed anymore
+      this.#socket!.destroy();
       throw new TypeError("Failed to read TLS packet.");
     }
 
@@ -253,8 +255,10 @@ export class ConnectionTLS implements Connection {
 
   async read(p: Uint8Array): Promise<void> {
     this.#assertConnected();
+    const socket = this.#socket;
     const unlock = await this.#rMutex.lock();
     try {
+      this.#assertConnected(socket);
       while (this.#packetBuffer.length < p.byteLength) {
         await this.#readPacket();
       }
@@ -266,6 +270,7 @@ export class ConnectionTLS implements Connection {
 
   async write(p: Uint8Array): Promise<void> {
     this.#assertConnected();
+    const socket = this.#socket;
     const unlock = await this.#wMutex.lock();
     try {
       let offset = 0;
@@ -275,6 +280,7 @@ export class ConnectionTLS implements Connection {
           break;
         }
 
+        this.#assertConnected(socket);
         await this.#writePacket(packet);
         offset += packet.byteLength;
       }
diff --git a/connection/1_connection_tls.ts b/connection/1_connection_tls.ts
index fd66714..13344dc 100644
--- a/connection/1_connection_tls.ts
+++ b/connection/1_connection_tls.ts
@@ -55,32 +55,40 @@ export class ConnectionTLS implements Connection {
     return !!this.#connection && this.#canRead && this.#canWrite;
   }
 
-  #assertConnected() {
-    if (!this.isConnected) {
+  #assertConnected(connection = this.#connection) {
+    if (!this.isConnected || this.#connection !== connection) {
       throw new ConnectionError("The connection is not open.");
     }
   }
 
-  async #read(array: Uint8Array) {
-    let offset = 0;
-    try {
-      while (offset < array.byteLength) {
-        const n = await this.#connection!.read(array.subarray(offset));
-        if (n === null) {
-          this.#canRead = false;
-          this.stateChangeHandler?.(false);
-          throw new ConnectionError("The connection is not open.");
-        }
-        if (n <= 0) {
-          continue;
-        }
-        this.callback?.read(n);
-        offset += n;
+  #onConnectionLost(connection: Deno.Conn) {
+    if (this.#connection === connection) {
+      this.#canRead = this.#canWrite = false;
+      this.#connection = undefined;
+      try {
+        connection.close();
+      } catch {
+        //
       }
-    } catch (err) {
+    }
+    // otherwise it was closed or replaced meanwhile
+    if (this.#connection === undefined) {
       this.stateChangeHandler?.(false);
-      this.#canRead = false;
-      throw err;
+    }
+  }
+
+  async #read(connection: Deno.Conn, array: Uint8Array) {
+    let offset = 0;
+    while (offset < array.byteLength) {
+      const n = await connection.read(array.subarray(offset));
+      if (n === null) {
+        throw new ConnectionError("The connection is not open.");
+      }
+      if (n <= 0) {
+        continue;
+      }
+      this.callback?.read(n);
+      offset += n;
     }
   }
 
@@ -170,20 +178,21 @@ export class ConnectionTLS implements Connection {
     }
   }
 
-  async #readPacket() {
+  async #readPacket(connection: Deno.Conn) {
     const header = new Uint8Array(HEADER_LENGTH);
-    await this.#read(header);
+    await this.#read(connection, header);
     if (!startsWith(header, new Uint8Array([0x17, 0x03, 0x03]))) {
       throw new TypeError("Failed to read TLS packet.");
     }
 
     const length = new DataView(header.buffer).getUint16(3);
     const packet = new Uint8Array(length);
-    await this.#read(packet);
+    await this.#read(connection, packet);
+    this.#assertConnected(connection);
     this.#buffer.push(packet);
   }
 
-  async #writePacket(packet: Uint8Array) {
+  async #writePacket(connection: Deno.Conn, packet: Uint8Array) {
     const header = new Uint8Array([0x17, 0x03, 0x03, 0x00, 0x00]);
     new DataView(header.buffer).setUint16(3, packet.byteLength);
     let data = concat([header, packet]);
@@ -191,22 +200,23 @@ export class ConnectionTLS implements Connection {
       this.#isFirstWrite = false;
       data = concat([new Uint8Array([0x14, 0x03, 0x03, 0x00, 0x01, 0x01]), data]);
     }
-    try {
-      await writeAll(this.#connection!, data);
-      this.callback?.write(data.byteLength);
-    } catch (err) {
-      this.#canWrite = false;
-      this.stateChangeHandler?.(false);
-      throw err;
-    }
+    await writeAll(connection, data);
+    this.callback?.write(data.byteLength);
   }
 
   async read(p: Uint8Array): Promise<void> {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#rMutex.lock();
     try {
-      while (this.#buffer.length < p.byteLength) {
-        await this.#readPacket();
+      this.#assertConnected(connection);
+      try {
+        while (this.#buffer.length < p.byteLength) {
+          await this.#readPacket(connection);
+        }
+      } catch (err) {
+        this.#onConnectionLost(connection);
+        throw err;
       }
       this.#buffer.read(p);
     } finally {
@@ -216,6 +226,7 @@ export class ConnectionTLS implements Connection {
 
   async write(p: Uint8Array): Promise<void> {
     this.#assertConnected();
+    const connection = this.#connection!;
     const unlock = await this.#wMutex.lock();
     try {
       let offset = 0;
@@ -225,7 +236,13 @@ export class ConnectionTLS implements Connection {
           break;
         }
 
-        await this.#writePacket(packet);
+        this.#assertConnected(connection);
+        try {
+          await this.#writePacket(connection, packet);
+        } catch (err) {
+          this.#onConnectionLost(connection);
+          throw err;
+        }
         offset += packet.byteLength;
       }
     } finally {
-- 
2.43.0


From 0c967689e123b2f281f8bac300a761824aa886ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 21/70] fix: reject pending reads when a WebSocket connection
 is reopened before it is closed

---
 connection/1_connection_web_socket.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection/1_connection_web_socket.ts b/connection/1_connection_web_socket.ts
index 9c7af56..909d889 100644
--- a/connection/1_connection_web_socket.ts
+++ b/connection/1_connection_web_socket.ts
@@ -41,6 +41,8 @@ export class ConnectionWebSocket implements Connection {
 
   #initWs() {
     return new Promise<void>((resolve, reject) => {
+      // nothing of an earlier connection may get into this one
+      this.#rejectRead();
       this.#buffer.clear();
       const webSocket = new WebSocket(this.#url, "binary");
       webSocket.binaryType = "arraybuffer";
-- 
2.43.0


From ad9973e65c3206af0b4543ace3957c7a075fc6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 22/70] fix: don't take what is left of an old session's
 container for answers in the new session

---
 session/2_session_encrypted.ts | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index aeb3a1a..26a778d 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -482,7 +482,7 @@ export class SessionEncrypted extends Session implements Session {
   }
 
   //// RECEIVE LOOP HANDLERS ////
-  async #onMessage(msgId: bigint, body: Uint8Array, containerId: bigint | null) {
+  async #onMessage(msgId: bigint, body: Uint8Array, containerId: bigint | null, sessionId = this.#id) {
     this.#LreceiveLoop.debug("received message with ID", msgId, "and size", body.byteLength, "inside", ...(containerId === null ? ["no container"] : ["container", containerId]));
     const logger = this.#LreceiveLoop.branch(String(msgId));
     let reader = new TLReader(body);
@@ -492,17 +492,25 @@ export class SessionEncrypted extends Session implements Session {
       reader = new TLReader(await gunzip(reader.readBytes()));
       id = reader.readInt32(false);
     }
+    // the session may have been invalidated meanwhile, in which case only the updates are of use
     if (id === RPC_RESULT) {
-      await this.#onRpcResult(msgId, reader.buffer, logger);
+      if (this.#id === sessionId) {
+        await this.#onRpcResult(msgId, reader.buffer, logger, sessionId);
+      }
       return;
     }
     if (!Mtproto.schema.identifierToName[id]) {
       logger.debug("identified body as a non-MTProto constructor");
-      this.#toAcknowledge.push(msgId);
+      if (this.#id === sessionId) {
+        this.#toAcknowledge.push(msgId);
+      }
       reader.unreadInt32();
       await this.handlers.onUpdate?.(reader.buffer);
       return;
     }
+    if (this.#id !== sessionId) {
+      return;
+    }
     let type: Mtproto.DeserializedType;
     try {
       reader.unreadInt32();
@@ -529,7 +537,7 @@ export class SessionEncrypted extends Session implements Session {
     }
   }
 
-  async #onRpcResult(msgId: bigint, body: Uint8Array, logger: Logger) {
+  async #onRpcResult(msgId: bigint, body: Uint8Array, logger: Logger, sessionId: bigint) {
     logger.debug("received rpc_result");
     this.#toAcknowledge.push(msgId);
     let reader = new TLReader(body);
@@ -539,6 +547,9 @@ export class SessionEncrypted extends Session implements Session {
     if (id === GZIP_PACKED) {
       logger.debug("unpacking compressed rpc_result");
       reader = new TLReader(await gunzip(reader.readBytes()));
+      if (this.#id !== sessionId) {
+        return;
+      }
       id = reader.readInt32(false);
       reader.unreadInt32();
     } else {
@@ -614,13 +625,13 @@ export class SessionEncrypted extends Session implements Session {
     this.#toAcknowledge.push(msgId);
   }
 
-  async #onMessageContainer(msgId: bigint, msgContainer: msg_container) {
+  async #onMessageContainer(msgId: bigint, msgContainer: msg_container, sessionId = this.#id) {
     this.#LreceiveLoop.debug("received container with ID", msgId, "and", msgContainer.messages.length, "message(s)");
     for (const message of msgContainer.messages) {
       if (message.body instanceof Uint8Array) {
-        await this.#onMessage(message.msg_id, message.body, msgId);
+        await this.#onMessage(message.msg_id, message.body, msgId, sessionId);
       } else {
-        await this.#onMessageContainer(msgId, message.body);
+        await this.#onMessageContainer(msgId, message.body, sessionId);
       }
     }
   }
-- 
2.43.0


From 1a0034f41396ef60db920d40dabcec141489ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 23/70] fix: report lost connections of ConnectionTLS as
 connection errors

---
 connection/1_connection_tls.node.ts | 12 ++++++++++--
 connection/1_connection_tls.ts      |  8 ++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/connection/1_connection_tls.node.ts b/connection/1_connection_tls.node.ts
index 5a1ddf9..d6c54e6 100644
--- a/connection/1_connection_tls.node.ts
+++ b/connection/1_connection_tls.node.ts
@@ -212,7 +212,7 @@ export class ConnectionTLS implements Connection {
     if (!startsWith(header, new Uint8Array([0x17, 0x03, 0x03]))) {
       // the stream cannot be followed anymore
       this.#socket!.destroy();
-      throw new TypeError("Failed to read TLS packet.");
+      throw errConnectionNotOpen;
     }
 
     const length = new DataView(header.buffer).getUint16(3);
@@ -281,7 +281,15 @@ export class ConnectionTLS implements Connection {
         }
 
         this.#assertConnected(socket);
-        await this.#writePacket(packet);
+        try {
+          await this.#writePacket(packet);
+        } catch (err) {
+          if (!this.isConnected) {
+            throw errConnectionNotOpen;
+          } else {
+            throw err;
+          }
+        }
         offset += packet.byteLength;
       }
     } finally {
diff --git a/connection/1_connection_tls.ts b/connection/1_connection_tls.ts
index 13344dc..810423d 100644
--- a/connection/1_connection_tls.ts
+++ b/connection/1_connection_tls.ts
@@ -214,9 +214,9 @@ export class ConnectionTLS implements Connection {
         while (this.#buffer.length < p.byteLength) {
           await this.#readPacket(connection);
         }
-      } catch (err) {
+      } catch {
         this.#onConnectionLost(connection);
-        throw err;
+        throw new ConnectionError("The connection was closed.");
       }
       this.#buffer.read(p);
     } finally {
@@ -239,9 +239,9 @@ export class ConnectionTLS implements Connection {
         this.#assertConnected(connection);
         try {
           await this.#writePacket(connection, packet);
-        } catch (err) {
+        } catch {
           this.#onConnectionLost(connection);
-          throw err;
+          throw new ConnectionError("The connection was closed.");
         }
         offset += packet.byteLength;
       }
-- 
2.43.0


From d025e7858bd19b1480e2d8f45d227a2897c5227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 24/70] fix: process updates and recover update gaps one at a
 time

---
 client/2_update_manager.ts | 120 ++++++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 47 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 73f6aae..623c743 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -154,6 +154,17 @@ export class UpdateManager {
   }
 
   #state: Api.updates_State | null = null;
+  #stateMutex = new Mutex();
+  /** Runs a function that decides on or changes the state of the main box. Nothing else does so until it's done. */
+  async #withState<T>(fn: () => Promise<T>): Promise<T> {
+    const unlock = await this.#stateMutex.lock();
+    try {
+      return await fn();
+    } finally {
+      unlock();
+    }
+  }
+
   async #getState() {
     if (this.#mustDropPendingUpdates()) {
       return this.#state ?? null;
@@ -173,6 +184,10 @@ export class UpdateManager {
   }
 
   async fetchState(source: string) {
+    await this.#withState(() => this.#fetchState(source));
+  }
+
+  async #fetchState(source: string) {
     let state = await this.#c.invoke({ _: "updates.getState" });
     const difference = await this.#c.invoke({ ...state, _: "updates.getDifference" });
     if (Api.is("updates.difference", difference)) {
@@ -358,13 +373,13 @@ export class UpdateManager {
   async #checkGap(pts: number, ptsCount: number) {
     const localState = await this.#getLocalState();
     if (localState.pts < pts && localState.pts + ptsCount !== pts) {
-      await this.recoverUpdateGap("processUpdates[pts]");
+      await this.#recoverUpdateGap("processUpdates[pts]");
     }
   }
   async #checkGapQts(qts: number) {
     const localState = await this.#getLocalState();
     if (localState.qts + UpdateManager.QTS_COUNT < qts) {
-      await this.recoverUpdateGap("processUpdates[qts]");
+      await this.#recoverUpdateGap("processUpdates[qts]");
     }
   }
   async #checkChannelGap(channelId: bigint, pts: number, ptsCount: number) {
@@ -438,7 +453,7 @@ export class UpdateManager {
     if (update.pts !== 0 && checkGap) {
       await this.#checkGap(update.pts, update.pts_count);
       if (await this.#needsGetDifference(update)) {
-        await this.recoverUpdateGap("needsGetDifference");
+        await this.#recoverUpdateGap("needsGetDifference");
       }
     }
 
@@ -459,7 +474,7 @@ export class UpdateManager {
   #ptsUpdateQueue = new Queue("ptsUpdate");
   #processPtsUpdate(update: PtsUpdate, checkGap: boolean) {
     this.#ptsUpdateQueue.add(async () => {
-      await this.#processPtsUpdateInner(update, checkGap);
+      await this.#withState(() => this.#processPtsUpdateInner(update, checkGap));
     });
   }
 
@@ -487,7 +502,7 @@ export class UpdateManager {
   #qtsUpdateQueue = new Queue("qtsUpdate");
   #processQtsUpdate(update: QtsUpdate, checkGap: boolean) {
     this.#qtsUpdateQueue.add(async () => {
-      await this.#processQtsUpdateInner(update, checkGap);
+      await this.#withState(() => this.#processQtsUpdateInner(update, checkGap));
     });
   }
 
@@ -512,29 +527,8 @@ export class UpdateManager {
       if (checkGap) {
         if (seqStart === 0) {
           this.#L$processUpdates.debug("seqStart=0");
-        } else {
-          let localState = await this.#getLocalState();
-
-          if (localState.seq + 1 < seqStart) {
-            // There's an update gap that must be filled.
-            await this.recoverUpdateGap("localSeq + 1 < seqStart");
-            localState = await this.#getLocalState();
-          }
-
-          if (localState.seq + 1 === seqStart) {
-            // The update sequence can be applied.
-            localState.seq = seq;
-            localState.date = updates_.date;
-            await this.#setUpdateStateDate(updates_.date);
-            await this.#setState(localState);
-          } else if (localState.seq + 1 > seqStart) {
-            // The update sequence was already applied, and must be ignored.
-            this.#L$processUpdates.debug("localSeq + 1 > seqStart");
-            return;
-          } else {
-            this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
-            return;
-          }
+        } else if (!await this.#withState(() => this.#applySeq(seqStart, seq, updates_.date))) {
+          return;
         }
       }
     } else if (Api.is("updateShort", updates_)) {
@@ -625,7 +619,7 @@ export class UpdateManager {
     if (Api.is("updates", updates_) || Api.is("updatesCombined", updates_)) {
       this.processChats(updates_.chats, updates_);
       await this.processUsers(updates_.users, updates_);
-      await this.#setUpdateStateDate(updates_.date);
+      await this.#withState(() => this.#setUpdateStateDate(updates_.date));
     } else if (
       Api.isOneOf([
         "updateShort",
@@ -634,7 +628,7 @@ export class UpdateManager {
         "updateShortSentMessage",
       ], updates_)
     ) {
-      await this.#setUpdateStateDate(updates_.date);
+      await this.#withState(() => this.#setUpdateStateDate(updates_.date));
     }
 
     let updatePtsChanged = false;
@@ -651,14 +645,41 @@ export class UpdateManager {
         this.#queueUpdate(update, 0n, false);
       }
     }
-    if (updatePtsChanged) {
+    if (updatePtsChanged && checkGap) {
       await Promise.all([this.#ptsUpdateQueue, this.#qtsUpdateQueue].map((queue) => new Promise<void>((resolve) => queue.add(() => Promise.resolve().then(resolve)))));
-      await this.fetchState("updatePtsChanged");
-      if (this.#updateState) {
-        await this.#setState(this.#updateState);
-      } else {
-        unreachable();
-      }
+      await this.#withState(async () => {
+        await this.#fetchState("updatePtsChanged");
+        if (this.#updateState) {
+          await this.#setState(this.#updateState);
+        } else {
+          unreachable();
+        }
+      });
+    }
+  }
+
+  async #applySeq(seqStart: number, seq: number, date: number): Promise<boolean> {
+    let localState = await this.#getLocalState();
+
+    if (localState.seq + 1 < seqStart) {
+      // There's an update gap that must be filled.
+      await this.#recoverUpdateGap("localSeq + 1 < seqStart");
+      localState = await this.#getLocalState();
+    }
+
+    if (localState.seq + 1 === seqStart) {
+      // The update sequence can be applied.
+      localState.seq = seq;
+      localState.date = date;
+      await this.#setState(localState);
+      return true;
+    } else if (localState.seq + 1 > seqStart) {
+      // The update sequence was already applied, and must be ignored.
+      this.#L$processUpdates.debug("localSeq + 1 > seqStart");
+      return false;
+    } else {
+      this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
+      return false;
     }
   }
 
@@ -686,7 +707,7 @@ export class UpdateManager {
         localState = this.#updateState;
         await this.#setState(localState);
       } else {
-        await this.fetchState("getLocalState");
+        await this.#fetchState("getLocalState");
         if (this.#updateState) {
           localState = this.#updateState;
           await this.#setState(localState);
@@ -699,15 +720,21 @@ export class UpdateManager {
   }
 
   #updateGapRecoveryCount = 0;
-  #recoverUpdateGapMutex = new Mutex();
+  #lastUpdateGapRecovery = 0;
   async recoverUpdateGap(source: string) {
     const updateGapRecoveryCount = this.#updateGapRecoveryCount;
-    const unlock = await this.#recoverUpdateGapMutex.lock();
-    if (updateGapRecoveryCount !== this.#updateGapRecoveryCount) {
-      this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
-      unlock();
-      return;
-    }
+    await this.#withState(async () => {
+      if (this.#lastUpdateGapRecovery > updateGapRecoveryCount) {
+        // a recovery started and finished after this one was requested
+        this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
+        return;
+      }
+      await this.#recoverUpdateGap(source);
+    });
+  }
+
+  async #recoverUpdateGap(source: string) {
+    const updateGapRecovery = ++this.#updateGapRecoveryCount;
     this.#LrecoverUpdateGap.debug(`recovering from update gap [${source}]`);
 
     this.#c.setConnectionState("updating");
@@ -783,9 +810,8 @@ export class UpdateManager {
       throw err;
     } finally {
       if (wasRecovered) {
-        ++this.#updateGapRecoveryCount;
+        this.#lastUpdateGapRecovery = updateGapRecovery;
       }
-      unlock();
       this.#c.resetConnectionState();
     }
   }
-- 
2.43.0


From 4d7f87eeef136c2e63a63b216ef258960a3cd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 25/70] fix: don't make the receive loop wait for the recovery
 from a deserialization error

---
 client/6_client.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index ac7871a..11eb785 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -409,8 +409,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       this.#updateManager.processUpdates(updates, true, null);
       this.#lastUpdates = new Date();
     };
-    client.handlers.onDeserializationError = async () => {
-      await this.#updateManager.recoverUpdateGap("deserialization error");
+    client.handlers.onDeserializationError = () => {
+      // must not be awaited, because the recovery depends on what is received next
+      drop(this.#updateManager.recoverUpdateGap("deserialization error"));
     };
     client.handlers.onNewServerSalt = async (serverSalt) => {
       await this.storage.setServerSalt(serverSalt);
-- 
2.43.0


From ae9ffd8374732c85f84613bab40d96ad908519c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 26/70] fix: process a channel's updates and recover its gaps
 one at a time

---
 client/2_update_manager.ts | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 623c743..93d9a90 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -388,7 +388,7 @@ export class UpdateManager {
       localPts = pts - ptsCount;
     }
     if (localPts < pts && localPts + ptsCount !== pts) {
-      await this.#recoverChannelUpdateGap(channelId, "processUpdates");
+      await this.#recoverChannelUpdateGapInner(channelId, "processUpdates");
     }
   }
 
@@ -403,7 +403,7 @@ export class UpdateManager {
           this.#c.storage.channelPts.set([channelId], update.pts);
         }
       }
-      await this.#recoverChannelUpdateGap(channelId, "updateChannelTooLong");
+      await this.#recoverChannelUpdateGapInner(channelId, "updateChannelTooLong");
       return;
     }
     if (update.pts !== 0) {
@@ -445,7 +445,7 @@ export class UpdateManager {
       this.#channelUpdateQueues.set(channelId, queue);
     }
     queue.add(async () => {
-      await this.#processChannelPtsUpdateInner(update, checkGap);
+      await this.#withChannel(channelId, () => this.#processChannelPtsUpdateInner(update, checkGap));
     });
   }
 
@@ -816,21 +816,26 @@ export class UpdateManager {
     }
   }
 
-  #recoverChannelUpdateGapMutexes = new Map<bigint, Mutex>();
-  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
-    let mutex = this.#recoverChannelUpdateGapMutexes.get(channelId);
+  #channelMutexes = new Map<bigint, Mutex>();
+  /** Runs a function that decides on or changes the state of a channel. Nothing else does so until it's done. */
+  async #withChannel<T>(channelId: bigint, fn: () => Promise<T>): Promise<T> {
+    let mutex = this.#channelMutexes.get(channelId);
     if (!mutex) {
       mutex = new Mutex();
-      this.#recoverChannelUpdateGapMutexes.set(channelId, mutex);
+      this.#channelMutexes.set(channelId, mutex);
     }
     const unlock = await mutex.lock();
     try {
-      return await this.#recoverChannelUpdateGapInner(channelId, source);
+      return await fn();
     } finally {
       unlock();
     }
   }
 
+  async #recoverChannelUpdateGap(channelId: bigint, source: string) {
+    return await this.#withChannel(channelId, () => this.#recoverChannelUpdateGapInner(channelId, source));
+  }
+
   async #recoverChannelUpdateGapInner(channelId: bigint, source: string) {
     let lastTimeout = 10;
     this.#LrecoverChannelUpdateGap.debug(`recovering channel update gap [${channelId}, ${source}]`);
@@ -887,7 +892,7 @@ export class UpdateManager {
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.messages) {
-          await this.#processUpdates({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
+          await this.#processChannelPtsUpdateInner({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
         }
         const pts_ = Api.as("dialog", difference.dialog).pts;
         if (pts_ !== undefined) {
-- 
2.43.0


From 069d527759b8016b1dc796f0aaafe852d52b1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 27/70] fix: check the authorization once at a time

---
 client/6_client.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 11eb785..5fd3ac6 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -579,11 +579,19 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     this.#LstorageWriteLoop.error(err);
   });
 
+  #authorizationCheck: Promise<User | undefined> | null = null;
   async #checkAuthorization() {
     if (this.#lastGetMe) {
       return this.#lastGetMe;
     }
 
+    // a second check would drop the updates received since the first
+    return await (this.#authorizationCheck ??= this.#checkAuthorizationInner().finally(() => {
+      this.#authorizationCheck = null;
+    }));
+  }
+
+  async #checkAuthorizationInner() {
     try {
       await this.#updateManager.fetchState("#checkAuthorization");
       const me = await this.#getMe();
-- 
2.43.0


From 71a348ef756953c92039bcda12153c0c680e0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 28/70] fix: keep stored updates in order when the clock is set
 back

---
 client/0_storage_operations.ts | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 403bda9..9844c61 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -504,7 +504,22 @@ export class StorageOperations {
     }
     return this.#lastUpdateId = id;
   }
+  #updateIdsLoaded: Promise<void> | null = null;
+  /** Makes new IDs greater than those of the updates stored already, even if the clock was set back since. */
+  async #loadUpdateIds() {
+    for await (const [key] of await this.#storage.getMany({ prefix: K.updates.all() })) {
+      const id = key[2] as bigint;
+      if (id > this.#lastUpdateId) {
+        this.#lastUpdateId = id;
+      }
+    }
+  }
   async setUpdate(boxId: bigint, update: Api.Update) {
+    this.#updateIdsLoaded ??= this.#loadUpdateIds().catch((err) => {
+      this.#updateIdsLoaded = null;
+      throw err;
+    });
+    await this.#updateIdsLoaded;
     await this.setTlObject(K.updates.update(boxId, this.#getUpdateId(update)), update);
   }
 
-- 
2.43.0


From fd25ebffc3282ae0cbf83b4da6f393cf0bfda8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 29/70] fix: don't lose updates because getMe failed
 temporarily

---
 client/5_composer.ts |  6 +++++-
 client/6_client.ts   | 19 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/client/5_composer.ts b/client/5_composer.ts
index 2dcbd2d..c39b057 100644
--- a/client/5_composer.ts
+++ b/client/5_composer.ts
@@ -80,6 +80,10 @@ export class Composer<C extends Context> implements MiddlewareObj<C> {
     this.#handle = middleware.length === 0 ? skip : middleware.map(flatten).reduce(concat);
   }
 
+  protected fetchMe(client: ClientGeneric): Promise<User> {
+    return client.getMe();
+  }
+
   protected resetLastGetMe(client: ClientGeneric) {
     lastGetMe.delete(client);
   }
@@ -87,7 +91,7 @@ export class Composer<C extends Context> implements MiddlewareObj<C> {
   async handleUpdate(client: ClientGeneric, update: Update) {
     let me = lastGetMe.get(client);
     if (!me && !("connectionState" in update) && (!("authorizationState" in update) || ("authorizationState" in update && update.authorizationState.isAuthorized))) {
-      me = await client.getMe();
+      me = await this.fetchMe(client);
       lastGetMe.set(client, me);
     }
 
diff --git a/client/6_client.ts b/client/6_client.ts
index 5fd3ac6..655d117 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -26,7 +26,7 @@ import { Api, Mtproto } from "../2_tl.ts";
 import { type DC, getDcId, getRawDcId, type TransportProvider } from "../3_transport.ts";
 import { type AlbumStoryList, type Animation, type AppSupport, type Audio, type AuthorizationSession, type AvailableReactions, type Birthday, type BlockedUserList, type BotAccessSettings, type BotCommand, type BotTokenCheckResult, type BusinessAwayMessageSchedule, type BusinessConnection, type CallbackQueryAnswer, type CallbackQueryQuestion, type Chat, type ChatActionType, type ChatJoinResult, type ChatListItem, type ChatMember, type ChatP, type ChatPChannel, type ChatPGroup, type ChatPPrivate, type ChatPSupergroup, type ChatSettings, type ClaimedGifts, type CodeCheckResult, type Community, type CommunityP, type ConnectedWebsite, type ConnectionState, constructChatP, constructUser2, type Country, type EmojiStatus, type FailedInvitation, type FileSource, type Gift, type GiftCollection, type GiftPrivacy, type ID, type InactiveChat, type InlineQueryAnswer, type InlineQueryResult, type InputBusinessRecipients, type InputChecklistItem, type InputEmojiStatus, type InputGift, type InputMedia, type InputPollOption, type InputPrivacyRule, type InputRichText, type InputSticker, type InputStoryContent, type InviteLink, type JoinRequest, type LeftChannelList, type LinkPreview, type LiveStreamChannel, type Message, type MessageAnimation, type MessageAudio, type MessageChecklist, type MessageContact, type MessageCounters, type MessageDice, type MessageDocument, type MessageInvoice, type MessageList, type MessageLivePhoto, type MessageLocation, type MessagePhoto, type MessagePoll, type MessageReactionList, type MessageRichText, type MessageSticker, type MessageText, type MessageVenue, type MessageVideo, type MessageVideoNote, type MessageViewer, type MessageVoice, type MiniAppInfo, type NetworkStatistics, type NewChatPrivacy, type NotificationSettings, type ParseMode, type PasswordCheckResult, type Poll, type PollVoterList, type PremiumSubscriptionDuration, type PriceTag, type PrivacyRule, type PrivacySettingKey, type ProfilePhotoList, type Reaction, type RecentActionsEntry, type ReportReason, type ReportResult, type ResolvedInviteLink, type RichText, type SavedChats, type SavedNotificationSound, type SecretChat, type SlowModeDuration, type StarAmount, type StarTransactionList, type Sticker, type StickerSet, type StickerSetP, type Story, type StoryAlbum, type SummarizedText, type TextToTranslate, type Timezone, type TonTransactionList, type Topic, type TopicList, type TopicListItem, type TranslatedText, type Translation, type Update, type User, type VideoChat, type VideoChatActive, type VideoChatScheduled, type VoiceTranscription } from "../3_types.ts";
 import { APP_VERSION, DEVICE_MODEL, DOWNLOAD_MAX_CHUNK_SIZE, INITIAL_DC, LANG_CODE, LANG_PACK, MAX_CHANNEL_ID, MAX_CHAT_ID, PHONE_NUMBER_TTL, type PublicKeys, SYSTEM_LANG_CODE, SYSTEM_VERSION, USERNAME_TTL } from "../4_constants.ts";
-import { AuthKeyUnregistered, FloodWait, Migrate, SessionRevoked } from "../4_errors.ts";
+import { AuthKeyUnregistered, FloodWait, Migrate, SessionRevoked, TelegramError } from "../4_errors.ts";
 import { AbortableLoop } from "./0_abortable_loop.ts";
 import type { AddBotToAttachmentsMenuParams, AddChatMemberParams, AddChatToCommunityParams, AddContactParams, AddMusicToProfileParams, AddReactionParams, AddSavedNotificationSoundParams, AddStickerToStickerSetParams, AllowUnpaidMessagesFromUserParams, AnswerCallbackQueryParams, AnswerInlineQueryParams, AnswerPreCheckoutQueryParams, ApproveJoinRequestsParams, BanChatMemberParams, BoostChatParams, CheckUsernameParams, CreateChannelParams, CreateCommunityParams, CreateGroupParams, CreateInviteLinkParams, CreateStickerSetParams, CreateStoryParams, CreateSupergroupParams, CreateTopicParams, DeclineJoinRequestsParams, DeleteAccountParams, DeleteMessageParams, DeleteMessagesParams, DeleteMyCommandsParams, DisallowUnpaidMessagesFromUserParams, DownloadLiveStreamSegmentParams, DownloadParams, EditInlineMessageCaptionParams, EditInlineMessageMediaParams, EditInlineMessageRichTextParams, EditInlineMessageTextParams, EditMessageCaptionParams, EditMessageLiveLocationParams, EditMessageMediaParams, EditMessageReplyMarkupParams, EditMessageRichTextParams, EditMessageTextParams, EditStoryParams, EditTopicParams, EnableSignaturesParams, EndSecretChatParams, EndTakeoutSessionParams, ForwardMessagesParams, GetAdministeredChatsParams, GetBlockedUsersParams, GetChatMembersParams, GetChatsParams, GetClaimedGiftsParams, GetCommonChatsParams, GetCreatedInviteLinksParams, GetHistoryParams, GetJoinRequestsParams, GetLeftChannelsParams, GetLinkPreviewParams, GetMessageReactionsParams, GetMyCommandsParams, GetMyDescriptionParams, GetMyNameParams, GetMyShortDescriptionParams, GetPollVotersParams, GetProfileMusicParams, GetProfilePhotosParams, GetRecentActionsParams, GetSavedChatsParams, GetSavedMessagesParams, GetStarTransactionsParams, GetStoriesInAlbumParams, GetTonTransactionsParams, GetTopicsParams, GetTranslationsParams, GiftPremiumSubscriptionParams, InvokeParams, JoinVideoChatParams, MarkAllMentionsAsReadParams, OpenChatParams, OpenMiniAppParams, PinMessageParams, PromoteChatMemberParams, RemoveProfilePhotoParams, ReplaceStickerInStickerSetParams, ReportChatParams, ReportEphemeralMessageParams, ReportStoryParams, ResolveUsernameParams, SaveDraftParams, SaveRichTextDraftParams, ScheduleVideoChatParams, SearchMessagesParams, SendAnimationParams, SendAudioParams, SendChatActionParams, SendChecklistParams, SendContactParams, SendDiceParams, SendDocumentParams, SendGiftParams, SendInlineQueryParams, SendInvoiceParams, SendLivePhotoParams, SendLocationParams, SendMediaGroupParams, SendMessageDraftParams, SendMessageParams, SendPhotoParams, SendPollParams, SendRichTextDraftParams, SendRichTextParams, SendSecretAnimationParams, SendSecretAudioParams, SendSecretContactParams, SendSecretDocumentParams, SendSecretLocationParams, SendSecretMessageParams, SendSecretPhotoParams, SendSecretStickerParams, SendSecretVenueParams, SendSecretVideoNoteParams, SendSecretVideoParams, SendSecretVoiceParams, SendStickerParams, SendVenueParams, SendVideoNoteParams, SendVideoParams, SendVoiceParams, SetBirthdayParams, SetBusinessAwayMessageParams, SetBusinessIntroParams, SetChatMemberRightsParams, SetChatMemberTagParams, SetChatPhotoParams, SetContactNoteParams, SetEmojiStatusParams, SetLocationParams, SetManagedBotAccessSettingsParams, SetMyCommandsParams, SetMyDescriptionParams, SetMyNameParams, SetMyShortDescriptionParams, SetNameColorParams, SetNotificationSettingsParams, SetPersonalChannelParams, SetProfileColorParams, SetReactionsParams, SetStickerSetThumbnailParams, SetWorkingHoursParams, SignInParams, SignUpParams, StartBotParams, StartTakeoutSessionParams, StartVideoChatParams, StopPollParams, SummarizeTextParams, TransferGiftParams, TranslateTextParams, UnpinMessageParams, UnpinMessagesParams, UpdateChecklistParams, UpdateProfileParams, UpdateProfilePhotoParams, UpdateProfileVideoParams } from "./0_params.ts";
 import { StorageOperations } from "./0_storage_operations.ts";
@@ -735,6 +735,23 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     return this.messageStorage.peers.getSync([Api.peerToChatId(peer)]);
   }
 
+  protected override async fetchMe(client: ClientGeneric): Promise<User> {
+    let retryIn = 1;
+    while (true) {
+      try {
+        return await client.getMe();
+      } catch (err) {
+        // a temporary failure must not be what an update is lost for
+        const isTemporary = err instanceof ConnectionError || (err instanceof TelegramError && err.errorCode >= 500);
+        if (!isTemporary || this.isDisconnected) {
+          throw err;
+        }
+        await delay(retryIn * SECOND);
+        retryIn = Math.min(retryIn + 1, 10);
+      }
+    }
+  }
+
   async #handleCtxUpdate(update: Update) {
     if (this.#disableUpdates && !("authorizationState" in update) && !("connectionState" in update)) {
       return;
-- 
2.43.0


From 3fb8abc85ded4345343c32ca304db6770b37525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 30/70] fix: don't report the same connection state twice in a
 row

---
 client/6_client.ts | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 655d117..52642a3 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -463,17 +463,16 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     return this.#client?.isDisconnected ?? true;
   }
 
+  #lastPropagatedConnectionState: ConnectionState | null = null;
   #propagateConnectionState(connectionState: ConnectionState) {
-    this.#queueHandleCtxUpdate({ type: "connectionState", connectionState });
-    this.#lastPropagatedConnectionState = connectionState;
+    if (this.#lastPropagatedConnectionState !== connectionState) {
+      this.#lastPropagatedConnectionState = connectionState;
+      this.#queueHandleCtxUpdate({ type: "connectionState", connectionState });
+    }
   }
 
-  #lastPropagatedConnectionState: ConnectionState | null = null;
   #stateChangeHandler: (isConnected: boolean) => void = ((isConnected: boolean) => {
-    const connectionState = isConnected ? "ready" : "notConnected";
-    if (this.#lastPropagatedConnectionState !== connectionState) {
-      this.#propagateConnectionState(connectionState);
-    }
+    this.#propagateConnectionState(isConnected ? "ready" : "notConnected");
   }).bind(this);
 
   #storageInited = false;
@@ -927,9 +926,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         }
         this.#previouslyConnected = true;
       }
-      const connectionState = isConnected ? "ready" : "notConnected";
       this.#lastConnectionState = isConnected;
-      this.#queueHandleCtxUpdate({ type: "connectionState", connectionState });
+      this.#propagateConnectionState(isConnected ? "ready" : "notConnected");
     }
   }
 
-- 
2.43.0


From 48465c3804554e2aa5087b14b53c9a18a30d06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 31/70] fix: handle every update that results from an update
 even if handling one fails

---
 client/6_client.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 52642a3..84bb7e4 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -879,9 +879,13 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           }
         }
 
+        // an error in the handling of one doesn't keep the others from being handled
+        const errors = new Array<unknown>();
         for (const update of updates) {
           try {
             await this.#handleCtxUpdate(update);
+          } catch (err) {
+            errors.push(err);
           } finally {
             if ("deletedMessages" in update) {
               for (const { chatId, messageId } of update.deletedMessages) {
@@ -890,6 +894,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
             }
           }
         }
+        if (errors.length) {
+          throw errors[0];
+        }
       });
   }
 
-- 
2.43.0


From 8290c1dc7496058e4162e503f5203173821b2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 32/70] fix: keep recovering update gaps after the connection
 was lost at the wrong moment

---
 client/6_client.ts | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 84bb7e4..9ce6097 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -530,10 +530,10 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   }
 
   #lastUpdates = new Date();
-  #updateGapRecoveryLoop = new AbortableLoop(async (loop, signal) => {
+  #updateGapRecoveryLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     if (!this.isConnected) {
-      loop.abort();
+      // the connection might be lost only temporarily, and disconnect() aborts the loop
       return;
     }
     if (Date.now() - this.#lastUpdates.getTime() >= 15 * MINUTE) {
@@ -543,18 +543,14 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         }),
       );
     }
-  }, (loop, err) => {
-    if (!this.isConnected) {
-      loop.abort();
-    } else {
-      this.#LupdateGapRecoveryLoop.error(err);
-    }
+  }, (_loop, err) => {
+    this.#LupdateGapRecoveryLoop.error(err);
   });
 
-  #clientDisconnectionLoop = new AbortableLoop(async (loop, signal) => {
+  #clientDisconnectionLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     if (!this.isConnected) {
-      loop.abort();
+      // the connection might be lost only temporarily, and disconnect() aborts the loop
       return;
     }
     const now = Date.now();
@@ -564,10 +560,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         client?.disconnect();
       }
     }
-  }, (loop) => {
-    if (!this.isConnected) {
-      loop.abort();
-    }
+  }, () => {
   });
 
   #storageWriteLoop = new AbortableLoop(async (_loop, signal) => {
-- 
2.43.0


From fec8f28f6512af1541019ba7a4ad763020f10ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 33/70] fix: keep looking for update gaps after the clock is
 set back

---
 client/6_client.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 9ce6097..94a5108 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -407,7 +407,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     this.#clients = [client];
     client.handlers.onUpdate = (updates) => {
       this.#updateManager.processUpdates(updates, true, null);
-      this.#lastUpdates = new Date();
+      this.#lastUpdates = performance.now();
     };
     client.handlers.onDeserializationError = () => {
       // must not be awaited, because the recovery depends on what is received next
@@ -529,17 +529,17 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     return this.#lastGetMe?.isPremium ?? false;
   }
 
-  #lastUpdates = new Date();
+  #lastUpdates = performance.now(); // unaffected by clock changes
   #updateGapRecoveryLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     if (!this.isConnected) {
       // the connection might be lost only temporarily, and disconnect() aborts the loop
       return;
     }
-    if (Date.now() - this.#lastUpdates.getTime() >= 15 * MINUTE) {
+    if (performance.now() - this.#lastUpdates >= 15 * MINUTE) {
       drop(
         this.#updateManager.recoverUpdateGap("lastUpdates").then(() => {
-          this.#lastUpdates = new Date();
+          this.#lastUpdates = performance.now();
         }),
       );
     }
-- 
2.43.0


From f5eea65a8f5a006860a0905f231e600bb8fd7f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 34/70] fix: commit the storage periodically also if the cache
 isn't persisted

---
 client/6_client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 94a5108..1b61945 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -567,7 +567,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     await delay(5 * SECOND, { signal });
     await this.messageStorage.commit();
     await this.storage.commit();
-  }, (err) => {
+  }, (_loop, err) => {
     this.#LstorageWriteLoop.error(err);
   });
 
@@ -1190,7 +1190,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       await this.storage.setServerSalt(this.#client!.serverSalt);
       this.#updateGapRecoveryLoop.start();
       this.#clientDisconnectionLoop.start();
-      if (!this.#messageStorage_.isMemory) {
+      if (!this.#storage_.isMemory || !this.#messageStorage_.isMemory) {
         this.#storageWriteLoop.start();
       } else {
         this.#L.debug("not starting storageWriteLoop");
-- 
2.43.0


From ff35d6c02997e69f2194ece17d323b9fa4e03000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 35/70] fix: don't fail what changes the authorization state
 because a handler of the change failed

---
 client/6_client.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 1b61945..04c34c0 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -508,8 +508,12 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   #lastPropagatedAuthorizationState: boolean | null = null;
   async #propagateAuthorizationState(authorized: boolean) {
     if (this.#lastPropagatedAuthorizationState !== authorized) {
-      await this.#handleCtxUpdate({ type: "authorizationState", authorizationState: { isAuthorized: authorized } });
       this.#lastPropagatedAuthorizationState = authorized;
+      try {
+        await this.#handleCtxUpdate({ type: "authorizationState", authorizationState: { isAuthorized: authorized } });
+      } catch {
+        // already logged, and what led to the change of the state didn't fail because a handler did
+      }
     }
   }
 
-- 
2.43.0


From 1c9d9c3e5f7e433a087d0d979ea4890243f1cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 36/70] fix: recover gaps right after a channel's first
 recovery when pending updates are dropped

---
 client/2_update_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 93d9a90..62c60e6 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -854,6 +854,7 @@ export class UpdateManager {
           limit: this.#c.storage.isBot ? CHANNEL_DIFFERENCE_LIMIT_BOT : CHANNEL_DIFFERENCE_LIMIT_USER,
         });
         lastTimeout = difference.timeout ?? lastTimeout;
+        this.#nonFirst.add(channelId); // what comes next must follow what is recovered here
       } catch (err) {
         if (err instanceof PersistentTimestampInvalid) {
           await delay(retryIn * SECOND);
-- 
2.43.0


From 8213d19d28c48621c89b4053f4f8da5f542c534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 37/70] fix: don't leave an update stored while connecting
 unhandled until the next one

---
 client/2_update_manager.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 62c60e6..0210443 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -923,15 +923,22 @@ export class UpdateManager {
     }
   }
 
+  /** The boxes whose updates are being handled, and have got more since the handling last looked. */
+  #handleUpdatesAgain = new Set<bigint>();
   async #handleStoredUpdates(boxId: bigint) {
     if (this.#handleUpdatesSet.has(boxId)) {
+      this.#handleUpdatesAgain.add(boxId);
       return;
     }
     this.#handleUpdatesSet.add(boxId);
     try {
       do {
+        this.#handleUpdatesAgain.delete(boxId);
         const maybeUpdate = await this.#c.storage.getFirstUpdate(boxId);
         if (maybeUpdate === null) {
+          if (this.#handleUpdatesAgain.has(boxId)) {
+            continue;
+          }
           break;
         }
         const [key, update] = maybeUpdate;
-- 
2.43.0


From 0f716b74bcc0c3e0719522517802c59611d4400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 38/70] fix: don't let concurrent downloads of a file overwrite
 each other's cached parts

---
 client/2_file_manager.ts | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 39ec677..8414eeb 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -398,6 +398,24 @@ export class FileManager {
       FileManager.validateOffset(params.offset);
     }
     const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location ? location.photo_id : null;
+    // concurrent downloads of the same file may use different chunk sizes
+    const mustCache = id !== null && !this.#filesBeingCached.has(id) && (!params?.offset || !!params.fileInformation);
+    if (mustCache) {
+      this.#filesBeingCached.add(id);
+    }
+    try {
+      yield* this.#downloadInner(location, dcId, params, id, mustCache ? id : null);
+    } finally {
+      if (mustCache) {
+        this.#filesBeingCached.delete(id);
+      }
+    }
+  }
+
+  #filesBeingCached = new Set<bigint>();
+  // deno-lint-ignore no-explicit-any
+  async *#downloadInner(location: Api.InputFileLocation, dcId: number, params: DownloadParams | undefined, id: bigint | null, cacheId: bigint | null): AsyncGenerator<Uint8Array<ArrayBuffer>, void, any> {
+    const signal = params?.signal;
     if (id !== null && this.#c.storage.supportsFiles) {
       const file = await this.#c.storage.getFile(id);
       if (file !== null && file[0] > 0) {
@@ -440,7 +458,6 @@ export class FileManager {
     const limit = chunkSize;
     const requestedOffset = params?.offset ?? 0;
     let offset = decryptionInformation ? 0n : BigInt(requestedOffset);
-    const cacheId = offset === 0n ? id : null;
     let bytesToSkip = decryptionInformation ? requestedOffset : 0;
     let part = 0;
 
-- 
2.43.0


From 97bc59bca6387be1f5414cc8c192c04d0487999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 39/70] fix: don't cache the small version of a chat photo as
 the big one

---
 client/2_file_manager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 8414eeb..49b81e0 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -397,7 +397,8 @@ export class FileManager {
     if (params?.offset !== undefined) {
       FileManager.validateOffset(params.offset);
     }
-    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location ? location.photo_id : null;
+    // thumbnails and small photos have the identifiers of what they belong to
+    const id = "thumb_size" in location && location.thumb_size || "photo_id" in location && !location.big ? null : "id" in location ? location.id : "photo_id" in location ? location.photo_id : null;
     // concurrent downloads of the same file may use different chunk sizes
     const mustCache = id !== null && !this.#filesBeingCached.has(id) && (!params?.offset || !!params.fileInformation);
     if (mustCache) {
-- 
2.43.0


From 2fd38615cd1cedf423fb539662c24e410a1a8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 40/70] fix: end the download of an encrypted file that is
 shorter than stated

---
 client/2_file_manager.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 49b81e0..ff1cd68 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -504,6 +504,9 @@ export class FileManager {
             result.bytes = decryptedBytes.subarray(0, remainingSize);
             totalSize += result.bytes.byteLength;
             finished = totalSize >= fileSize;
+            if (!finished && downloadedSize < limit) {
+              throw new InputError("The file is smaller than what its file information states.");
+            }
 
             decryptionInformation.iv = concat([left, right]);
           }
-- 
2.43.0


From 0d28caeb0f3f390977f84a4b78e6d14f2390ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 41/70] fix: let aborted transfers go while they wait to retry

---
 client/2_file_manager.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index ff1cd68..86649dd 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -294,7 +294,7 @@ export class FileManager {
           retryIn = 0;
           errorCount = 20;
         }
-        await this.#handleError(err, retryIn, `[${fileId}-${index + 1}]`);
+        await this.#handleError(err, retryIn, `[${fileId}-${index + 1}]`, signal);
         retryIn += 2;
         if (retryIn > 11) {
           retryIn = 11;
@@ -303,15 +303,15 @@ export class FileManager {
     }
   }
 
-  async #handleError(err: unknown, retryIn: number, logPrefix: string) {
+  async #handleError(err: unknown, retryIn: number, logPrefix: string, signal: AbortSignal | undefined) {
     if (err instanceof TimeTooBig || err instanceof TimeTooSmall) {
       throw err;
     } else if (err instanceof FloodWait) {
       this.#Lupload.warning(`${logPrefix} retrying in ${err.seconds} seconds:`, err);
-      await delay(err.seconds * SECOND);
+      await delay(err.seconds * SECOND, { signal });
     } else if (retryIn > 0) {
       this.#Lupload.warning(`${logPrefix} retrying in ${retryIn} seconds:`, err);
-      await delay(retryIn * SECOND);
+      await delay(retryIn * SECOND, { signal });
     } else {
       throw err;
     }
@@ -560,7 +560,7 @@ export class FileManager {
           retryIn = 0;
           errorCount = 20;
         }
-        await this.#handleError(err, retryIn, `[${id}-${part + 1}]`);
+        await this.#handleError(err, retryIn, `[${id}-${part + 1}]`, signal);
         signal?.throwIfAborted();
         retryIn += 2;
         if (retryIn > 11) {
-- 
2.43.0


From 2c22e06349e99b547cb4fc1e981223520c9a4f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 42/70] fix: handle failures and aborts while the next chunk of
 an upload's stream is awaited

---
 client/2_file_manager.ts | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 86649dd..03a3e3f 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -132,7 +132,7 @@ export class FileManager {
     let iv = encryptionInformation?.iv;
     let fileSize = 0;
     const total = size > 0 ? size : 0;
-    for await (part of iterateReadableStream(stream.pipeThrough(new PartStream(chunkSize)))) {
+    for await (part of iterateReadableStream(stream.pipeThrough(new PartStream(chunkSize), { signal }))) {
       if (part.totalParts === 0) {
         throw new InputError("Invalid file size.");
       }
@@ -156,22 +156,23 @@ export class FileManager {
 
         iv = concat([left, right]);
       }
-      promises.push(
-        this.#uploadPart(fileId, part.totalParts, !part.isSmall, part.part, part.bytes, signal).then(() => {
-          if (mustTrackProgress) {
-            uploaded += partSize;
-            this.#c.handleUpdate({
-              type: "uploadProgress",
-              uploadProgress: {
-                id: String(fileId),
-                uploaded,
-                total,
-                isUploaded: false,
-              },
-            });
-          }
-        }),
-      );
+      const promise = this.#uploadPart(fileId, part.totalParts, !part.isSmall, part.part, part.bytes, signal).then(() => {
+        if (mustTrackProgress) {
+          uploaded += partSize;
+          this.#c.handleUpdate({
+            type: "uploadProgress",
+            uploadProgress: {
+              id: String(fileId),
+              uploaded,
+              total,
+              isUploaded: false,
+            },
+          });
+        }
+      });
+      // it might fail while the stream is being read
+      promise.catch(() => {});
+      promises.push(promise);
       if (promises.length === poolSize * UPLOAD_REQUEST_PER_CONNECTION) {
         await Promise.all(promises);
         promises = [];
-- 
2.43.0


From d51a471cd22f5c28f2a61960b102bdc53af325f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 43/70] fix: count what web sockets transfer in the network
 statistics

---
 connection/1_connection_web_socket.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/connection/1_connection_web_socket.ts b/connection/1_connection_web_socket.ts
index 909d889..5bb2905 100644
--- a/connection/1_connection_web_socket.ts
+++ b/connection/1_connection_web_socket.ts
@@ -21,7 +21,7 @@
 import { ConnectionError } from "../0_errors.ts";
 import { getLogger, Mutex } from "../1_utilities.ts";
 import { ByteQueue } from "./0_byte_queue.ts";
-import type { Connection } from "./0_connection.ts";
+import type { Connection, ConnectionCallback } from "./0_connection.ts";
 
 const L = getLogger("ConnectionWebSocket");
 const errConnectionNotOpen = new ConnectionError("The connection is not open.");
@@ -34,6 +34,7 @@ export class ConnectionWebSocket implements Connection {
   #buffer = new ByteQueue();
   #nextResolve: [number, { resolve: () => void; reject: (err: unknown) => void }] | null = null;
   stateChangeHandler?: Connection["stateChangeHandler"];
+  callback?: ConnectionCallback;
 
   constructor(url: string) {
     this.#url = url;
@@ -70,6 +71,7 @@ export class ConnectionWebSocket implements Connection {
           if (this.#webSocket !== webSocket) return;
 
           this.#buffer.push(data);
+          this.callback?.read(data.byteLength);
 
           if (
             this.#nextResolve !== null && this.#buffer.length >= this.#nextResolve[0]
@@ -138,6 +140,7 @@ export class ConnectionWebSocket implements Connection {
     try {
       this.#assertConnected();
       this.#webSocket!.send(p);
+      this.callback?.write(p.byteLength);
     } finally {
       unlock();
     }
-- 
2.43.0


From 9ed1f2272ce1b89a6d84f528d8589b0c526c09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 44/70] fix: set up a connection only once if several calls
 need it

---
 client/6_client.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 04c34c0..458173e 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1096,7 +1096,17 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     }
   }
 
-  async #setupClient(client: ClientEncrypted) {
+  #clientSetups = new Map<ClientEncrypted, Promise<void>>();
+  #setupClient(client: ClientEncrypted) {
+    let setup = this.#clientSetups.get(client);
+    if (setup === undefined) {
+      setup = this.#setupClientInner(client).finally(() => this.#clientSetups.delete(client));
+      this.#clientSetups.set(client, setup);
+    }
+    return setup;
+  }
+
+  async #setupClientInner(client: ClientEncrypted) {
     const storage = client.dc === this.#client!.dc ? this.storage : new StorageOperations(this.storage.provider.branch(`${client.dc}${client.isMedia ? "_media" : ""}`));
     if (storage !== this.storage) {
       this.#branchStorages.add(storage);
-- 
2.43.0


From 8cacfa7551df7054126b0025064f3b87a5284ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 45/70] fix: don't leave connections open that are being set up
 when disconnecting

---
 client/6_client.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 458173e..ee650d3 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -441,6 +441,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     for (const client of this.#clients) {
       client.disconnect();
     }
+    for (const client of this.#clientSetups.keys()) {
+      client.disconnect();
+    }
     for (const pool of Object.values(this.#downloadPools)) {
       pool.disconnect();
     }
@@ -1008,6 +1011,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       await this.#setupClient(client);
       this.#clients.push(client);
       return client;
+    } catch (err) {
+      client?.disconnect();
+      throw err;
     } finally {
       unlock();
     }
@@ -1120,6 +1126,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         client.serverSalt = serverSalt;
       }
     }
+    if (this.isDisconnected) {
+      throw new ConnectionError("The connection was disconnected.");
+    }
     await client.connect();
     if (auth.authKey === null) {
       await this.#importAuthorization(client);
-- 
2.43.0


From 5deb70b6922a0cc30dcecfc3159869e41148921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 46/70] fix: don't use a connection for transfers before it is
 set up

---
 client/6_client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index ee650d3..ba86425 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -974,7 +974,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       }
     }
     const client = pool.nextClient();
-    if (client.authKey.byteLength) {
+    if (client.authKey.byteLength && !this.#clientSetups.has(client)) {
       return client;
     }
     await this.#setupClient(client);
@@ -1029,7 +1029,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       }
     }
     const client = pool.nextClient();
-    if (client.authKey.byteLength) {
+    if (client.authKey.byteLength && !this.#clientSetups.has(client)) {
       return client;
     }
     await this.#setupClient(client);
-- 
2.43.0


From 46fa90e1f00bf338b0bd222b75fdd6235a86c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 47/70] fix: transfer the authorization while a connection to
 another data centre is set up

---
 client/6_client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index ba86425..040d2d5 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1120,7 +1120,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     await storage.initialize();
     const auth = storage.auth.mustGet();
     const serverSalt = await storage.getServerSalt();
-    if (auth.authKey !== null) {
+    if (auth.authKey?.byteLength) {
       await client.setAuthKey(auth.authKey);
       if (serverSalt) {
         client.serverSalt = serverSalt;
@@ -1130,7 +1130,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       throw new ConnectionError("The connection was disconnected.");
     }
     await client.connect();
-    if (auth.authKey === null) {
+    if (!auth.authKey?.byteLength) {
       await this.#importAuthorization(client);
     }
     await storage.auth.update((v) => v.authKey = client.authKey);
-- 
2.43.0


From f57dd63fc5ec033230c6505740bb4e0593a06fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 48/70] fix: don't fail to bind temporary auth keys when the
 clock ticks meanwhile

---
 session/0_session_state.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/session/0_session_state.ts b/session/0_session_state.ts
index 30187b6..2d0a93e 100644
--- a/session/0_session_state.ts
+++ b/session/0_session_state.ts
@@ -26,11 +26,20 @@ export class SessionState {
   #seqNo = 0;
   #messageId = 0n;
 
+  // the next message ID must be what was previewed even if the clock ticks in between
+  #previewedMessageId: bigint | undefined;
+
   nextMessageId(): bigint {
-    return this.#messageId = this.previewNextMessageId();
+    this.#messageId = this.#previewedMessageId ?? this.#newMessageId();
+    this.#previewedMessageId = undefined;
+    return this.#messageId;
   }
 
   previewNextMessageId(): bigint {
+    return this.#previewedMessageId = this.#newMessageId();
+  }
+
+  #newMessageId(): bigint {
     const now = toUnixTimestamp(new Date()) + this.timeDifference;
     const nanoseconds = Math.floor((now - Math.floor(now)) * 1e9);
     const newMessageId = (BigInt(Math.floor(now)) << 32n) | (BigInt(nanoseconds) << 2n);
@@ -56,5 +65,6 @@ export class SessionState {
     this.serverSalt = 0n;
     this.#seqNo = 0;
     this.#messageId = 0n;
+    this.#previewedMessageId = undefined;
   }
 }
-- 
2.43.0


From 671e104496f92bb39a5753f10132c0e061a1491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 49/70] fix: don't keep the update state of an account that was
 signed out

---
 client/2_update_manager.ts | 14 ++++++++++++++
 client/6_client.ts         |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 0210443..127d274 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -183,6 +183,20 @@ export class UpdateManager {
     }
   }
 
+  /** Forgets the state of the account that was signed out. Nothing is stored for it any more once `resetStorages` is run. */
+  async reset(resetStorages: () => Promise<void>) {
+    await this.#withState(async () => {
+      try {
+        await resetStorages();
+      } finally {
+        this.#state = null;
+        this.#updateState = undefined;
+        this.#defaultDropPendingUpdates = null;
+        this.#nonFirst.clear();
+      }
+    });
+  }
+
   async fetchState(source: string) {
     await this.#withState(() => this.#fetchState(source));
   }
diff --git a/client/6_client.ts b/client/6_client.ts
index 040d2d5..91c550b 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1441,7 +1441,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       this.#storageWriteLoop.abort();
       this.#updateManager.closeAllChats();
       await this.disconnect();
-      await this.#resetStorages();
+      await this.#updateManager.reset(() => this.#resetStorages());
       await this.connect();
     }
   }
-- 
2.43.0


From 8e72b0c9fe0d22a9baa152ca9262a30999d09d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 50/70] fix: store who is authorized even if signing in was
 interrupted

---
 client/0_storage_operations.ts | 14 +++++++++++++-
 client/6_client.ts             | 29 +++++++++--------------------
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 9844c61..4c07ee8 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -332,10 +332,22 @@ export class StorageOperations {
     if (this.#accountId !== null) {
       return this.#accountId;
     } else {
-      return this.#accountId = (await this.auth.get())?.userId ?? null;
+      const accountId = (await this.auth.get())?.userId ?? null;
+      this.#accountId = accountId || null; // 0 until it's known
+      return accountId;
     }
   }
 
+  /** Stores who is authorized. */
+  async setAccount(userId: number, isBot: boolean) {
+    await this.auth.update((v) => {
+      v.userId = userId;
+      v.isBot = isBot;
+    });
+    this.#accountId = userId || null;
+    await this.commit(true);
+  }
+
   async setIsPremium(isPremium: boolean) {
     await this.#storage.set(K.auth.isPremium(), isPremium);
   }
diff --git a/client/6_client.ts b/client/6_client.ts
index 91c550b..514f10f 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -594,6 +594,11 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     try {
       await this.#updateManager.fetchState("#checkAuthorization");
       const me = await this.#getMe();
+      const auth = this.storage.auth.mustGet();
+      if (auth.userId !== me.id || auth.isBot !== me.isBot) {
+        // signing in was interrupted before it was stored
+        await this.storage.setAccount(me.id, me.isBot);
+      }
       await this.#propagateAuthorizationState(true);
       drop(this.#updateManager.recoverUpdateGap("#checkAuthorization"));
       return me;
@@ -1286,11 +1291,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       try {
         const result = await this.#accountManager.checkBotToken(botToken, this.#apiId, this.#apiHash);
         if (result.type === "signedIn") {
-          await this.storage.auth.update((v) => {
-            v.userId = result.userId;
-            v.isBot = true;
-          });
-          await this.storage.commit(true);
+          await this.storage.setAccount(result.userId, true);
           this.#LsignIn.debug("signed in as bot");
           await this.#propagateAuthorizationState(true);
           await this.#updateManager.fetchState("checkBotToken");
@@ -1317,11 +1318,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   async checkCode(code: string): Promise<CodeCheckResult> {
     const result = await this.#accountManager.checkCode(code);
     if (result.type === "signedIn") {
-      await this.storage.auth.update((v) => {
-        v.userId = result.userId;
-        v.isBot = false;
-      });
-      await this.storage.commit(true);
+      await this.storage.setAccount(result.userId, false);
       this.#LsignIn.debug("signed in as user");
       await this.#propagateAuthorizationState(true);
       await this.#updateManager.fetchState("checkCode");
@@ -1340,11 +1337,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   async checkPassword(password: string): Promise<PasswordCheckResult> {
     const result = await this.#accountManager.checkPassword(password);
     if (result.type === "signedIn") {
-      await this.storage.auth.update((v) => {
-        v.userId = result.userId;
-        v.isBot = false;
-      });
-      await this.storage.commit(true);
+      await this.storage.setAccount(result.userId, false);
       this.#LsignIn.debug("signed in as user");
       await this.#propagateAuthorizationState(true);
       await this.#updateManager.fetchState("checkPassword");
@@ -1455,11 +1448,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
    */
   async signUp(firstName: string, params?: SignUpParams): Promise<number> {
     const userId = await this.#accountManager.signUp(firstName, params);
-    await this.storage.auth.update((v) => {
-      v.userId = userId;
-      v.isBot = false;
-    });
-    await this.storage.commit(true);
+    await this.storage.setAccount(userId, false);
     this.#LsignIn.debug("signed in as user");
     await this.#propagateAuthorizationState(true);
     await this.#updateManager.fetchState("signUp");
-- 
2.43.0


From b3bcb85363f0ad05386d99a3689256832fe64417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 51/70] fix: store who is authorized if it isn't known yet, and
 forget who was

---
 client/6_client.ts | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 514f10f..bd9ce07 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -590,22 +590,34 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     }));
   }
 
+  /** Stores who is authorized if signing in was interrupted before that was done. */
+  async #storeAccount(me: User) {
+    const auth = this.storage.auth.mustGet();
+    if (auth.userId !== me.id || auth.isBot !== me.isBot) {
+      await this.storage.setAccount(me.id, me.isBot);
+    } else if (this.storage.auth.isUpdatePending) {
+      await this.storage.commit(true);
+    }
+  }
+
   async #checkAuthorizationInner() {
+    const { userId } = this.storage.auth.mustGet();
     try {
       await this.#updateManager.fetchState("#checkAuthorization");
       const me = await this.#getMe();
-      const auth = this.storage.auth.mustGet();
-      if (auth.userId !== me.id || auth.isBot !== me.isBot) {
-        // signing in was interrupted before it was stored
-        await this.storage.setAccount(me.id, me.isBot);
-      }
+      await this.#storeAccount(me);
       await this.#propagateAuthorizationState(true);
       drop(this.#updateManager.recoverUpdateGap("#checkAuthorization"));
       return me;
     } catch (err) {
+      this.#lastGetMe = null;
       if (!(err instanceof AuthKeyUnregistered) && !(err instanceof SessionRevoked)) {
         throw err;
       }
+      if (userId !== 0 && userId === this.storage.auth.mustGet().userId) {
+        // another account might be the next to sign in
+        await this.storage.setAccount(0, false);
+      }
     }
   }
 
-- 
2.43.0


From 721b5384c37d40709669928045deb1eca721875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 52/70] fix: store the auth key if the connection was
 established after connecting failed

---
 client/6_client.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index bd9ce07..dfe4db8 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1190,6 +1190,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   // ========================= CONNECTION ========================= //
   //
 
+  #isConnectionStored = false; // not if connecting failed and the connection was established afterwards
+
   /**
    * Connect the client.
    *
@@ -1198,7 +1200,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   async connect() {
     const unlock = await this.#connectMutex.lock();
     try {
-      if (this.isConnected) {
+      if (this.isConnected && this.#isConnectionStored) {
         return;
       }
       await this.#initStorage();
@@ -1228,6 +1230,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         v.dc = this.#client!.dc;
       });
       await this.storage.setServerSalt(this.#client!.serverSalt);
+      this.#isConnectionStored = true;
       this.#updateGapRecoveryLoop.start();
       this.#clientDisconnectionLoop.start();
       if (!this.#storage_.isMemory || !this.#messageStorage_.isMemory) {
@@ -1250,6 +1253,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
    * @method cn
    */
   async disconnect() {
+    this.#isConnectionStored = false;
     this.#disconnectAllClients();
     this.#clientDisconnectionLoop.abort();
     this.#updateGapRecoveryLoop.abort();
-- 
2.43.0


From 535f44caae91fd485954562a357700b84633f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 53/70] fix: don't handle and store what was received for an
 account that was signed out

---
 client/2_update_manager.ts | 57 +++++++++++++++++++++++++++++++++-----
 client/6_client.ts         | 17 +++++++++---
 2 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 127d274..32ac588 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -19,7 +19,7 @@
  */
 
 import { delay, SECOND, unreachable } from "../0_deps.ts";
-import { InputError } from "../0_errors.ts";
+import { ConnectionError, InputError } from "../0_errors.ts";
 import { getLogger, type Logger, Mutex, Queue, ZERO_CHANNEL_ID } from "../1_utilities.ts";
 import { Api } from "../2_tl.ts";
 import { PersistentTimestampInvalid } from "../3_errors.ts";
@@ -157,8 +157,12 @@ export class UpdateManager {
   #stateMutex = new Mutex();
   /** Runs a function that decides on or changes the state of the main box. Nothing else does so until it's done. */
   async #withState<T>(fn: () => Promise<T>): Promise<T> {
+    const handling = this.#handling.isActive ? this.#handling : null;
     const unlock = await this.#stateMutex.lock();
     try {
+      if (handling?.isActive === false) {
+        throw new ConnectionError("The connection was disconnected.");
+      }
       return await fn();
     } finally {
       unlock();
@@ -183,8 +187,11 @@ export class UpdateManager {
     }
   }
 
+  /** What the handling of updates belongs to. It's replaced when an account is signed out. */
+  #handling = { isActive: true };
   /** Forgets the state of the account that was signed out. Nothing is stored for it any more once `resetStorages` is run. */
   async reset(resetStorages: () => Promise<void>) {
+    this.#handling.isActive = false;
     await this.#withState(async () => {
       try {
         await resetStorages();
@@ -193,6 +200,7 @@ export class UpdateManager {
         this.#updateState = undefined;
         this.#defaultDropPendingUpdates = null;
         this.#nonFirst.clear();
+        this.#handling = { isActive: true };
       }
     });
   }
@@ -441,12 +449,26 @@ export class UpdateManager {
     this.#queueUpdate(update, channelId, true);
   }
 
+  /** Adds what is skipped if the account is signed out before its turn. */
+  #enqueue(queue: Queue, fn: () => Promise<void>) {
+    const handling = this.#handling;
+    queue.add(async () => {
+      if (handling.isActive) {
+        await fn();
+      }
+    });
+  }
+
   #queueUpdate(update: Api.Update, boxId: bigint, pts: boolean) {
-    this.getHandleUpdateQueue(boxId).add(async () => {
+    const handling = this.#handling;
+    this.#enqueue(this.getHandleUpdateQueue(boxId), async () => {
       if (this.#c.guaranteeUpdateDelivery && pts) {
         await this.#handleStoredUpdates(boxId);
       } else {
-        await (await this.#handleUpdate(update))();
+        const handle = await this.#handleUpdate(update);
+        if (handling.isActive) {
+          await handle();
+        }
       }
     });
   }
@@ -458,7 +480,7 @@ export class UpdateManager {
       queue = new Queue(`channelUpdates-${channelId}`);
       this.#channelUpdateQueues.set(channelId, queue);
     }
-    queue.add(async () => {
+    this.#enqueue(queue, async () => {
       await this.#withChannel(channelId, () => this.#processChannelPtsUpdateInner(update, checkGap));
     });
   }
@@ -487,7 +509,7 @@ export class UpdateManager {
 
   #ptsUpdateQueue = new Queue("ptsUpdate");
   #processPtsUpdate(update: PtsUpdate, checkGap: boolean) {
-    this.#ptsUpdateQueue.add(async () => {
+    this.#enqueue(this.#ptsUpdateQueue, async () => {
       await this.#withState(() => this.#processPtsUpdateInner(update, checkGap));
     });
   }
@@ -515,14 +537,23 @@ export class UpdateManager {
 
   #qtsUpdateQueue = new Queue("qtsUpdate");
   #processQtsUpdate(update: QtsUpdate, checkGap: boolean) {
-    this.#qtsUpdateQueue.add(async () => {
+    this.#enqueue(this.#qtsUpdateQueue, async () => {
       await this.#withState(() => this.#processQtsUpdateInner(update, checkGap));
     });
   }
 
   #processUpdatesQueue = new Queue("UpdateManager/processUpdates");
   processUpdates(updates: Api.Update | Api.Updates, checkGap: boolean, call: Api.AnyObject | null = null, callback?: () => void) {
-    this.#processUpdatesQueue.add(() => this.#processUpdates(updates, checkGap, call).finally(callback));
+    const handling = this.#handling;
+    this.#processUpdatesQueue.add(async () => {
+      try {
+        if (handling.isActive) {
+          await this.#processUpdates(updates, checkGap, call);
+        }
+      } finally {
+        callback?.();
+      }
+    });
   }
 
   async #processUpdates(updates_: Api.Update | Api.Updates, checkGap: boolean, call: Api.AnyObject | null = null) {
@@ -948,7 +979,15 @@ export class UpdateManager {
     try {
       do {
         this.#handleUpdatesAgain.delete(boxId);
+        const handling = this.#handling;
         const maybeUpdate = await this.#c.storage.getFirstUpdate(boxId);
+        if (!handling.isActive) {
+          // it was of an account that was signed out
+          if (this.#handling.isActive) {
+            continue;
+          }
+          break;
+        }
         if (maybeUpdate === null) {
           if (this.#handleUpdatesAgain.has(boxId)) {
             continue;
@@ -961,6 +1000,10 @@ export class UpdateManager {
           try {
             const handle = await this.#handleUpdate(update);
             handle: for (let i = 0; i < 2; ++i) {
+              if (!handling.isActive) {
+                handled = true; // there is no point in handling it any more
+                break handle;
+              }
               try {
                 await handle();
                 handled = true;
diff --git a/client/6_client.ts b/client/6_client.ts
index dfe4db8..5d5e8eb 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -786,6 +786,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     });
   }
 
+  /** The updates that are being constructed, which may store things. */
+  #updateConstructions = new Set<Promise<Array<Update>>>();
   async #handleUpdate(update: Api.Update) {
     const maybePromises = new Array<() => MaybePromise<Update | null>>();
     if (Api.is("updateUserName", update)) {
@@ -881,8 +883,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       maybePromises.push(() => this.#managedBotManager.handleUpdate(update));
     }
 
-    return () =>
-      Promise.resolve().then(async () => {
+    return () => {
+      const construction = Promise.resolve().then(async () => {
         const updates: Array<Update> = [{ type: "update", update }];
         for (const maybePromise of maybePromises) {
           try {
@@ -895,7 +897,10 @@ export class Client<C extends Context = Context> extends Composer<C> implements
             this.#L.error("failed to construct update:", err);
           }
         }
-
+        return updates;
+      });
+      this.#updateConstructions.add(construction);
+      return construction.finally(() => this.#updateConstructions.delete(construction)).then(async (updates) => {
         // an error in the handling of one doesn't keep the others from being handled
         const errors = new Array<unknown>();
         for (const update of updates) {
@@ -915,6 +920,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           throw errors[0];
         }
       });
+    };
   }
 
   #lastGetMe: User | null = null;
@@ -1450,7 +1456,10 @@ export class Client<C extends Context = Context> extends Composer<C> implements
       this.#storageWriteLoop.abort();
       this.#updateManager.closeAllChats();
       await this.disconnect();
-      await this.#updateManager.reset(() => this.#resetStorages());
+      await this.#updateManager.reset(async () => {
+        await Promise.allSettled(this.#updateConstructions);
+        await this.#resetStorages();
+      });
       await this.connect();
     }
   }
-- 
2.43.0


From 278aaa94ef05f4a7aec75258989092403629e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 54/70] fix: register invoke error handlers on the client they
 are passed to, not on the last one created

---
 client/6_client.ts            | 2 +-
 client/6_client_dispatcher.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 5d5e8eb..fe41b6a 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1494,7 +1494,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     <T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R>;
     use: (handler: InvokeErrorHandler<Client<C>>) => void;
   } = Object.assign(
-    this.#invoke,
+    this.#invoke.bind(this), // the method itself is the same function in all clients
     {
       use: (handler: InvokeErrorHandler<Client<C>>) => {
         const handle = this.#handleInvokeError;
diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index a50455e..298d92e 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -359,7 +359,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
     <T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R>;
     use: (handler: InvokeErrorHandler<ClientDispatcher<C>>) => void;
   } = Object.assign(
-    this.#invoke,
+    this.#invoke.bind(this), // the method itself is the same function in all clients
     {
       use: (handler: InvokeErrorHandler<ClientDispatcher<C>>) => {
         const handle = this.#handleInvokeError;
-- 
2.43.0


From 56bb519c2b69dfa5a3107f5d5bca3221db1cc76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 55/70] fix: don't ask the invoke error handlers of a page
 again about failures the worker asked them about

---
 client/6_client_dispatcher.ts | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index 298d92e..f49cc87 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -181,18 +181,8 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
   }
 
   async #invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R> {
-    let n = 1;
-    while (true) {
-      try {
-        return await this.#dispatch("invoke", function_, params);
-      } catch (err) {
-        if (await this.#handleInvokeError(Object.freeze({ client: this, error: err, function: function_, n: n++ }), () => Promise.resolve(false))) {
-          continue;
-        } else {
-          throw err;
-        }
-      }
-    }
+    // the worker asks the error handlers
+    return await this.#dispatch("invoke", function_, params);
   }
 
   #handleInvokeError = skipInvoke<ClientDispatcher<C>>();
-- 
2.43.0


From 1524614aea165a39183c1d94ae219e6b0ac97c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 56/70] fix: release the calls whose error handlers were asked
 when the client of a worker is disconnected

---
 client/7_client_receiver.ts | 15 +++++++++++++++
 worker.ts                   |  6 +++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/client/7_client_receiver.ts b/client/7_client_receiver.ts
index 468ff94..f7e2e07 100644
--- a/client/7_client_receiver.ts
+++ b/client/7_client_receiver.ts
@@ -92,7 +92,22 @@ export class ClientReceiver {
     }
   }
 
+  #isClosed = false;
+  /** @internal */
+  close() {
+    this.#isClosed = true;
+    // the responses to these won't get here anymore
+    for (const { resolve } of this.#pendingRequests.values()) {
+      resolve(false);
+    }
+    this.#pendingRequests.clear();
+  }
+
   async #dispatch(method: string, ...args: unknown[]) {
+    if (this.#isClosed) {
+      return false;
+    }
+
     // deno-lint-ignore no-explicit-any
     const promiseWithResolvers = Promise.withResolvers<any>();
 
diff --git a/worker.ts b/worker.ts
index d15e645..db3de2f 100644
--- a/worker.ts
+++ b/worker.ts
@@ -79,7 +79,11 @@ async function handleMessage(message: WorkerRequest | WorkerResponse) {
       // @ts-ignore: it works
       const data = await clientReceiver.client[message.method](...message.args);
       if (message.method === "disconnect") {
-        clientReceivers.delete(message.clientId);
+        clientReceiver.close();
+        // the client might have been initialized again already
+        if (clientReceivers.get(message.clientId) === clientReceiver) {
+          clientReceivers.delete(message.clientId);
+        }
       }
       response = {
         type: "response",
-- 
2.43.0


From 4f48510bdce3825f15429f79dabe9ea05296f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 57/70] fix: pass RetryError and PublicKeyError from workers to
 their pages

---
 client/0_worker_error.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/0_worker_error.ts b/client/0_worker_error.ts
index 45b9043..6b236c2 100644
--- a/client/0_worker_error.ts
+++ b/client/0_worker_error.ts
@@ -18,13 +18,13 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { AccessError, ConnectionError, InputError, TLError, TransportError } from "../0_errors.ts";
+import { AccessError, ConnectionError, InputError, PublicKeyError, RetryError, TLError, TransportError } from "../0_errors.ts";
 import { getLogger } from "../1_utilities.ts";
 import { TelegramError, type TelegramErrorParams } from "../3_errors.ts";
 import { constructTelegramError } from "../4_errors.ts";
 
 export interface WorkerError {
-  name: "TelegramError" | "ConnectionError" | "AccessError" | "InputError" | "TransportError" | "TLError";
+  name: "TelegramError" | "ConnectionError" | "AccessError" | "InputError" | "TransportError" | "TLError" | "RetryError" | "PublicKeyError";
   // deno-lint-ignore no-explicit-any
   args: any;
 }
@@ -85,6 +85,10 @@ export function deserializeWorkerError(error: WorkerError) {
       return new TransportError(error.args[0]);
     case "TLError":
       return new TLError(error.args[0], error.args[1]);
+    case "RetryError":
+      return new RetryError(error.args[0]);
+    case "PublicKeyError":
+      return new PublicKeyError(error.args[0]);
     default:
       return new TypeError("Unknown error");
   }
-- 
2.43.0


From b8c812406640bab2b7c869e60bebc6223f669242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 58/70] fix: hand updates to the handlers of a page in order
 while its client finds out who it is

---
 client/6_client_dispatcher.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index f49cc87..44eb58d 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -115,6 +115,10 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
     } else {
       if (response.id === "") {
         try {
+          // the updates before it are waiting
+          while (this.#pendingFetchMe !== null) {
+            await this.#pendingFetchMe.catch(() => {});
+          }
           await this.handleUpdate(this, response.data as Update);
         } catch (err) {
           this.#L.error("Error handling update:", err);
@@ -126,6 +130,13 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
     }
   }
 
+  #pendingFetchMe: Promise<User> | null = null;
+  protected override fetchMe(client: ClientGeneric): Promise<User> {
+    return this.#pendingFetchMe ??= super.fetchMe(client).finally(() => {
+      this.#pendingFetchMe = null;
+    });
+  }
+
   /** @internal */
   handleWorkerError(error: unknown) {
     for (const { reject } of this.#pendingRequests.values()) {
-- 
2.43.0


From ad91f3127cbec7553aacc34822799672259bc1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 59/70] fix: store the number and the data of a secret message
 before sending it

---
 client/3_secret_chat_manager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 351a9ca..33fe34f 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -796,6 +796,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
     const state = this.#getSecretChatState(encryptedChat.id);
     state.outgoingMessages.set(key, { data, file, isService, isSilent });
+    // its number must not be used again, and it must be possible to send it again, even if the program ends now
+    await state.commit(this.#c.messageStorage.storage);
     if (file) {
       const result = await this.#c.invoke({
         _: "messages.sendEncryptedFile",
-- 
2.43.0


From cc3bd387d8f744bb7457fbc8922f912defff5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 60/70] fix: request missing secret messages again after a
 restart

---
 client/0_secret_chat_state.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/0_secret_chat_state.ts b/client/0_secret_chat_state.ts
index 0e59e08..af86912 100644
--- a/client/0_secret_chat_state.ts
+++ b/client/0_secret_chat_state.ts
@@ -192,8 +192,9 @@ export class SecretChatState {
     state.outSeqNo = result.outSeqNo;
     state.remoteInSeqNo = result.remoteInSeqNo;
 
-    state.isGapRequested = result.isGapRequested;
-    state.gapEndSeqNo = result.gapEndSeqNo;
+    // what was requested may have been received before the program ended, and lost: it is to be requested again
+    state.isGapRequested = false;
+    state.gapEndSeqNo = -1;
     state.pendingMessages = result.pendingMessages;
     for (const [k, v] of result.outgoingMessages) {
       state.outgoingMessages.set(k, v);
-- 
2.43.0


From 7dfea8c98e4e4f817b917cccaef64086b0a036bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 61/70] fix: keep the keys of a secret chat in step with the
 numbered messages about them

---
 client/3_secret_chat_manager.ts | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 33fe34f..522d2b8 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -759,22 +759,22 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
   }
 
   #sendTails = new Map<number, Promise<void>>();
-  async #sendMessage(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file?: Api.InputEncryptedFile, isService = false) {
+  async #sendMessage(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file?: Api.InputEncryptedFile, isService = false, onNumbered?: () => void) {
     try {
-      await this.#sendMessageInner(message, encryptedChat, authKey, authKeyId, file, isService);
+      await this.#sendMessageInner(message, encryptedChat, authKey, authKeyId, file, isService, onNumbered);
     } finally {
       await this.#getSecretChatState(encryptedChat.id).commit(this.#c.messageStorage.storage);
     }
   }
 
-  async #sendMessageInner(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file: Api.InputEncryptedFile | undefined, isService: boolean) {
+  async #sendMessageInner(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file: Api.InputEncryptedFile | undefined, isService: boolean, onNumbered: (() => void) | undefined) {
     const previous = this.#sendTails.get(encryptedChat.id) ?? Promise.resolve();
     const { promise, resolve } = Promise.withResolvers<void>();
     const tail = previous.then(() => promise);
     this.#sendTails.set(encryptedChat.id, tail);
     await previous;
     try {
-      await this.#sendMessageUnlocked(message, encryptedChat, authKey, authKeyId, file, isService);
+      await this.#sendMessageUnlocked(message, encryptedChat, authKey, authKeyId, file, isService, onNumbered);
     } finally {
       resolve();
       if (this.#sendTails.get(encryptedChat.id) === tail) {
@@ -783,7 +783,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     }
   }
 
-  async #sendMessageUnlocked(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file: Api.InputEncryptedFile | undefined, isService: boolean) {
+  /** @param onNumbered Called once the message has its number: from then on the other party may receive it, even if sending it fails. */
+  async #sendMessageUnlocked(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file: Api.InputEncryptedFile | undefined, isService: boolean, onNumbered: (() => void) | undefined) {
     const isCreator = Number(encryptedChat.admin_id) === await this.#c.getSelfId();
     const out_seq_no = this.#getNextOutSeqNo(encryptedChat.id, isCreator);
     const in_seq_no = this.#getInSeqNo(encryptedChat.id, isCreator);
@@ -796,6 +797,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
     const state = this.#getSecretChatState(encryptedChat.id);
     state.outgoingMessages.set(key, { data, file, isService, isSilent });
+    onNumbered?.();
     // its number must not be used again, and it must be possible to send it again, even if the program ends now
     await state.commit(this.#c.messageStorage.storage);
     if (file) {
@@ -1110,9 +1112,10 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id: state.rekeyId,
       key_fingerprint: authKeyId,
     };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
-    this.#clearInitiatedRekey(state);
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true, () => {
+      this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
+      this.#clearInitiatedRekey(state);
+    });
   }
 
   async #processDecryptedMessageActionRequestKey(chatId: number, action_: SecretChats.decryptedMessageActionRequestKey) {
@@ -1170,9 +1173,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
+    let isNumbered = false;
     try {
-      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true, () => isNumbered = true);
     } catch (err) {
+      if (isNumbered) {
+        throw err;
+      }
       state.toCommitId = 0n;
       state.toCommitAuthKey = new Uint8Array();
       state.toCommitAuthKeyId = 0n;
@@ -1379,6 +1386,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id,
       g_a,
     };
+    let isNumbered = false;
     try {
       await this.#sendMessage(
         {
@@ -1391,8 +1399,12 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
         authKeyId,
         undefined,
         true,
+        () => isNumbered = true,
       );
     } catch (err) {
+      if (isNumbered) {
+        throw err;
+      }
       this.#clearInitiatedRekey(state);
       await state.commit(this.#c.messageStorage.storage);
       throw err;
-- 
2.43.0


From 2bb3f3948f5ab181293a5aa3a5d1298e84e66af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 62/70] fix: don't let secret chats without a known key become
 active, nor active ones become inactive again

---
 client/3_secret_chat_manager.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 522d2b8..a5f7c09 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1349,7 +1349,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
           state.authKeyUseCount = 0;
           state.isAuthKeyUsed = false;
           state.pendingExponent = 0n;
+        } else if (state.authKey.byteLength === 0 || !Api.is("encryptedChat", state.encryptedChat) && state.authKeyId !== update.chat.key_fingerprint) {
+          this.#L.debug("ignoring secret chat", update.chat.id, "because its key is not known");
+          return null;
         }
+      } else if (Api.is("encryptedChat", state.encryptedChat)) {
+        this.#L.debug("ignoring outdated secret chat", update.chat.id);
+        return null;
       }
 
       state.encryptedChat = update.chat;
-- 
2.43.0


From db37a280ba4728e007c93130382bc2788d307a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 63/70] fix: let secret chats accepted before the result of
 requesting them was received become active

---
 client/3_secret_chat_manager.ts | 52 ++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index a5f7c09..beb3db1 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -131,6 +131,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     return state;
   }
 
+  /** The number of secret chats that are being requested. */
+  #requestCount = 0;
+  /** Secret chats that were accepted before the result of requesting them was received. */
+  #earlyChats = new Map<number, Api.updateEncryption>();
+
   async requestSecretChat(chatId: ID): Promise<SecretChat> {
     this.#c.storage.assertUser("requestSecretChat");
     const user_id = await this.#c.getInputUser(chatId);
@@ -151,20 +156,38 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const random_id = getRandomId(true);
     const g_a = intToBytes(gA, 256, { byteOrder: "big", isSigned: false });
 
-    const result = await this.#c.invoke({
-      _: "messages.requestEncryption",
-      user_id,
-      g_a,
-      random_id,
-    });
-    const state = this.#getSecretChatState(result.id);
-    state.g = dhConfig.g;
-    state.prime = prime;
-    state.a = a;
-    state.pendingExponent = a;
-    state.encryptedChat = result;
+    let state: SecretChatState;
+    let earlyChat: Api.updateEncryption | undefined;
+    ++this.#requestCount;
+    try {
+      const result = await this.#c.invoke({
+        _: "messages.requestEncryption",
+        user_id,
+        g_a,
+        random_id,
+      });
+      state = this.#getSecretChatState(result.id);
+      state.g = dhConfig.g;
+      state.prime = prime;
+      state.a = a;
+      state.pendingExponent = a;
+      state.encryptedChat = result;
+      earlyChat = this.#earlyChats.get(result.id);
+      this.#earlyChats.delete(result.id);
+    } finally {
+      if (--this.#requestCount === 0) {
+        this.#earlyChats.clear();
+      }
+    }
     await state.commit(this.#c.messageStorage.storage);
-    return constructSecretChat(result, await this.#c.getSelfId());
+    const secretChat = constructSecretChat(state.encryptedChat, await this.#c.getSelfId());
+    if (earlyChat) {
+      const update = await this.handleUpdate(earlyChat);
+      if (update) {
+        this.#c.handleUpdate(update);
+      }
+    }
+    return secretChat;
   }
 
   static parseText(text: string, entities: SecretMessageEntity[], parseMode: ParseMode, isEmptyAllowed = false): [string, SecretMessageEntity[]] {
@@ -1351,6 +1374,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
           state.pendingExponent = 0n;
         } else if (state.authKey.byteLength === 0 || !Api.is("encryptedChat", state.encryptedChat) && state.authKeyId !== update.chat.key_fingerprint) {
           this.#L.debug("ignoring secret chat", update.chat.id, "because its key is not known");
+          if (this.#requestCount > 0) {
+            this.#earlyChats.set(update.chat.id, update);
+          }
           return null;
         }
       } else if (Api.is("encryptedChat", state.encryptedChat)) {
-- 
2.43.0


From c5eaa3cd25633e5bbe02a7d0e1c4a837d3f0cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 64/70] fix: process secret messages received before their
 secret chat is active once it is

---
 client/3_secret_chat_manager.ts | 50 +++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index beb3db1..4912724 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -177,6 +177,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     } finally {
       if (--this.#requestCount === 0) {
         this.#earlyChats.clear();
+        for (const chatId of this.#heldMessages.keys()) {
+          if (!this.#states.has(chatId) || Api.is("encryptedChatEmpty", this.#getSecretChatState(chatId).encryptedChat)) {
+            this.#heldMessages.delete(chatId);
+          }
+        }
       }
     }
     await state.commit(this.#c.messageStorage.storage);
@@ -288,6 +293,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     });
     state.encryptedChat = result;
     await state.commit(this.#c.messageStorage.storage);
+    await this.#processHeldMessages(id);
     return constructSecretChat(result, await this.#c.getSelfId());
   }
 
@@ -1262,6 +1268,43 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     }
   }
 
+  /** Messages received before the secret chat they belong to became active, in the order they are to be processed. */
+  #heldMessages = new Map<number, Api.updateNewEncryptedMessage[]>();
+
+  #maybeHoldMessage(update: Api.updateNewEncryptedMessage) {
+    const chatId = update.message.chat_id;
+    const held = this.#heldMessages.get(chatId);
+    if (held === undefined) {
+      const chat = this.#states.get(chatId)?.encryptedChat;
+      const isExpected = chat === undefined || Api.is("encryptedChatEmpty", chat) ? this.#requestCount > 0 : Api.isOneOf(["encryptedChatWaiting", "encryptedChatRequested"], chat);
+      if (!isExpected) {
+        return false;
+      }
+      this.#heldMessages.set(chatId, [update]);
+    } else if (held.length < 1_000) {
+      held.push(update);
+    }
+    return true;
+  }
+
+  #processingHeldMessages = new Set<number>();
+  async #processHeldMessages(chatId: number) {
+    const held = this.#heldMessages.get(chatId);
+    if (held === undefined || this.#processingHeldMessages.has(chatId)) {
+      return;
+    }
+    this.#processingHeldMessages.add(chatId);
+    while (held.length) {
+      try {
+        await this.#processUpdateNewMessageEncrypted(held.shift()!);
+      } catch (err) {
+        this.#L.error("failed to process secret message:", err);
+      }
+    }
+    this.#heldMessages.delete(chatId);
+    this.#processingHeldMessages.delete(chatId);
+  }
+
   async #processUpdateNewMessageEncrypted(update: Api.updateNewEncryptedMessage): Promise<Update | null> {
     try {
       return await this.#processUpdateNewMessageEncryptedInner(update);
@@ -1332,10 +1375,14 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     }
 
     if (Api.is("updateNewEncryptedMessage", update)) {
+      if (this.#maybeHoldMessage(update)) {
+        return null;
+      }
       return await this.#processUpdateNewMessageEncrypted(update);
     }
 
     if (Api.is("encryptedChatDiscarded", update.chat)) {
+      this.#heldMessages.delete(update.chat.id);
       const state = this.#states.get(update.chat.id);
       if (state !== undefined) {
         this.#states.delete(update.chat.id);
@@ -1386,6 +1433,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
       state.encryptedChat = update.chat;
       await state.commit(this.#c.messageStorage.storage);
+      if (Api.is("encryptedChat", update.chat)) {
+        await this.#processHeldMessages(update.chat.id);
+      }
     }
 
     const secretChat = constructSecretChat(update.chat, await this.#c.getSelfId());
-- 
2.43.0


From 5bc22468f22ac45398692d392c1e5ee42a60a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 65/70] fix: don't encrypt secret messages with keys that were
 erased while they waited to be sent

---
 client/3_secret_chat_manager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 4912724..1e28ce6 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -789,6 +789,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
   #sendTails = new Map<number, Promise<void>>();
   async #sendMessage(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file?: Api.InputEncryptedFile, isService = false, onNumbered?: () => void) {
+    // the key may have been replaced and erased when it is the turn of this message
+    authKey = authKey.slice();
     try {
       await this.#sendMessageInner(message, encryptedChat, authKey, authKeyId, file, isService, onNumbered);
     } finally {
-- 
2.43.0


From 9c0dcd09f3ba4c4f70e3be78b70ef4f5d5556d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 66/70] fix: don't let secret chats get stuck when responding
 to one of their messages fails

---
 client/3_secret_chat_manager.ts | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 1e28ce6..94e2fc9 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -972,7 +972,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     }
     const alreadyPending = state.pendingMessages.some((v) => v[0].out_seq_no === message.out_seq_no);
     if (!alreadyPending && SecretChats.is("decryptedMessageService", message.message) && SecretChats.is("decryptedMessageActionResend", message.message.action)) {
-      await this.#resendMessages(state, message.message.action, isCreator);
+      try {
+        await this.#resendMessages(state, message.message.action, isCreator);
+      } catch (err) {
+        // this message is missing now, and has to be requested even if it was already
+        state.isGapRequested = false;
+        throw err;
+      }
     }
     if (outSeqNo > state.inSeqNo) { // gap
       if (!state.pendingMessages.some((v) => v[0].out_seq_no === message.out_seq_no)) {
@@ -1002,6 +1008,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       return;
     }
 
+    const errors = new Array<unknown>();
     const handle = async (message: SecretChats.decryptedMessageLayer, encryptedMessage: Api.EncryptedMessage) => {
       const inSeqNo = (message.in_seq_no - inX) / 2;
       const isJustLoaded = state.isJustLoaded;
@@ -1013,7 +1020,15 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       state.isJustLoaded = false;
       state.remoteInSeqNo = Math.max(state.remoteInSeqNo, inSeqNo);
       ++state.inSeqNo;
-      await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      try {
+        await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      } catch (err) {
+        if (!Api.is("encryptedChat", state.encryptedChat)) {
+          throw err;
+        }
+        // the messages after it are to be handled all the same
+        errors.push(err);
+      }
     };
     await handle(message, encryptedMessage);
     while (true) {
@@ -1032,6 +1047,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       const next = state.pendingMessages.reduce((a, b) => a[0].out_seq_no < b[0].out_seq_no ? a : b);
       await this.#checkGap(chatId, next[0], next[1]);
     }
+    if (errors.length) {
+      throw errors[0];
+    }
   }
 
   async #resendMessages(state: SecretChatState, action: SecretChats.decryptedMessageActionResend, isCreator: boolean) {
-- 
2.43.0


From cb3b1b48017b8bb00f8b3198d031853725875ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 67/70] fix: forget accepted keys of secret chats when the
 other party aborts the exchange

---
 client/3_secret_chat_manager.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 94e2fc9..38afb5a 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1282,6 +1282,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
         const state = this.#getSecretChatState(chatId);
         if (state.rekeyId === message.action.exchange_id) {
           this.#clearInitiatedRekey(state);
+        } else if (state.toCommitId === message.action.exchange_id) {
+          state.toCommitId = 0n;
+          state.toCommitAuthKey = new Uint8Array();
+          state.toCommitAuthKeyId = 0n;
+          state.toCommitAuthKeyId_ = new Uint8Array();
         }
         break;
       }
-- 
2.43.0


From 14b0bc1e8fa4c5e05a5214461f1192e307b87dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 68/70] fix: don't let the key exchanges of secret chats hang
 after a restart

---
 client/0_secret_chat_state.ts   | 16 ++++++++++------
 client/3_secret_chat_manager.ts | 26 ++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/client/0_secret_chat_state.ts b/client/0_secret_chat_state.ts
index af86912..57398c8 100644
--- a/client/0_secret_chat_state.ts
+++ b/client/0_secret_chat_state.ts
@@ -90,7 +90,11 @@ export class SecretChatState {
 
   rekeyId = 0n;
   rekeyA = 0n;
+  /** Whether the request for the current re-key has its number. If not, it is not known after a restart. */
+  isRekeyRequested = true;
 
+  /** Whether what the re-key to be committed was accepted with has its number. If not, it is not known after a restart. */
+  isRekeyAccepted = true;
   toCommitId = 0n;
   toCommitAuthKey = new Uint8Array();
   toCommitAuthKeyId = 0n;
@@ -137,13 +141,13 @@ export class SecretChatState {
       prime: this.prime,
       pendingExponent: this.pendingExponent,
 
-      rekeyId: this.rekeyId,
-      rekeyA: this.rekeyA,
+      rekeyId: this.isRekeyRequested ? this.rekeyId : 0n,
+      rekeyA: this.isRekeyRequested ? this.rekeyA : 0n,
 
-      toCommitId: this.toCommitId,
-      toCommitAuthKey: this.toCommitAuthKey,
-      toCommitAuthKeyId: this.toCommitAuthKeyId,
-      toCommitAuthKeyId_: this.toCommitAuthKeyId_,
+      toCommitId: this.isRekeyAccepted ? this.toCommitId : 0n,
+      toCommitAuthKey: this.isRekeyAccepted ? this.toCommitAuthKey : new Uint8Array(),
+      toCommitAuthKeyId: this.isRekeyAccepted ? this.toCommitAuthKeyId : 0n,
+      toCommitAuthKeyId_: this.isRekeyAccepted ? this.toCommitAuthKeyId_ : new Uint8Array(),
 
       inSeqNo: this.inSeqNo,
       outSeqNo: this.outSeqNo,
diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 38afb5a..585fa1d 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1019,7 +1019,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       }
       state.isJustLoaded = false;
       state.remoteInSeqNo = Math.max(state.remoteInSeqNo, inSeqNo);
-      ++state.inSeqNo;
+      // what a service message is responded with is to be numbered before the message counts as received, so that it is received again otherwise
+      const isService = SecretChats.is("decryptedMessageService", message.message);
+      if (!isService) {
+        ++state.inSeqNo;
+      }
       try {
         await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
       } catch (err) {
@@ -1028,6 +1032,10 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
         }
         // the messages after it are to be handled all the same
         errors.push(err);
+      } finally {
+        if (isService) {
+          ++state.inSeqNo;
+        }
       }
     };
     await handle(message, encryptedMessage);
@@ -1178,7 +1186,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       return;
     }
     if (state.toCommitId !== 0n) {
-      await this.#abortRekey(state, action_.exchange_id);
+      if (state.toCommitId !== action_.exchange_id) {
+        await this.#abortRekey(state, action_.exchange_id);
+      }
       return;
     }
     if (state.rekeyId !== 0n) {
@@ -1218,13 +1228,17 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       key_fingerprint: authKeyId,
     };
     const random_id = getRandomId();
+    state.isRekeyAccepted = false;
     state.toCommitId = action_.exchange_id;
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
     let isNumbered = false;
     try {
-      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true, () => isNumbered = true);
+      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true, () => {
+        isNumbered = true;
+        state.isRekeyAccepted = true;
+      });
     } catch (err) {
       if (isNumbered) {
         throw err;
@@ -1484,6 +1498,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const exchange_id = getRandomId();
     state.rekeyId = exchange_id;
     state.rekeyA = a;
+    state.isRekeyRequested = false;
 
     const g_a = intToBytes(gA, 256, { byteOrder: "big", isSigned: false });
 
@@ -1506,7 +1521,10 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
         authKeyId,
         undefined,
         true,
-        () => isNumbered = true,
+        () => {
+          isNumbered = true;
+          state.isRekeyRequested = true;
+        },
       );
     } catch (err) {
       if (isNumbered) {
-- 
2.43.0


From dd5f678277dd6b116b09253934a28dcd79d7729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 69/70] fix: don't request a key for a secret chat while
 accepting one

---
 client/3_secret_chat_manager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 585fa1d..fdeeb75 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1206,6 +1206,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       await this.#abortRekey(state, action_.exchange_id);
       return;
     }
+    // no other exchange is started from now on
+    state.isRekeyAccepted = false;
+    state.toCommitId = action_.exchange_id;
 
     let b: bigint;
     let gB: bigint;
@@ -1228,8 +1231,6 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       key_fingerprint: authKeyId,
     };
     const random_id = getRandomId();
-    state.isRekeyAccepted = false;
-    state.toCommitId = action_.exchange_id;
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
-- 
2.43.0


From 2c36462daf1fef130fdf92e4e7457af41263ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 70/70] fix: handlers of a page were told that they are the
 former account after its client had been initialized again for another one

---
 client/6_client_dispatcher.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index 44eb58d..d2c0744 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -182,6 +182,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
       return;
     }
     this.#isInited = true;
+    this.resetLastGetMe(this); // it may be another account now
 
     try {
       await this.#dispatch("initClient", params);
-- 
2.43.0

