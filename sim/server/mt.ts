// A fake MTProto data centre: transports, authorization key creation, encrypted sessions, containers,
// acknowledgements, salts, resends, and an RPC dispatcher the worlds plug application logic into.
// It also checks, as a strict peer, everything the client puts on the wire.
import nodeCrypto from "node:crypto";
import zlib from "node:zlib";
import { Api } from "/repo/2_tl.ts";
import { TLReader } from "/repo/2_tl.ts";
import type { Sim } from "../core/sim.ts";
import type { Conn, Dial, ServerSide, SimNet } from "../core/net.ts";
import { authKeyId, type Bytes, cat, Codec, decryptFromClient, decryptV1, encryptToClient, eq, fromBig, hex, igeD, igeE, modpow, R, sha1, sha256, toBig, W } from "./wire.ts";
import { DH_PRIME, FINGERPRINT, RSA } from "./keys.ts";

// deno-lint-ignore-file no-explicit-any

export interface AuthKey {
  id: bigint;
  key: Bytes;
  dc: string;
  temp: boolean;
  expiresAt: number; // true time, ms
  perm: AuthKey | null; // what a temporary key is bound to
  salt: bigint;
  oldSalt: bigint;
  createdAt: number;
  media: boolean;
  user?: any;
}

export interface OutMessage {
  id: bigint;
  seqno: number;
  body: Bytes;
  content: boolean;
  sent: number;
  lastConn: Conn | null;
  acked: boolean;
  /** Sim time at which the whole packet had arrived at the client end (approximate, for ack liveness). */
  sentAt: number;
  kind: string;
}

export interface MtSession {
  key: string;
  id: bigint;
  authKey: AuthKey;
  conn: MtConn | null;
  perConn: Map<MtConn, { firstId: bigint; lastId: bigint; maxSeq: number }>;
  contentSeqs: Set<number>;
  seen: Map<bigint, string>;
  outSeq: number;
  outLast: bigint;
  queue: OutMessage[];
  unacked: Map<bigint, OutMessage>;
  sentIds: Set<bigint>;
  created: boolean;
  flushScheduled: boolean;
  inited: boolean;
  layer: number;
  pingTimer: any;
  withUpdates: boolean;
  lastActive: number;
  /** Server-side: requests being executed, by message ID. */
  executing: Set<bigint>;
  answers: Map<bigint, bigint>;
  closed: boolean;
}

export interface RpcContext {
  server: MtServer;
  dc: string;
  session: MtSession;
  conn: MtConn;
  authKey: AuthKey;
  permKey: AuthKey;
  msgId: bigint;
  fn: any;
  withoutUpdates: boolean;
  initConnection: any | null;
  wrappers: string[];
}

export type RpcReply = { result: Uint8Array } | { error: [number, string] } | { none: true };
export type RpcHandler = (ctx: RpcContext) => RpcReply | Promise<RpcReply>;

export interface MtFaults {
  /** Break the connection after executing, before the reply leaves. */
  killBeforeReply: number;
  /** The reply is delayed a lot. */
  slowReply: number;
  /** Rotate the salt before handling a message. */
  rotateSalt: number;
  /** Send a message twice (as servers do when an acknowledgement is late). */
  resend: number;
  /** Announce an already sent message with msg_detailed_info. */
  detailedInfo: number;
  /** Attack: inject a forged or corrupted packet. */
  forge: number;
  /** Refuse a message with a bad_msg_notification whose code makes clients start a new session. */
  badMsg: number;
  /** The server drops the connection on its own. */
  hangUp: number;
  /** Application-level internal errors (500). */
  rpcInternal: number;
}
export const NO_MT_FAULTS: MtFaults = { killBeforeReply: 0, slowReply: 0, rotateSalt: 0, resend: 0, detailedInfo: 0, forge: 0, badMsg: 0, hangUp: 0, rpcInternal: 0 };

export class MtConn implements ServerSide {
  readonly codec: Codec;
  readonly conn: Conn;
  readonly server: MtServer;
  readonly dc: string;
  readonly media: boolean;
  sessions = new Set<MtSession>();
  closed = false;
  plain: { nonce?: Bytes; serverNonce?: Bytes; newNonce?: Bytes; tmp?: [Bytes, Bytes]; a?: bigint; temp?: boolean; expiresIn?: number; pq?: bigint } = {};
  lastPlainMsgId = 0n;
  packetsIn = 0;
  constructor(server: MtServer, conn: Conn, dc: string, media: boolean, codec: Codec) {
    this.server = server;
    this.conn = conn;
    this.dc = dc;
    this.media = media;
    this.codec = codec;
  }
  onData(bytes: Uint8Array) {
    if (this.closed) return;
    const packets = this.codec.feed(bytes);
    if (this.codec.error) {
      this.server.violation("framing", "client-stream", `the client's byte stream does not parse: ${this.codec.error}`);
      this.hangUp();
      return;
    }
    if (this.codec.framing && this.codec.dcId !== null && this.server.options.checkDcId) {
      this.server.options.checkDcId(this.codec.dcId, this);
    }
    for (const p of packets) {
      if (this.closed) return;
      this.packetsIn++;
      this.server.onPacket(this, p);
    }
  }
  onClose(_how: "fin" | "reset") {
    if (this.closed) return;
    this.closed = true;
    this.#detach();
  }
  #detach() {
    this.server.conns.delete(this);
    for (const s of this.sessions) if (s.conn === this) s.conn = null;
  }
  hangUp(how: "fin" | "reset" = "fin") {
    if (this.closed) return;
    this.closed = true;
    this.#detach();
    this.conn.serverEnd(how);
  }
  sendPacket(p: Uint8Array) {
    if (this.closed) return;
    const pad = this.server.sim.rng("srv.framepad");
    this.conn.send(this.codec.frame(p, pad.bytes(pad.int(0, 15))));
  }
}

const HOSTS: Record<string, string> = {
  "149.154.175.50": "1",
  "149.154.167.51": "2",
  "95.161.76.100": "2",
  "149.154.175.100": "3",
  "149.154.167.91": "4",
  "149.154.171.5": "5",
  "149.154.175.10": "1-test",
  "149.154.167.40": "2-test",
  "149.154.175.117": "3-test",
  "2001:b28:f23d:f001::a": "1",
  "2001:67c:4e8:f002::a": "2",
  "2001:b28:f23d:f003::a": "3",
  "2001:67c:4e8:f004::a": "4",
  "2001:b28:f23f:f005::a": "5",
  "2001:b28:f23d:f001::e": "1-test",
  "2001:67c:4e8:f002::e": "2-test",
  "2001:b28:f23d:f003::e": "3-test",
};
const WS_NAMES: Record<string, string> = { pluto: "1", venus: "2", aurora: "3", vesta: "4", flora: "5" };

export function dcOfDial(d: Dial): { dc: string; media: boolean } | null {
  if (d.url) {
    const u = new URL(d.url);
    const m = /^(pluto|venus|aurora|vesta|flora)(-1)?\.web\.telegram\.org$/.exec(u.hostname);
    if (!m) return null;
    return { dc: WS_NAMES[m[1]] + (u.pathname === "/apiws_test" ? "-test" : ""), media: !!m[2] };
  }
  const dc = HOSTS[d.hostname];
  return dc ? { dc, media: false } : null;
}

export interface MtOptions {
  secret?: Uint8Array | null;
  mustObfuscate?: boolean;
  checkDcId?: (dcId: number, conn: MtConn) => void;
  smallDh?: boolean;
  /** Property name each kind of wire violation is reported under. */
  properties?: Partial<Record<"framing" | "protocol" | "acks" | "authkey", string>>;
  /** Tamper with plain (handshake) replies. */
  tamperPlain?: (name: string, body: Bytes, conn: MtConn) => Bytes[];
  /** The data centre number each handshake has to name. */
  handshakeDc?: (conn: MtConn) => number;
  /** Exponents of the server's half, to reach unusual values. */
  dhA?: () => bigint;
  onAuthKey?: (k: AuthKey, conn: MtConn) => void;
  pq?: () => bigint;
}

const GENERIC = new Set(["invokeAfterMsg", "invokeAfterMsgs", "initConnection", "invokeWithLayer", "invokeWithoutUpdates", "invokeWithMessagesRange", "invokeWithTakeout", "invokeWithBusinessConnection", "invokeWithGooglePlayIntegrity", "invokeWithApnsSecret", "invokeWithReCaptcha"]);

let idToName: Map<number, string> | null = null;
/** Reads one function call, unwrapping generic functions. */
export function parseCall(body: Uint8Array): { wrappers: any[]; fn: any } {
  const schema = Api.schema as any;
  const wrappers: any[] = [];
  const reader = new TLReader(body);
  while (true) {
    const id = reader.readInt32(false);
    if (!idToName) {
      idToName = new Map();
      for (const [k, v] of Object.entries<any>(schema.definitions)) idToName.set(v[0] >>> 0, k);
    }
    const name = idToName.get(id >>> 0);
    if (!name) throw new Error("unknown constructor " + id.toString(16));
    const def = schema.definitions[name];
    const isGeneric = GENERIC.has(name);
    const obj: any = { _: name };
    const flags: Record<string, number> = {};
    let inner = false;
    for (const [field, type] of def[1]) {
      let t: string = type;
      const m = /^(\w+)\.(\d+)\?(.*)$/.exec(t);
      if (m) {
        if (!(flags[m[1]] & (1 << Number(m[2])))) continue;
        t = m[3];
      }
      if (t === "#") {
        flags[field] = reader.readInt32();
        continue;
      }
      if (t === "true") {
        obj[field] = true;
        continue;
      }
      if (t === "!X" || (isGeneric && field === "query")) {
        inner = true;
        break;
      }
      obj[field] = reader.readType(t, schema);
    }
    if (inner) {
      wrappers.push(obj);
      continue;
    }
    if (reader.buffer.byteLength !== 0) throw new Error(`${reader.buffer.byteLength} stray bytes after ${name}`);
    return { wrappers, fn: obj };
  }
}

export class MtServer {
  readonly sim: Sim;
  readonly net: SimNet;
  readonly options: MtOptions;
  faults: MtFaults;
  keys = new Map<string, AuthKey>(); // dc/id
  everSent = new Map<string, Set<bigint>>();
  sessions = new Map<string, MtSession>();
  conns = new Set<MtConn>();
  handler: RpcHandler;
  /** Every execution of an RPC, in order. */
  executions: { msgId: bigint; session: string; name: string; t: number }[] = [];
  stats = { packets: 0, messages: 0, rpcs: 0, acks: 0, badSalts: 0, badTimes: 0, badMsgs: 0, forged: 0, resends: 0, containersIn: 0, containersOut: 0, gzipIn: 0, gzipOut: 0, pings: 0, sessions: 0, keysCreated: 0, plain: 0, transportErrors: 0 };
  /** Set when the server made the client abandon a session (forged packets, bad_msg_notification codes that invalidate). */
  invalidations: number[] = [];
  replyDelay: [number, number] = [1, 60];
  resendAfter = 0;
  /** For how long an expired temporary key is still accepted, ms. */
  expiryGrace = 0;
  onAck?: (s: MtSession, m: OutMessage) => void;
  onSession?: (s: MtSession) => void;
  onConn?: (c: MtConn) => void;
  onPacketKind?: (c: MtConn, plain: boolean) => void;
  onUnknownKey?: (c: MtConn, id: bigint) => void;
  /** Wall clock of the server, ms. */
  clock = () => this.sim.trueTime();

  constructor(sim: Sim, net: SimNet, options: MtOptions, faults: MtFaults, handler: RpcHandler) {
    this.sim = sim;
    this.net = net;
    this.options = options;
    this.faults = faults;
    this.handler = handler;
  }

  listenDirect() {
    this.net.listen((d) => dcOfDial(d) !== null, (conn, dial) => {
      const { dc, media } = dcOfDial(dial)!;
      return this.accept(conn, dc, media);
    });
  }

  accept(conn: Conn, dc: string, media: boolean): MtConn {
    const c = new MtConn(this, conn, dc, media, new Codec(this.options.secret ?? null, this.options.mustObfuscate ?? false));
    this.conns.add(c);
    this.onConn?.(c);
    return c;
  }

  violation(kind: "framing" | "protocol" | "acks" | "authkey", what: string, message: string) {
    const p = this.options.properties?.[kind];
    if (p) this.sim.violation(p, what, message);
    else this.sim.note(`(unclaimed) ${kind} ${what}: ${message}`);
  }

  addKey(dc: string, key: Bytes, extra: Partial<AuthKey> = {}): AuthKey {
    const salt = this.sim.rng("srv.salt").big64();
    const k: AuthKey = { id: authKeyId(key), key, dc, temp: false, expiresAt: Infinity, perm: null, salt, oldSalt: salt, createdAt: this.sim.now, media: false, ...extra };
    this.keys.set(`${dc}/${k.id}`, k);
    return k;
  }

  //// PACKETS ////
  onPacket(c: MtConn, p: Bytes) {
    this.stats.packets++;
    const r = new R(p);
    let id: bigint;
    try {
      id = r.i64();
    } catch {
      this.violation("framing", "short-packet", `packet of ${p.length} bytes`);
      return;
    }
    this.onPacketKind?.(c, id === 0n);
    if (id === 0n) return this.#plain(c, r);
    const key = this.keys.get(`${c.dc}/${id}`);
    if (key?.temp && this.clock() > key.expiresAt + 180000 && !this.sim.skewed) {
      this.violation("authkey", "expired-key-used", `a packet is encrypted under a temporary key that expired ${((this.clock() - key.expiresAt) / 1000).toFixed(0)} s ago`);
    }
    if (!key || (key.temp && this.clock() > key.expiresAt + this.expiryGrace)) {
      this.stats.transportErrors++;
      this.sim.note(`auth key ${id} is unknown to DC ${c.dc}: -404`);
      this.onUnknownKey?.(c, id);
      c.sendPacket(new W().u32(-404 >>> 0).done());
      this.sim.after(50, "srv.hangup", () => c.hangUp());
      return;
    }
    const plain = decryptFromClient(key.key, p);
    if (!plain) {
      this.violation("protocol", "undecryptable", "a packet under a known auth key does not decrypt or has a wrong message key");
      return;
    }
    const q = new R(plain);
    const salt = q.i64();
    const sessionId = q.i64();
    const msgId = q.i64();
    const seqno = q.u32();
    const len = q.u32();
    if (len % 4 !== 0 || len > q.left) {
      this.violation("protocol", "length", `message length ${len} with ${q.left} bytes left`);
      return;
    }
    const body = q.raw(len);
    const pad = q.left;
    if (pad < 12 || pad > 1024) this.violation("protocol", "padding", `padding of ${pad} bytes`);
    this.#message(c, key, salt, sessionId, msgId, seqno, body);
  }

  #session(c: MtConn, key: AuthKey, id: bigint): MtSession {
    const k = `${key.dc}/${key.id}/${id}`;
    let s = this.sessions.get(k);
    if (!s) {
      s = { key: k, id, authKey: key, conn: c, perConn: new Map(), contentSeqs: new Set(), seen: new Map(), outSeq: 0, outLast: 0n, queue: [], unacked: new Map(), sentIds: new Set(), created: false, flushScheduled: false, inited: false, layer: 0, pingTimer: null, withUpdates: true, lastActive: this.sim.now, executing: new Set(), answers: new Map(), closed: false };
      this.sessions.set(k, s);
      this.stats.sessions++;
      this.onSession?.(s);
    }
    s.lastActive = this.sim.now;
    if (s.conn !== c) {
      const fresh = s.conn !== null || s.created;
      s.conn = c;
      c.sessions.add(s);
      // a session that comes back on another connection gets its unacknowledged messages again
      if (fresh && s.unacked.size) {
        for (const m of s.unacked.values()) if (!s.queue.includes(m)) s.queue.push(m);
        this.stats.resends += s.unacked.size;
        this.#flushSoon(s);
      }
    } else c.sessions.add(s);
    return s;
  }

  #history(s: MtSession, c: MtConn) {
    let h = s.perConn.get(c);
    if (!h) s.perConn.set(c, h = { firstId: 0n, lastId: 0n, maxSeq: -1 });
    return h;
  }

  #seconds(msgId: bigint) {
    return Number(msgId >> 32n);
  }

  #message(c: MtConn, key: AuthKey, salt: bigint, sessionId: bigint, msgId: bigint, seqno: number, body: Bytes) {
    const s = this.#session(c, key, sessionId);
    this.stats.messages++;
    this.sim.mix(Number(msgId & 0xffffffffn));
    const flat: { msgId: bigint; seqno: number; body: Bytes; inner: boolean }[] = [];
    const isContainer = body.length >= 8 && new R(body).u32() === 0x73f1f8dc;
    try {
      if (isContainer) {
        this.stats.containersIn++;
        const r = new R(body);
        r.u32();
        const n = r.u32();
        for (let i = 0; i < n; i++) {
          const id = r.i64(), sq = r.u32(), l = r.u32();
          if (l % 4 !== 0) throw new Error(`inner length ${l}`);
          const b = r.raw(l);
          if (b.length >= 4 && new R(b).u32() === 0x73f1f8dc) throw new Error("nested container");
          flat.push({ msgId: id, seqno: sq, body: b, inner: true });
        }
        if (r.left !== 0) throw new Error(`${r.left} stray bytes`);
        if (n === 0) throw new Error("empty container");
      }
    } catch (err) {
      this.violation("protocol", "container", `malformed container: ${(err as Error).message}`);
      return;
    }
    flat.push({ msgId, seqno, body, inner: false });
    // message IDs and sequence numbers, in the order the client made them
    for (const m of [...flat].sort((a, b) => a.inner !== b.inner ? (a.inner ? -1 : 1) : a.msgId < b.msgId ? -1 : 1)) {
      if (m.msgId % 4n !== 0n || m.msgId <= 0n) this.violation("protocol", "msg-id-multiple", `client message ID ${m.msgId} is not a positive multiple of 4`);
      const h = this.#history(s, c);
      if (m.msgId <= h.lastId) this.violation("protocol", "msg-id-order", `client message ID ${m.msgId} after ${h.lastId} in session ${s.id}`);
      else {
        for (const [o, ho] of s.perConn) {
          if (o === c) continue;
          if (o.conn.id < c.conn.id ? m.msgId <= ho.lastId : m.msgId >= ho.firstId) this.violation("protocol", "msg-id-order", `client message ID ${m.msgId} is out of order across connections in session ${s.id}`);
        }
      }
      if (h.firstId === 0n) h.firstId = m.msgId;
      h.lastId = m.msgId > h.lastId ? m.msgId : h.lastId;
      const container = !m.inner && isContainer;
      const ctor = m.body.length >= 4 ? new R(m.body).u32() : 0;
      const content = !(container || ctor === 0x62d6b459);
      if ((m.seqno & 1) !== (content ? 1 : 0)) this.violation("protocol", "seqno-parity", `message ${m.msgId} (${content ? "" : "not "}content-related) has seqno ${m.seqno}`);
      if (content ? m.seqno <= h.maxSeq : m.seqno < h.maxSeq) this.violation("protocol", "seqno-order", `message ${m.msgId} has seqno ${m.seqno} after ${h.maxSeq}`);
      if (content && s.contentSeqs.has(m.seqno)) this.violation("protocol", "seqno-reuse", `message ${m.msgId} reuses seqno ${m.seqno}`);
      if (content) s.contentSeqs.add(m.seqno);
      if (m.seqno > h.maxSeq) h.maxSeq = m.seqno;
    }
    // time
    const now = this.clock() / 1000;
    const t = this.#seconds(msgId);
    if (t < now - 300 || t > now + 30) {
      this.stats.badTimes++;
      const code = t < now ? 16 : 17;
      this.sim.probe("srv.bad_msg." + code);
      if (code === 17) this.invalidations.push(this.sim.now);
      this.#service(s, new W().u32(0xa7eff811).i64(msgId).u32(seqno).u32(code).done(), "bad_msg");
      return;
    }
    if (this.faults.rotateSalt && this.sim.fault("srv.rotateSalt", this.faults.rotateSalt)) {
      key.oldSalt = key.salt;
      key.salt = this.sim.rng("srv.salt").big64();
    }
    if (salt !== key.salt) {
      this.stats.badSalts++;
      this.sim.probe("srv.bad_salt" + (isContainer ? ".container" : ""));
      this.#service(s, new W().u32(0xedab447b).i64(msgId).u32(seqno).u32(48).i64(key.salt).done(), "bad_salt");
      return;
    }
    if (this.faults.badMsg && this.sim.fault("srv.badMsg", this.faults.badMsg)) {
      this.stats.badMsgs++;
      const code = this.sim.rng("srv.badMsgCode").pick([18, 19, 20, 32, 33, 34, 35, 64]);
      this.invalidations.push(this.sim.now);
      this.#service(s, new W().u32(0xa7eff811).i64(msgId).u32(seqno).u32(code).done(), "bad_msg");
      return;
    }
    if (!s.created) {
      s.created = true;
      this.#queue(s, new W().u32(0x9ec20908).i64(flat[0].msgId).i64(this.sim.rng("srv.unique").big64()).i64(key.salt).done(), true, "new_session_created");
    }
    for (const m of flat) {
      if (!m.inner && isContainer) continue;
      this.#body(c, s, m.msgId, m.seqno, m.body);
    }
    if (this.faults.hangUp && this.sim.fault("srv.hangUp", this.faults.hangUp)) {
      this.sim.after(this.sim.jitter("srv.hangUp", 0, 500), "srv.hangup", () => c.hangUp(this.sim.rng("srv.hangUpHow").bool() ? "fin" : "reset"));
    }
    if (this.faults.forge && this.sim.fault("srv.forge", this.faults.forge)) {
      this.sim.after(this.sim.jitter("srv.forge", 0, 200), "srv.forge", () => this.forge(s));
    }
  }

  #body(c: MtConn, s: MtSession, msgId: bigint, seqno: number, body: Bytes) {
    if (s.seen.has(msgId)) {
      this.violation("protocol", "msg-id-reuse", `message ID ${msgId} used twice in session ${s.id}`);
      return;
    }
    const r = new R(body);
    const ctor = r.u32();
    try {
      switch (ctor) {
        case 0x62d6b459: {
          s.seen.set(msgId, "ack");
          const ids = r.longs();
          if (ids.length === 0) this.violation("acks", "empty", "empty msgs_ack");
          for (const id of ids) this.#ack(s, id);
          return;
        }
        case 0x7abe77ec: {
          s.seen.set(msgId, "ping");
          this.stats.pings++;
          this.#queue(s, new W().u32(0x347773c5).i64(msgId).i64(r.i64()).done(), false, "pong");
          return;
        }
        case 0xf3427b8c: {
          s.seen.set(msgId, "ping");
          this.stats.pings++;
          const pingId = r.i64();
          const d = r.u32();
          this.#queue(s, new W().u32(0x347773c5).i64(msgId).i64(pingId).done(), false, "pong");
          this.sim.cancel(s.pingTimer);
          s.pingTimer = this.sim.after(d * 1000, "srv.pingTimeout", () => {
            if (s.conn === c) c.hangUp();
          });
          return;
        }
        case 0x3072cfa1: {
          this.stats.gzipIn++;
          const inner = Uint8Array.from(zlib.gunzipSync(r.bytes()));
          this.#body(c, s, msgId, seqno, inner);
          return;
        }
      }
    } catch (err) {
      this.violation("protocol", "service", `malformed service message ${ctor.toString(16)}: ${(err as Error).message}`);
      return;
    }
    this.#rpc(c, s, msgId, body);
  }

  #ack(s: MtSession, id: bigint) {
    this.stats.acks++;
    const m = s.unacked.get(id);
    if (m) {
      m.acked = true;
      s.unacked.delete(id);
      this.onAck?.(s, m);
    } else if (!s.sentIds.has(id)) {
      // acknowledgements of messages from an earlier session of the same key are harmless
      if (this.everSent.get(s.authKey.dc)?.has(id)) return;
      this.violation("acks", "unknown", `acknowledgement of ${id}, which the server never sent`);
    }
  }

  #rpc(c: MtConn, s: MtSession, msgId: bigint, body: Bytes) {
    s.seen.set(msgId, "rpc");
    let parsed: { wrappers: any[]; fn: any };
    try {
      parsed = parseCall(body);
    } catch (err) {
      this.violation("protocol", "call", `malformed call: ${(err as Error).message}`);
      this.#result(s, msgId, { error: [400, "INPUT_METHOD_INVALID"] }, "?");
      return;
    }
    this.stats.rpcs++;
    const names = parsed.wrappers.map((v) => v._);
    const init = parsed.wrappers.find((v) => v._ === "initConnection") ?? null;
    const permKey = s.authKey.temp ? s.authKey.perm : s.authKey;
    const fn = parsed.fn;
    if (fn._ === "auth.bindTempAuthKey") {
      this.sim.after(this.sim.jitter("srv.reply", ...this.replyDelay), "srv.bind", () => this.#result(s, msgId, this.#bind(s, msgId, fn), fn._));
      return;
    }
    if (!permKey) {
      this.violation("authkey", "unbound", `${fn._} was sent under a temporary key before it was bound`);
      this.#result(s, msgId, { error: [401, "AUTH_KEY_PERM_EMPTY"] }, fn._);
      return;
    }
    if (init) {
      s.inited = true;
      const l = parsed.wrappers.find((v) => v._ === "invokeWithLayer");
      if (!l) this.violation("protocol", "no-layer", "initConnection without invokeWithLayer");
      else s.layer = l.layer;
    } else if (!s.inited) {
      this.#result(s, msgId, { error: [400, "CONNECTION_NOT_INITED"] }, fn._);
      return;
    }
    const ctx: RpcContext = { server: this, dc: c.dc, session: s, conn: c, authKey: s.authKey, permKey, msgId, fn, withoutUpdates: names.includes("invokeWithoutUpdates"), initConnection: init, wrappers: names };
    this.executions.push({ msgId, session: s.key, name: fn._, t: this.sim.now });
    s.executing.add(msgId);
    if (this.faults.rpcInternal && this.sim.fault("srv.rpcInternal", this.faults.rpcInternal)) {
      this.sim.after(this.sim.jitter("srv.reply", ...this.replyDelay), "srv.reply", () => this.#result(s, msgId, { error: [500, "INTERNAL"] }, fn._));
      return;
    }
    let delay = this.sim.jitter("srv.reply", ...this.replyDelay);
    if (this.faults.slowReply && this.sim.fault("srv.slowReply", this.faults.slowReply)) delay += this.sim.rng("srv.slow").range(200, 15000);
    Promise.resolve().then(() => this.handler(ctx)).then((reply) => {
      this.sim.after(delay, "srv.reply", () => {
        if ("none" in reply) {
          s.executing.delete(msgId);
          return;
        }
        this.#result(s, msgId, reply, fn._);
      });
    }, (err) => {
      this.sim.note("server handler failed: " + err?.stack);
      this.sim.probe("srv.handlerError");
      throw err;
    });
  }

  #result(s: MtSession, msgId: bigint, reply: RpcReply, name: string) {
    s.executing.delete(msgId);
    if ("none" in reply) return;
    let body: Bytes;
    if ("error" in reply) {
      body = new W().u32(0x2144ca19).u32(reply.error[0] >>> 0).str(reply.error[1]).done();
    } else body = Uint8Array.from(reply.result);
    const g = this.sim.rng("srv.gzip");
    if (g.bool(body.length > 512 ? 0.5 : 0.06)) {
      this.stats.gzipOut++;
      body = new W().u32(0x3072cfa1).bytes(zlib.gzipSync(body)).done();
    }
    if (this.faults.killBeforeReply && this.sim.fault("srv.killBeforeReply", this.faults.killBeforeReply)) {
      s.conn?.hangUp(this.sim.rng("srv.hangUpHow").bool() ? "fin" : "reset");
    }
    this.#queue(s, new W().u32(0xf35c6d01).i64(msgId).raw(body).done(), true, "rpc_result " + name, msgId);
  }

  #bind(s: MtSession, msgId: bigint, fn: any): RpcReply {
    try {
      const perm = this.keys.get(`${s.authKey.dc}/${fn.perm_auth_key_id}`);
      if (!perm) throw new Error("unknown permanent key");
      if (!s.authKey.temp) throw new Error("not a temporary key");
      const enc: Bytes = fn.encrypted_message;
      if (new R(enc).i64() !== perm.id) throw new Error("encrypted under another key");
      const plain = decryptV1(perm.key, enc);
      const r = new R(plain);
      r.raw(16);
      const innerMsgId = r.i64();
      const seq = r.u32();
      const len = r.u32();
      if (len !== 40) throw new Error("inner length " + len);
      if (!eq(sha1(plain.subarray(0, 32 + len)).subarray(4, 20), enc.subarray(8, 24))) throw new Error("message key");
      if (r.u32() !== 0x75a3f765) throw new Error("constructor");
      const nonce = r.i64(), temp = r.i64(), permId = r.i64(), sess = r.i64(), exp = r.u32();
      if (seq !== 0) throw new Error("seqno");
      if (innerMsgId !== msgId) throw new Error(`message ID ${innerMsgId} instead of ${msgId}`);
      if (nonce !== fn.nonce) throw new Error("nonce");
      if (temp !== s.authKey.id) throw new Error("temp_auth_key_id");
      if (permId !== perm.id) throw new Error("perm_auth_key_id");
      if (sess !== s.id) throw new Error("temp_session_id");
      if (exp !== fn.expires_at) throw new Error("expires_at");
      s.authKey.perm = perm;
      this.sim.probe("srv.bound");
      return { result: new W().u32(0x997275b5).done() };
    } catch (err) {
      this.sim.note("bind failed: " + (err as Error).message);
      this.sim.probe("srv.bindFailed");
      return { error: [400, "ENCRYPTED_MESSAGE_INVALID"] };
    }
  }

  //// OUTGOING ////
  #nextId(s: MtSession, response: boolean): bigint {
    let id = (BigInt(Math.floor(this.clock() / 1000)) << 32n) | (BigInt(Math.floor((this.clock() % 1000) * 4000000)) & 0xfffffffcn);
    id = (id & ~3n) | (response ? 1n : 3n);
    while (id <= s.outLast) id += 4n;
    s.outLast = id;
    return id;
  }

  /** Sends updates (or any object) to a session. */
  push(s: MtSession, body: Uint8Array, kind = "update") {
    this.#queue(s, Uint8Array.from(body), true, kind);
  }

  /** Sends something that is not content-related. */
  pushService(s: MtSession, body: Uint8Array, kind: string) {
    this.#queue(s, Uint8Array.from(body), false, kind);
  }

  #service(s: MtSession, body: Bytes, kind: string) {
    this.#queue(s, body, false, kind, undefined, true);
  }

  #queue(s: MtSession, body: Bytes, content: boolean, kind: string, answers?: bigint, now = false) {
    const id = this.#nextId(s, kind.startsWith("rpc_result") || kind === "pong");
    const seqno = content ? 2 * s.outSeq++ + 1 : 2 * s.outSeq;
    const m: OutMessage = { id, seqno, body, content, sent: 0, lastConn: null, acked: false, sentAt: 0, kind };
    if (answers !== undefined) s.answers.set(answers, id);
    s.queue.push(m);
    s.sentIds.add(id);
    let ever = this.everSent.get(s.authKey.dc);
    if (!ever) this.everSent.set(s.authKey.dc, ever = new Set());
    ever.add(id);
    if (content) s.unacked.set(id, m);
    if (now) this.#flush(s);
    else this.#flushSoon(s);
  }

  #flushSoon(s: MtSession) {
    if (s.flushScheduled) return;
    s.flushScheduled = true;
    this.sim.after(this.sim.jitter("srv.flush", 0, 25), "srv.flush", () => {
      s.flushScheduled = false;
      this.#flush(s);
    });
  }

  #flush(s: MtSession) {
    if (!s.conn || s.conn.closed || s.queue.length === 0) return;
    const r = this.sim.rng("srv.pack");
    while (s.queue.length) {
      if (!s.conn || s.conn.closed) return;
      if (s.queue.length > 1 && r.bool(0.3)) r.shuffle(s.queue);
      const n = Math.min(s.queue.length, r.weighted([[1, 4], [2, 2], [r.int(1, 12), 2]]));
      const batch = s.queue.splice(0, n);
      this.#transmit(s, batch);
      if (this.faults.resend && this.sim.fault("srv.resend", this.faults.resend)) {
        const again = batch.filter((m) => m.content);
        if (again.length) {
          this.sim.after(this.sim.rng("srv.resendAfter").range(1, 3000), "srv.resend", () => {
            const due = again.filter((m) => !m.acked || r.bool(0.5));
            if (s.conn && !s.conn.closed && due.length) {
              this.stats.resends += due.length;
              this.#transmit(s, due);
            }
          });
        }
      }
      if (this.faults.detailedInfo && this.sim.fault("srv.detailedInfo", this.faults.detailedInfo)) {
        const m = batch.find((v) => v.content && v.kind.startsWith("rpc_result"));
        if (m) {
          const ans = [...s.answers].find(([, v]) => v === m.id)?.[0];
          if (ans !== undefined) this.#service(s, new W().u32(0x276d3ec6).i64(ans).i64(m.id).u32(m.body.length).u32(0).done(), "msg_detailed_info");
        }
      }
    }
  }

  #wrap(m: OutMessage): Bytes {
    // whole messages may be compressed too
    if (m.body.length > 600 && !m.kind.startsWith("rpc_result") && this.sim.rng("srv.gzip2").bool(0.5)) {
      this.stats.gzipOut++;
      return new W().u32(0x3072cfa1).bytes(zlib.gzipSync(m.body)).done();
    }
    return m.body;
  }

  #transmit(s: MtSession, batch: OutMessage[]) {
    let body: Bytes, id: bigint, seqno: number;
    for (const m of batch) {
      m.sent++;
      m.lastConn = s.conn!.conn;
      m.sentAt = this.sim.now;
    }
    if (batch.length === 1 && !this.sim.rng("srv.pack1").bool(0.1)) {
      body = this.#wrap(batch[0]);
      id = batch[0].id;
      seqno = batch[0].seqno;
    } else {
      this.stats.containersOut++;
      const w = new W().u32(0x73f1f8dc).u32(batch.length);
      for (const m of batch) {
        const b = this.#wrap(m);
        w.i64(m.id).u32(m.seqno).u32(b.length).raw(b);
      }
      body = w.done();
      id = this.#nextId(s, false);
      seqno = 2 * s.outSeq;
    }
    if (this.sim.options.verbose) this.sim.note(`srv -> ${batch.map((m) => m.kind).join(", ")}`);
    s.conn!.sendPacket(this.seal(s.authKey, s.id, id, seqno, body));
  }

  seal(key: AuthKey, sessionId: bigint, id: bigint, seqno: number, body: Uint8Array, salt = key.salt): Bytes {
    const payload = new W().i64(salt).i64(sessionId).i64(id).u32(seqno).u32(body.length).raw(body).done();
    const r = this.sim.rng("srv.padding");
    const pad = ((16 - ((payload.length + 12) % 16)) % 16) + 12 + 16 * r.weighted([[0, 6], [r.int(0, 8), 1]]);
    return encryptToClient(key.key, key.id, payload, r.bytes(pad));
  }

  //// ATTACKS ////
  /** Called to build a message the attacker would like the client to believe. */
  forgeBody: ((s: MtSession) => Bytes | null) | null = null;
  onForge?: (kind: string, s: MtSession) => void;

  forge(s: MtSession) {
    const c = s.conn;
    if (!c || c.closed) return;
    const body = this.forgeBody?.(s);
    if (!body) return;
    const r = this.sim.rng("srv.forgeKind");
    const id = this.#nextId({ ...s, outLast: s.outLast } as MtSession, true);
    const kind = r.pick(["flip-data", "flip-key", "session", "auth-key", "key-id", "truncate", "garbage", "flip-tail", "direction"]);
    this.stats.forged++;
    this.sim.probe("forge." + kind);
    const good = () => this.seal(s.authKey, s.id, id, 1, body);
    let p: Bytes;
    switch (kind) {
      case "flip-data":
        p = good();
        p[24 + r.int(0, p.length - 25)] ^= 1 << r.int(0, 7);
        break;
      case "flip-tail":
        p = good();
        p[p.length - 1 - r.int(0, 15)] ^= 1 << r.int(0, 7);
        break;
      case "flip-key":
        p = good();
        p[8 + r.int(0, 15)] ^= 1 << r.int(0, 7);
        break;
      case "session":
        p = this.seal(s.authKey, s.id ^ (1n << BigInt(r.int(0, 62))), id, 1, body);
        break;
      case "auth-key": {
        const other = r.bytes(256);
        const k = { ...s.authKey, key: other };
        p = this.seal(k, s.id, id, 1, body);
        break;
      }
      case "key-id":
        p = good();
        p[r.int(0, 7)] ^= 1 << r.int(0, 7);
        this.invalidations.push(this.sim.now);
        break;
      case "truncate":
        p = good();
        p = p.slice(0, Math.max(28, p.length - 4 * r.int(1, Math.max(1, (p.length >> 2) - 8))));
        this.invalidations.push(this.sim.now);
        break;
      case "direction": {
        // a packet made the way clients make them
        const payload = new W().i64(s.authKey.salt).i64(s.id).i64(id).u32(1).u32(body.length).raw(body).done();
        const plain = cat(payload, r.bytes(((16 - ((payload.length + 12) % 16)) % 16) + 12));
        const mk = sha256(s.authKey.key.subarray(88, 120), plain).subarray(8, 24);
        const a = sha256(mk, s.authKey.key.subarray(0, 36));
        const b = sha256(s.authKey.key.subarray(40, 76), mk);
        p = new W().i64(s.authKey.id).raw(mk).raw(igeE(plain, cat(a.subarray(0, 8), b.subarray(8, 24), a.subarray(24, 32)), cat(b.subarray(0, 8), a.subarray(8, 24), b.subarray(24, 32)))).done();
        break;
      }
      default:
        p = r.bytes(8 + 16 + 16 * r.int(1, 6)) as Bytes;
        this.invalidations.push(this.sim.now);
    }
    this.onForge?.(kind, s);
    c.sendPacket(p);
  }

  //// AUTHORIZATION KEY CREATION ////
  #fingerprints: bigint[] | null = null;
  #plain(c: MtConn, r: R) {
    this.stats.plain++;
    const sim = this.sim;
    let body: Bytes, msgId: bigint;
    try {
      msgId = r.i64();
      const len = r.u32();
      body = r.raw(len);
    } catch {
      this.violation("framing", "plain-short", "short plain message");
      return;
    }
    if (msgId % 4n !== 0n || msgId <= 0n) this.violation("protocol", "plain-msg-id", `plain message ID ${msgId}`);
    if (msgId <= c.lastPlainMsgId) this.violation("protocol", "plain-msg-id-order", `plain message ID ${msgId} after ${c.lastPlainMsgId}`);
    c.lastPlainMsgId = msgId;
    const q = new R(body);
    const ctor = q.u32();
    const st = c.plain;
    const reply = (name: string, b: Bytes) => {
      let i = 0;
      for (const out of this.options.tamperPlain ? this.options.tamperPlain(name, b, c) : [b]) {
        const id = ((BigInt(Math.floor(this.clock() / 1000)) << 32n) | 1n) + BigInt(4 * ((this.stats.plain + i++) & 0xffff));
        sim.after(sim.jitter("srv.plain", 1, 80), "srv.plain", () => c.sendPacket(new W().i64(0n).i64(id).u32(out.length).raw(out).done()));
      }
    };
    const error = (code: number) => c.sendPacket(new W().u32(code >>> 0).done());
    const rnd = sim.rng("srv.authkey");
    try {
      if (ctor === 0xbe7e8ef1) {
        st.nonce = q.raw(16);
        st.serverNonce = rnd.bytes(16);
        st.pq = this.options.pq ? this.options.pq() : rnd.pick(PQS);
        const w = new W().u32(0x05162463).raw(st.nonce).raw(st.serverNonce).bytes(fromBig(st.pq, 8));
        const fps = this.#fingerprints ??= rnd.bool(0.5) ? [FINGERPRINT] : rnd.bool() ? [rnd.big64(), FINGERPRINT, rnd.big64()] : [rnd.big64(), rnd.big64(), FINGERPRINT];
        reply("resPQ", w.longs(fps).done());
      } else if (ctor === 0xd712e4be) {
        const nonce = q.raw(16), serverNonce = q.raw(16);
        const p = toBig(q.bytes()), qq = toBig(q.bytes());
        const fp = q.i64();
        const enc = q.bytes();
        if (!st.nonce || !eq(nonce, st.nonce) || !st.serverNonce || !eq(serverNonce, st.serverNonce)) return error(-404);
        if (p * qq !== st.pq || p >= qq || fp !== FINGERPRINT) return error(-404);
        // RSA_PAD
        const m = toBig(enc);
        if (enc.length !== 256 || m >= RSA.n) return error(-404);
        const m1 = modpow(m % RSA.p, RSA.dp, RSA.p), m2 = modpow(m % RSA.q, RSA.dq, RSA.q);
        let h = (RSA.qi * (m1 - m2)) % RSA.p;
        if (h < 0n) h += RSA.p;
        const plain = fromBig(m2 + h * RSA.q, 256);
        const aes = plain.subarray(32);
        const temp = plain.subarray(0, 32).map((v, i) => v ^ sha256(aes)[i]);
        const dwh = igeD(aes, temp, new Uint8Array(32));
        const data = dwh.slice(0, 192).reverse();
        if (!eq(sha256(temp, data), dwh.subarray(192))) return error(-404);
        const d = new R(data);
        const kind = d.u32();
        if (kind !== 0xa9f55f95 && kind !== 0x56fddf88) {
          this.violation("authkey", "inner", `unknown p_q_inner_data ${kind.toString(16)}`);
          return error(-404);
        }
        const ipq = toBig(d.bytes()), ip = toBig(d.bytes()), iq = toBig(d.bytes());
        const inonce = d.raw(16), isn = d.raw(16);
        st.newNonce = d.raw(32);
        const dc = d.i32();
        st.temp = kind === 0x56fddf88;
        st.expiresIn = st.temp ? d.i32() : undefined;
        if (ipq !== st.pq || ip !== p || iq !== qq || !eq(inonce, nonce) || !eq(isn, serverNonce)) return error(-404);
        const want = (parseInt(c.dc) + (c.dc.endsWith("-test") ? 10000 : 0)) * (c.media ? -1 : 1);
        if (this.options.handshakeDc ? dc !== this.options.handshakeDc(c) : Math.abs(dc) !== Math.abs(want)) this.violation("authkey", "dc", `p_q_inner_data for DC ${dc} sent to DC ${this.options.handshakeDc ? this.options.handshakeDc(c) : want}`);
        st.a = this.options.dhA ? this.options.dhA() : toBig(rnd.bytes(64)) + 2n;
        const ga = modpow(3n, st.a, DH_PRIME);
        const answer = new W().u32(0xb5890dba).raw(st.nonce).raw(st.serverNonce).u32(3).bytes(fromBig(DH_PRIME, 256)).bytes(fromBig(ga, 256)).u32(Math.floor(this.clock() / 1000)).done();
        const awh = cat(sha1(answer), answer);
        const padded = cat(awh, rnd.bytes((16 - (awh.length % 16)) % 16));
        const nn = st.newNonce, sn = st.serverNonce;
        const h1 = sha1(nn, sn), h2 = sha1(sn, nn), h3 = sha1(nn, nn);
        st.tmp = [cat(h1, h2.subarray(0, 12)), cat(h2.subarray(12, 20), h3, nn.subarray(0, 4))];
        reply("server_DH_params_ok", new W().u32(0xd0e8075c).raw(st.nonce).raw(st.serverNonce).bytes(igeE(padded, ...st.tmp)).done());
      } else if (ctor === 0xf5045f1f) {
        const nonce = q.raw(16), serverNonce = q.raw(16);
        const enc = q.bytes();
        if (!st.nonce || !eq(nonce, st.nonce) || !st.serverNonce || !eq(serverNonce, st.serverNonce) || !st.tmp || !st.newNonce || st.a === undefined) return error(-404);
        const dec = igeD(enc, ...st.tmp);
        const d = new R(dec.subarray(20));
        if (d.u32() !== 0x6643b654) return error(-404);
        const n2 = d.raw(16), sn2 = d.raw(16);
        const retry = d.i64();
        const gb = toBig(d.bytes());
        const innerLen = d.o;
        if (!eq(n2, nonce) || !eq(sn2, serverNonce) || !eq(sha1(dec.subarray(20, 20 + innerLen)), dec.subarray(0, 20))) return error(-404);
        if (retry !== 0n && rnd.bool(0)) return;
        if (gb <= 1n || gb >= DH_PRIME - 1n) this.violation("authkey", "g_b", "g_b out of range");
        const key = fromBig(modpow(gb, st.a, DH_PRIME), 256);
        const aux = sha1(key).subarray(0, 8);
        const salt = new DataView(st.newNonce.slice(0, 8).map((v, i) => v ^ st.serverNonce![i]).buffer).getBigInt64(0, true);
        const k: AuthKey = { id: authKeyId(key), key, dc: c.dc, temp: !!st.temp, expiresAt: st.temp ? this.clock() + st.expiresIn! * 1000 : Infinity, perm: null, salt, oldSalt: salt, createdAt: sim.now, media: c.media };
        this.keys.set(`${c.dc}/${k.id}`, k);
        this.stats.keysCreated++;
        this.options.onAuthKey?.(k, c);
        const hash1 = sha1(st.newNonce, new Uint8Array([1]), aux).subarray(4, 20);
        reply("dh_gen_ok", new W().u32(0x3bcbf734).raw(nonce).raw(serverNonce).raw(hash1).done());
        c.plain = {};
      } else {
        this.violation("protocol", "plain-call", `unknown plain call ${ctor.toString(16)}`);
        error(-404);
      }
    } catch (err) {
      this.violation("protocol", "plain-malformed", `malformed plain call ${ctor.toString(16)}: ${(err as Error).message}`);
    }
  }

  /** Sessions under any key that belongs to this permanent key and want updates. */
  liveSessions(pred: (s: MtSession) => boolean): MtSession[] {
    return [...this.sessions.values()].filter((s) => s.conn && !s.conn.closed && pred(s));
  }
}

const PQS = (() => {
  const primes = [1206429347n, 1218991343n, 1000000007n, 1000000009n, 1500450271n, 1073741827n, 998244353n, 1299827n * 1n];
  const out: bigint[] = [];
  for (let i = 0; i < primes.length - 1; i++) {
    for (let j = i + 1; j < primes.length - 1; j++) out.push(primes[i] * primes[j]);
  }
  return out;
})();

export const boolTrue = () => new W().u32(0x997275b5).done();
export const boolFalse = () => new W().u32(0xbc799737).done();
export const ok = (o: any): RpcReply => ({ result: Api.serializeObject(o) });
void nodeCrypto;
void hex;
