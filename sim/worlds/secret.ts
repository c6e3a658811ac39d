// World: secret chats. Whole Clients talk through a relaying server to each other or to a model of a conforming peer, while
// messages get lost, delayed, repeated and forged, keys are renewed, and processes crash and restart.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import type { Rng } from "../core/rng.ts";
import { captureLogs, makeNet, makeTransport, MT_RATES, MtServer, NET_RATES, NO_MT_FAULTS, NO_NET_FAULTS, swarm, type TransportKind } from "./common.ts";
import { type Bytes, cat, eq, fromBig, hex, igeD, igeE, modpow, sha1, sha256, toBig, W } from "../server/wire.ts";
import { DH_PRIME } from "../server/keys.ts";
import { boolTrue, type MtSession, ok, type RpcContext, type RpcReply } from "../server/mt.ts";
import { NO_DISK_FAULTS, SimDisk } from "../stubs/disk.ts";
import { authorize, Process, userOf } from "./client_common.ts";
import { Api, SecretChats, X } from "/repo/2_tl.ts";
import { createHash } from "node:crypto";

// deno-lint-ignore-file no-explicit-any

const P: bigint = DH_PRIME;
const P_BYTES = fromBig(P, 256);
const G = 3n;

interface Key {
  key: Bytes;
  id: string;
  fp: bigint;
}
function keyOf(secret: bigint): Key {
  const key = fromBig(secret, 256);
  const h = sha1(key).slice(-8);
  return { key, id: hex(h), fp: new DataView(h.buffer, h.byteOffset, 8).getBigInt64(0, true) };
}
const EMPTY: Key = { key: new Uint8Array(), id: "", fp: 0n };

/** MTProto 2.0 between the parties of a secret chat; x is 0 for what the creator sends and 8 for what the other sends. */
function kdf(key: Uint8Array, msgKey: Uint8Array, x: number): [Bytes, Bytes] {
  const a = sha256(msgKey, key.subarray(x, x + 36));
  const b = sha256(key.subarray(40 + x, 76 + x), msgKey);
  return [cat(a.subarray(0, 8), b.subarray(8, 24), a.subarray(24, 32)), cat(b.subarray(0, 8), a.subarray(8, 24), b.subarray(24, 32))];
}
function encrypt(k: Key, x: number, body: Uint8Array, padding: (n: number) => Uint8Array, extra = 0): Bytes {
  const n = 4 + body.length;
  let pad = (16 - n % 16) % 16;
  if (pad < 12) pad += 16;
  const plain = cat(new W().u32(body.length).raw(body).done(), padding(pad + extra * 16));
  const msgKey = sha256(k.key.subarray(88 + x, 120 + x), plain).subarray(8, 24);
  const [key, iv] = kdf(k.key, msgKey, x);
  return cat(Uint8Array.from(k.id.match(/../g) ?? [], (v) => parseInt(v, 16)), msgKey, igeE(plain, key, iv));
}
function decrypt(k: Key, x: number, bytes: Uint8Array): { body: Bytes; padding: number } | null {
  const msgKey = bytes.subarray(8, 24);
  const data = bytes.subarray(24);
  if (!data.length || data.length % 16) return null;
  const [key, iv] = kdf(k.key, msgKey, x);
  const plain = igeD(data, key, iv);
  if (!eq(sha256(k.key.subarray(88 + x, 120 + x), plain).subarray(8, 24), msgKey)) return null;
  const length = new DataView(plain.buffer, plain.byteOffset).getUint32(0, true);
  if (length > plain.length - 4) return null;
  return { body: plain.slice(4, 4 + length), padding: plain.length - 4 - length };
}

/** A file attached to a secret message, as the server has it. */
interface EncFile {
  id: bigint;
  bytes: Uint8Array;
  fp: number;
}
const viewOfFile = (f: EncFile | null | undefined) => f ? { _: "encryptedFile", id: f.id, access_hash: f.id * 3n, size: BigInt(f.bytes.length), dc_id: 2, key_fingerprint: f.fp } : { _: "encryptedFileEmpty" };
function fingerprintOf(key: Uint8Array, iv: Uint8Array): number {
  const d = createHash("md5").update(key).update(iv).digest();
  return d.readInt32LE(0) ^ d.readInt32LE(4);
}

/** A secret chat as the server knows it. */
interface EncChat {
  id: number;
  admin: number;
  participant: number;
  state: "requested" | "accepted" | "discarded";
  gA: Uint8Array;
  gB: Uint8Array;
  fp: bigint;
  date: number;
  randomId: bigint;
  /** Whether all that matters happened without a crash in between. */
  whole: boolean;
  /** What is claimed about deliveries ends when somebody ends the chat. */
  ended: boolean;
  peer: Peer | null;
  log: Map<number, SideLog>;
}
interface Sent {
  token: string;
  at: number;
  state: "pending" | "ok" | "error";
  life: number;
  /** If it has a file, when it was sent for certain: messages overtake it while the file is uploaded. */
  settledAt?: number;
}
/** What one side sent, and what the other was shown of it. */
interface SideLog {
  sent: Sent[];
  shown: { token: string; life: number; at: number }[];
}
interface EncEvent {
  pos: number;
  message: any;
  chat: number;
  at: number;
  forged: boolean;
  file?: EncFile;
}
/** What the files of messages consist of, by token. */
type Contents = Map<string, Uint8Array>;

interface Relay {
  sim: Sim;
  /** Something encrypted goes from one side to the other. */
  deliver(chat: EncChat, from: number, bytes: Uint8Array, service: boolean, file?: EncFile): void;
  /** A file of the model is there for its chats. */
  store(content: Uint8Array, fp: number): EncFile;
  accept(chat: EncChat, gB: Uint8Array, fp: bigint): void;
  date(): number;
}

/** A conforming peer, independent of the code under test but for the TL schema. */
class Peer {
  chat: EncChat;
  id: number;
  other: number;
  creator: boolean;
  relay: Relay;
  sim: Sim;
  r: Rng;
  x: number;
  secret: bigint;
  /** In the order they came into use. */
  keys: Key[] = [];
  /** Accepted, and not yet committed to. */
  toCommit: { id: bigint; key: Key } | null = null;
  rekey: { id: bigint; a: bigint } | null = null;
  confirmed = true;
  confirmAt = 0;
  out: { bytes: Uint8Array; service: boolean; token: string | null; at: number; file?: EncFile }[] = [];
  inSeq = 0;
  lastIn = 0;
  lastKey = 0;
  buffer = new Map<number, { layer: any; key: number | "pending"; file?: EncFile }>();
  contents: Contents = new Map();
  plain = new Map<number, string>();
  /** What is lost or delayed on the way from here. */
  loss = 0;
  late = 0;
  dup = 0;
  refuse = 0;
  gapTimer = false;
  rekeys = 0;
  /** How often it does what a conforming peer wouldn't in a key exchange, and the exchanges it spoiled so. */
  evil = 0;
  overused?: string;
  spoiled = new Set<bigint>();
  /** How the client used its current key. */
  use = { since: 0, messages: 0, overdue: 0, asked: false };

  constructor(relay: Relay, chat: EncChat, id: number, r: Rng) {
    this.relay = relay;
    this.sim = relay.sim;
    this.chat = chat;
    this.id = id;
    this.creator = chat.admin === id;
    this.other = this.creator ? chat.participant : chat.admin;
    this.r = r;
    this.x = this.creator ? 0 : 8;
    this.secret = this.exponent();
    chat.peer = this;
  }
  exponent(): bigint {
    return toBig(this.r.bytes(24)) | (1n << 190n);
  }
  get g(): Bytes {
    return fromBig(modpow(G, this.secret, P), 256);
  }
  /** The other side's half is known. */
  establish(half: Uint8Array): Key {
    const k = keyOf(modpow(toBig(half), this.secret, P));
    this.use.since = this.sim.trueTime();
    this.keys = [k];
    return k;
  }
  get key(): Key {
    return this.keys[this.keys.length - 1];
  }
  get log(): SideLog {
    return this.chat.log.get(this.id)!;
  }

  send(message: any, token: string | null = null, file?: EncFile) {
    const raw = this.out.length;
    const layer = { _: "decryptedMessageLayer", random_bytes: this.r.bytes(this.r.int(15, 30)), layer: 144, in_seq_no: this.inSeq * 2 + (this.creator ? 0 : 1), out_seq_no: raw * 2 + (this.creator ? 1 : 0), message };
    const body = SecretChats.serializeObject(layer as any);
    const bytes = encrypt(this.key, this.x, body, (n) => this.r.bytes(n), this.r.bool(0.1) ? this.r.int(1, 60) : 0);
    const service = message._ === "decryptedMessageService";
    this.out.push({ bytes, service, token, at: this.sim.now, file });
    if (token) this.log.sent.push({ token, at: this.sim.now, state: "ok", life: 0 });
    this.sim.note(`peer ${this.id} sends ${raw} ${token ?? message.action?._ ?? ""} with key ${this.keys.length - 1}`);
    if (this.sim.fault("peer.lost", this.loss)) return raw;
    const delay = this.sim.fault("peer.late", this.late) ? this.r.pick([this.r.range(5, 200), this.r.range(100, 5000)]) : 0;
    if (delay) this.sim.after(delay, "peer.send", () => this.relay.deliver(this.chat, this.id, bytes, service, file));
    else this.relay.deliver(this.chat, this.id, bytes, service, file);
    if (this.sim.fault("peer.dup", this.dup)) this.sim.after(this.r.range(1, 8000), "peer.send", () => this.relay.deliver(this.chat, this.id, bytes, service, file));
    return raw;
  }
  service(action: any) {
    return this.send({ _: "decryptedMessageService", random_id: this.randomId(), action });
  }
  randomId(): bigint {
    return BigInt.asIntN(64, toBig(this.r.bytes(8)));
  }
  startRekey(): boolean {
    if (this.rekey || this.toCommit || !this.confirmed) return false;
    const a = this.exponent();
    const id = this.randomId();
    this.rekey = { id, a };
    if (this.sim.fault("attack.rekey", this.evil)) {
      this.spoiled.add(id);
      this.service({ _: "decryptedMessageActionRequestKey", exchange_id: id, g_a: this.badHalf().half });
      return true;
    }
    this.sim.probe("rekey.peer");
    this.service({ _: "decryptedMessageActionRequestKey", exchange_id: id, g_a: fromBig(modpow(G, a, P), 256) });
    return true;
  }
  /** A half nobody should use, and the fingerprint of the key whoever uses it all the same comes to (as far as it can be known). */
  badHalf(other = 1n): { half: Bytes; fp: bigint } {
    const k = BigInt(this.r.pick([1, this.r.int(2, 1250)]));
    const sign = this.r.bool(0.5);
    const small = modpow(G, k, P);
    const mixed = modpow(other, k, P);
    const [half, key] = this.r.pick<[bigint, bigint]>([
      [0n, 0n],
      [1n, 1n],
      [P - 1n, sign ? 1n : P - 1n],
      [P, 0n],
      [small, mixed],
      [P - small, sign ? mixed : P - mixed],
    ]);
    return { half: fromBig(half, 256), fp: keyOf(key).fp };
  }
  install(k: Key, confirmed: boolean) {
    this.use = { since: this.sim.trueTime(), messages: 0, overdue: 0, asked: false };
    this.keys.push(k);
    this.rekeys++;
    this.confirmed = confirmed;
    this.sim.probe("rekey.done");
    this.sim.note(`peer ${this.id} uses key ${this.keys.length - 1}`);
  }

  receive(bytes: Uint8Array, file?: EncFile) {
    const { sim } = this;
    if (this.chat.state === "discarded") return;
    const id = hex(bytes.subarray(0, 8));
    let key: number | "pending" = this.keys.findIndex((k) => k.id === id);
    let k = this.keys[key as number];
    if (this.toCommit?.key.id === id) {
      key = "pending";
      k = this.toCommit.key;
    } else if (key === -1) {
      sim.violation("C19", "undecryptable", `chat ${this.chat.id}: the client used a key (${id}) its peer doesn't have`);
      return;
    }
    const d = decrypt(k, 8 - this.x, bytes);
    if (!d) {
      sim.violation("C19", "badly-encrypted", `chat ${this.chat.id}: a message of the client does not decrypt with the key it names`);
      return;
    }
    if (d.padding < 12 || d.padding > 1024) sim.violation("C19", "badly-encrypted", `chat ${this.chat.id}: a message of the client has ${d.padding} bytes of padding`);
    let layer: any;
    try {
      layer = SecretChats.deserializeType(X, d.body);
    } catch (err) {
      sim.violation("C18", "malformed", `chat ${this.chat.id}: a message of the client can't be read: ${err}`);
      return;
    }
    if (layer?._ !== "decryptedMessageLayer" || layer.random_bytes.length < 15) {
      sim.violation("C18", "malformed", `chat ${this.chat.id}: a message of the client is a ${layer?._} with ${layer?.random_bytes?.length} random bytes`);
      return;
    }
    const o = (layer.out_seq_no - (this.creator ? 0 : 1)) / 2;
    const i = (layer.in_seq_no - (this.creator ? 1 : 0)) / 2;
    if (!Number.isInteger(o) || o < 0 || !Number.isInteger(i) || i < 0 || i > this.out.length) {
      sim.violation("C18", "bad-seq", `chat ${this.chat.id}: a message of the client has in_seq_no ${layer.in_seq_no}, out_seq_no ${layer.out_seq_no}, which can't be (the peer has sent ${this.out.length})`);
      return;
    }
    const print = hex(sha256(d.body));
    const before = this.plain.get(o);
    if (before !== undefined) {
      if (before !== print) sim.violation("C18", "seq-reused", `chat ${this.chat.id}: the client sent two different messages as number ${o}`);
      sim.probe("peer.repeated");
      return;
    }
    this.plain.set(o, print);
    this.buffer.set(o, { layer, key, file });
    // gaps don't keep requests for messages waiting
    const action = layer.message._ === "decryptedMessageService" ? layer.message.action : null;
    if (action?._ === "decryptedMessageActionResend") this.resend(action);
    this.process();
    if (this.buffer.size && !this.gapTimer) {
      this.gapTimer = true;
      const check = (first: boolean) => {
        if (!this.buffer.size || this.chat.state === "discarded") {
          this.gapTimer = false;
          return;
        }
        const start = this.inSeq;
        const end = Math.min(...this.buffer.keys()) - 1;
        sim.probe(first ? "peer.gap" : "peer.gap.again");
        sim.note(`peer ${this.id} asks for ${start} to ${end} again`);
        this.service({ _: "decryptedMessageActionResend", start_seq_no: start * 2 + (this.creator ? 0 : 1), end_seq_no: end * 2 + (this.creator ? 0 : 1) });
        const again = this.inSeq;
        sim.after(sim.faultsEnabled ? 60000 : 8000, "peer.gap", () => this.inSeq === again ? check(false) : (this.gapTimer = false, this.process(), this.buffer.size ? (this.gapTimer = true, check(true)) : undefined));
      };
      sim.after(this.r.pick([0.01, this.r.range(1, 100), this.r.range(1, 5000)]), "peer.gap", () => check(true));
    }
  }

  resend(action: any) {
    const x = this.creator ? 1 : 0;
    const start = (action.start_seq_no - x) / 2, end = (action.end_seq_no - x) / 2;
    if (!Number.isInteger(start) || !Number.isInteger(end) || start < 0 || end < start || end >= this.out.length) {
      this.sim.violation("C18", "bad-resend", `chat ${this.chat.id}: the client asked for messages ${action.start_seq_no} to ${action.end_seq_no} again, which can't be (the peer has sent ${this.out.length})`);
      return;
    }
    this.sim.probe("peer.resend");
    this.sim.note(`peer ${this.id} sends ${start} to ${end} again`);
    for (let n = start; n <= end; n++) {
      const m = this.out[n];
      this.relay.deliver(this.chat, this.id, m.bytes, m.service, m.file);
    }
  }

  process() {
    const { sim } = this;
    for (let next = this.buffer.get(this.inSeq); next; next = this.buffer.get(this.inSeq)) {
      this.buffer.delete(this.inSeq);
      const n = this.inSeq++;
      const i = (next.layer.in_seq_no - (this.creator ? 1 : 0)) / 2;
      if (i < this.lastIn) {
        sim.violation("C18", "bad-seq", `chat ${this.chat.id}: the client has confirmed ${this.lastIn} message(s), and ${i} in its message ${n}`);
      }
      this.lastIn = Math.max(this.lastIn, i);
      let key = next.key;
      const m = next.layer.message;
      if (key === "pending") {
        // it was committed to meanwhile, or has to be
        if (this.toCommit) {
          sim.violation("C19", "early-key", `chat ${this.chat.id}: message ${n} of the client is encrypted with a key it has not committed to`);
          return;
        }
        key = this.keys.length - 1;
      }
      if (key < this.lastKey) sim.violation("C19", "old-key", `chat ${this.chat.id}: message ${n} of the client is encrypted with a key older than that of the ones before`);
      this.lastKey = key;
      if (key === this.keys.length - 1) {
        this.confirmed = true;
        // (the client has had it for as long at least)
        if (++this.use.messages === 1) this.use.since = sim.trueTime();
        if (this.use.messages > 2 && sim.trueTime() - this.use.since > 8 * 86400000) this.use.overdue++;
      }
      sim.note(`peer ${this.id} handles ${n} ${m.action?._ ?? m.message} (key ${key})`);
      if (m._ === "decryptedMessage") {
        const token = tokenOfTL(m);
        this.checkFile(m, token, next.file);
        this.chat.log.get(this.other)!.shown.push({ token, life: 0, at: sim.now });
        showed(sim, this.chat, this.other, token);
      } else if (m._ === "decryptedMessageService") this.action(m.action, n);
    }
  }

  checkFile(m: any, token: string, file?: EncFile) {
    const { sim } = this;
    const content = this.contents.get(token);
    if (m.media?._ !== "decryptedMessageMediaDocument" || !content) {
      if (content || file) sim.violation("C18", "file-differs", `chat ${this.chat.id}: ${token} of the client ${file ? "has" : "lacks"} a file`);
      return;
    }
    if (!file) {
      sim.violation("C18", "file-differs", `chat ${this.chat.id}: ${token} of the client was sent without its file`);
      return;
    }
    sim.probe("file.received");
    const size = Number(m.media.size);
    const bytes = file.bytes.length % 16 ? file.bytes : igeD(file.bytes, m.media.key, m.media.iv).subarray(0, size);
    if (size !== content.length || !eq(bytes, content)) sim.violation("C18", "file-differs", `chat ${this.chat.id}: the file of ${token} does not decrypt to what was sent (${size} of ${content.length} bytes)`);
    if (fingerprintOf(m.media.key, m.media.iv) !== file.fp) sim.violation("C18", "file-differs", `chat ${this.chat.id}: the file of ${token} has the fingerprint of another key`);
  }

  action(a: any, n: number) {
    const { sim } = this;
    switch (a._) {
      case "decryptedMessageActionRequestKey": {
        sim.probe("rekey.client");
        this.use.asked = true;
        if (this.rekey) {
          sim.probe("rekey.collision");
          if (this.rekey.id >= a.exchange_id) {
            if (this.rekey.id === a.exchange_id) this.rekey = null;
            return;
          }
          this.rekey = null;
        }
        if (this.toCommit || !this.confirmed || sim.fault("peer.refuse", this.refuse)) {
          this.service({ _: "decryptedMessageActionAbortKey", exchange_id: a.exchange_id });
          return;
        }
        if (toBig(a.g_a) <= 1n || toBig(a.g_a) >= P - 1n) {
          sim.violation("C19", "bad-half", `chat ${this.chat.id}: the client asks for a new key with an unusable g_a`);
          return;
        }
        const b = this.exponent();
        const key = keyOf(modpow(toBig(a.g_a), b, P));
        if (sim.fault("attack.rekey", this.evil)) {
          this.spoiled.add(a.exchange_id);
          const bad = this.r.bool(0.5) ? this.badHalf(toBig(a.g_a)) : { half: fromBig(modpow(G, b, P), 256), fp: BigInt.asIntN(64, key.fp ^ (1n << BigInt(this.r.int(0, 63)))) };
          this.service({ _: "decryptedMessageActionAcceptKey", exchange_id: a.exchange_id, g_b: bad.half, key_fingerprint: bad.fp });
          return;
        }
        this.toCommit = { id: a.exchange_id, key };
        this.service({ _: "decryptedMessageActionAcceptKey", exchange_id: a.exchange_id, g_b: fromBig(modpow(G, b, P), 256), key_fingerprint: key.fp });
        return;
      }
      case "decryptedMessageActionAcceptKey": {
        if (this.spoiled.has(a.exchange_id)) sim.violation("C19", "bad-half", `chat ${this.chat.id}: the client accepted a new key from an unusable g_a`);
        if (this.rekey?.id !== a.exchange_id) return;
        const key = keyOf(modpow(toBig(a.g_b), this.rekey!.a, P));
        if (key.fp !== a.key_fingerprint) {
          sim.violation("C19", "keys-differ", `chat ${this.chat.id}: the client accepted a new key with the fingerprint ${a.key_fingerprint} instead of ${key.fp}`);
          return;
        }
        this.rekey = null;
        if (sim.fault("peer.abort", this.refuse)) {
          this.service({ _: "decryptedMessageActionAbortKey", exchange_id: a.exchange_id });
          return;
        }
        if (sim.fault("attack.rekey", this.evil)) {
          // it has to end the chat, and must not use the key
          this.spoiled.add(a.exchange_id);
          this.chat.ended = true;
          this.service({ _: "decryptedMessageActionCommitKey", exchange_id: a.exchange_id, key_fingerprint: BigInt.asIntN(64, key.fp ^ 1n) });
          return;
        }
        this.service({ _: "decryptedMessageActionCommitKey", exchange_id: a.exchange_id, key_fingerprint: key.fp });
        this.install(key, false);
        return;
      }
      case "decryptedMessageActionCommitKey": {
        if (this.spoiled.has(a.exchange_id)) {
          sim.violation("C19", "keys-differ", `chat ${this.chat.id}: the client committed to a key of an unusable g_b, or another than it was told the fingerprint of`);
          return;
        }
        if (this.toCommit?.id !== a.exchange_id) {
          sim.violation("C19", "bad-commit", `chat ${this.chat.id}: the client committed to a key nobody had accepted`);
          return;
        }
        if (this.toCommit!.key.fp !== a.key_fingerprint) {
          sim.violation("C19", "keys-differ", `chat ${this.chat.id}: the client committed to another key than was accepted`);
          return;
        }
        const { key } = this.toCommit!;
        this.toCommit = null;
        this.install(key, true);
        if (this.r.bool(0.7)) this.service({ _: "decryptedMessageActionNoop" });
        return;
      }
      case "decryptedMessageActionAbortKey":
        if (this.rekey?.id === a.exchange_id) this.rekey = null;
        if (this.toCommit?.id === a.exchange_id) this.toCommit = null;
        return;
    }
    void n;
  }
}

/** What a message says; every message says something else. */
function tokenOfTL(m: any): string {
  switch (m.media?._) {
    case "decryptedMessageMediaContact":
      return m.media.first_name;
    case "decryptedMessageMediaVenue":
      return m.media.title;
  }
  return m.message;
}
const tokenOfShown = (m: any): string => m.type === "contact" ? m.contact.firstName : m.type === "venue" ? m.venue.title : m.text ?? m.caption ?? "?";

/** Something was shown that one side sent, or not. */
function showed(sim: Sim, chat: EncChat, by: number, token: string) {
  const log = chat.log.get(by)!;
  const index = log.sent.findIndex((v) => v.token === token);
  sim.note(`SHOWN chat ${chat.id} from ${by}: ${token}`);
  if (index < 0) {
    sim.violation("C19", "forged", `chat ${chat.id}: ${JSON.stringify(token)} was shown, which ${by} never sent`);
    return;
  }
  const me = log.shown.at(-1)!;
  for (let i = log.shown.length - 2; i >= 0; i--) {
    const v = log.shown[i];
    if (v.token === token) {
      // a crash forgets what was just done
      if (v.life < me.life && crashesOf(chat).some((t) => t >= v.at && t - v.at < 15000)) {
        sim.probe("repeated.by.crash");
        continue;
      }
      sim.violation("C18", "repeated", `chat ${chat.id}: ${token} from ${by} was shown twice`);
      return;
    }
    if (v.life < me.life) continue;
    const other = log.sent.findIndex((s) => s.token === v.token);
    const [first, second] = [log.sent[index], log.sent[other]];
    if (other > index && (first.settledAt ?? -1) < second.at) {
      sim.violation("C18", "out-of-order", `chat ${chat.id}: ${token} from ${by} was shown after ${v.token}`);
      return;
    }
  }
}
const crashes = new WeakMap<EncChat, number[]>();
const crashesOf = (chat: EncChat) => crashes.get(chat) ?? [];
/** Whether a process of this chat has ended without warning. */
const killed = new WeakSet<EncChat>();

async function run(sim: Sim, focus: string, tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const faulty = cfg.bool(0.75);
  const two = cfg.bool(0.25);
  const hostile = focus === "C19" ? cfg.bool(0.5) : cfg.bool(0.15);
  const crashing = faulty ? cfg.pick([0, 0, 1, 2]) : 0;
  const restarts = faulty ? 0 : cfg.pick([0, 0, 1, 2]);
  const kind = cfg.weighted<TransportKind>([["tcp", 6], ["tcp-obf", 1], ["ws", 1]]);
  const options = { mustSerialize: cfg.bool(0.7), supportsFiles: true };
  const guarantee = cfg.bool(0.25);
  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, NET_RATES, 0.25) : { ...NO_NET_FAULTS });
  const tr = makeTransport(kind, cfg.bytes(16), sim);
  const mtFaults = faulty ? swarm(sim, "mt", NO_MT_FAULTS, { ...MT_RATES, rpcInternal: 0.03 }, 0.3) : { ...NO_MT_FAULTS };
  const server = new MtServer(sim, net, { ...tr.options, properties: {} }, mtFaults, handler);
  server.listenDirect();
  server.replyDelay = cfg.pick([[0, 5], [1, 60], [1, 60], [1, 1500]]);
  info.config = { faulty, two, hostile, crashing, restarts, kind, guarantee };

  //// ACCOUNTS ////
  const PEERS = [2001, 2002];
  const SELVES = two ? [1000, 1001] : [1000];
  const EVERYONE = [...SELVES, ...PEERS];
  const date = () => Math.floor(sim.trueTime() / 1000);
  class Account {
    id: number;
    disk: SimDisk;
    qts: number;
    seq: number;
    events: EncEvent[] = [];
    lives: Process[] = [];
    down = false;
    crashedAt: number[] = [];
    constructor(id: number) {
      this.id = id;
      this.disk = new SimDisk(sim, "disk" + id, { ...NO_DISK_FAULTS });
      this.disk.delay = cfg.pick<[number, number]>([[0.02, 0.1], [0.02, 2], [0.02, 40]]);
      this.qts = cfg.pick([0, 1, 5000]);
      this.seq = cfg.pick([1, 30]);
    }
    get process(): Process {
      return this.lives.at(-1)!;
    }
    get life(): number {
      return this.lives.length - 1;
    }
    get ready(): boolean {
      return !this.down && this.process?.alive && this.process.startState === "ok";
    }
  }
  const accounts = new Map<number, Account>();
  for (const id of SELVES) {
    const a = new Account(id);
    accounts.set(id, a);
    await authorize(sim, server, a.disk, options, { dc: "2", userId: id, isBot: false, key: cfg.bytes(256) });
  }
  const people = (self: number) => EVERYONE.map((v) => userOf(v, v === self ? { self: true } : {}));
  const state = (a: Account) => ({ _: "updates.state", pts: 10, qts: a.qts, date: date(), seq: a.seq, unread_count: 0 });

  //// CHATS ////
  const chats = new Map<number, EncChat>();
  const hash = (chat: EncChat, user: number) => BigInt(chat.id) * 104729n + BigInt(user) * 31n;
  const srv = sim.rng("enc");
  function makeChat(admin: number, participant: number, gA: Uint8Array, randomId: bigint): EncChat {
    let id = 0;
    while (id === 0 || chats.has(id)) id = srv.int(-2000000000, 2000000000);
    const chat: EncChat = { id, admin, participant, state: "requested", gA, gB: new Uint8Array(), fp: 0n, date: date(), randomId, whole: true, ended: false, peer: null, log: new Map([[admin, { sent: [], shown: [] }], [participant, { sent: [], shown: [] }]]) };
    chats.set(id, chat);
    sim.note(`chat ${id}: ${admin} asks ${participant}`);
    return chat;
  }
  /** The chat from a user's point of view. */
  function view(chat: EncChat, user: number): any {
    const base = { id: chat.id, access_hash: hash(chat, user), date: chat.date, admin_id: BigInt(chat.admin), participant_id: BigInt(chat.participant) };
    switch (chat.state) {
      case "discarded":
        return { _: "encryptedChatDiscarded", id: chat.id };
      case "requested":
        return user === chat.admin ? { _: "encryptedChatWaiting", ...base } : { _: "encryptedChatRequested", ...base, g_a: chat.gA };
      default:
        return { _: "encryptedChat", ...base, g_a_or_b: user === chat.admin ? chat.gB : chat.gA, key_fingerprint: chat.fp };
    }
  }
  const sessions = (user: number) => server.liveSessions((s: MtSession) => s.inited && !s.authKey.temp && s.authKey.user === user);
  const send = (a: Account, o: any, label: string) => {
    const body = Api.serializeObject(o);
    for (const s of sessions(a.id)) server.push(s, body, label);
  };
  const loss = faulty && cfg.bool(0.5) ? cfg.pick([0.05, 0.3]) : 0;
  const late = faulty && cfg.bool(0.5) ? cfg.pick([0.1, 0.4]) : 0;
  const dup = faulty && cfg.bool(0.4) ? cfg.pick([0.05, 0.3]) : 0;
  const pr = sim.rng("push");
  /** What changed about chats and whom it was not certainly pushed to. */
  const changed = new Map<string, number>();
  function pushChat(chat: EncChat, user: number) {
    const a = accounts.get(user);
    if (!a) return;
    changed.set(`${user}/${chat.id}`, sim.now);
    a.seq++;
    const o = { _: "updates", updates: [{ _: "updateEncryption", chat: view(chat, user), date: date() }], users: people(user), chats: [], date: date(), seq: a.seq };
    if (sim.fault("push.lost", loss)) return;
    sim.after(sim.jitter("push.delay", 0, 10) + (sim.fault("push.late", late) ? pr.range(10, 3000) : 0), "push", () => send(a, o, "updateEncryption"));
  }
  function pushEvent(a: Account, e: EncEvent) {
    const u = { _: "updateNewEncryptedMessage", message: e.message, qts: e.pos };
    const o = pr.bool(0.5) ? { _: "updateShort", update: u, date: date() } : { _: "updates", updates: [u], users: [], chats: [], date: date(), seq: 0 };
    if (sim.fault("push.lost", loss)) return;
    const delay = sim.jitter("push.delay", 0, 10) + (sim.fault("push.late", late) ? pr.pick([pr.range(10, 300), pr.range(100, 4000)]) : 0);
    sim.after(delay, "push", () => send(a, o, "updateNewEncryptedMessage"));
    if (sim.fault("push.dup", dup)) sim.after(delay + pr.range(0, 5000), "push", () => send(a, o, "updateNewEncryptedMessage again"));
  }
  const relay: Relay = {
    sim,
    date,
    deliver(chat, from, bytes, service, file) {
      if (chat.state !== "accepted") return;
      const to = from === chat.admin ? chat.participant : chat.admin;
      toSide(chat, to, bytes, service, file);
    },
    store(bytes, fp) {
      const f = { id: BigInt(++fileCount), bytes, fp };
      files.set(f.id, f);
      return f;
    },
    accept(chat, gB, fp) {
      chat.state = "accepted";
      chat.gB = gB;
      chat.fp = fp;
      sim.note(`chat ${chat.id} is accepted`);
      pushChat(chat, chat.admin);
    },
  };
  const att = sim.rng("attack");
  const attacks = hostile ? cfg.pick([0.05, 0.3]) : 0;
  let fileCount = 1000;
  const files = new Map<bigint, EncFile>();
  const uploads = new Map<string, Map<number, Uint8Array>>();
  const contents: Contents = new Map();
  function toSide(chat: EncChat, to: number, bytes: Uint8Array, service: boolean, file?: EncFile) {
    const a = accounts.get(to);
    if (!a) {
      // a model; what is for it is delivered in order or nearly so
      const delay = sim.jitter("peer.hop", 1, 40) + (sim.fault("peer.hop.late", late / 2) ? pr.range(10, 3000) : 0);
      sim.after(delay, "peer.receive", () => chat.peer?.receive(bytes, file));
      return;
    }
    if (sim.fault("attack", attacks)) {
      forge(chat, to, bytes);
    }
    event(a, chat.id, bytes, service, false, file);
  }
  function event(a: Account, chatId: number, bytes: Uint8Array, service: boolean, forged: boolean, file?: EncFile) {
    a.qts++;
    const base = { random_id: BigInt.asIntN(64, toBig(srv.bytes(8))), chat_id: chatId, date: date(), bytes };
    const e: EncEvent = { pos: a.qts, message: service ? { _: "encryptedMessageService", ...base } : { _: "encryptedMessage", ...base, file: viewOfFile(file) }, chat: chatId, at: sim.now, forged, file };
    a.events.push(e);
    pushEvent(a, e);
  }
  const fromSelf = new Map<number, { data: Uint8Array; service: boolean; file?: EncFile }[]>();
  /** What a hostile server makes of what it relays. */
  function forge(chat: EncChat, to: number, genuine: Uint8Array) {
    const a = accounts.get(to)!;
    const seen = a.events.filter((e) => e.chat === chat.id && !e.forged);
    const other = [...chats.values()].find((v) => v !== chat && v.state === "accepted" && (v.admin === to || v.participant === to));
    const what = att.weighted([["flip", 4], ["mirror", 3], ["replay", 2], ["garbage", 2], ["short", 1], ["key", 2], ["foreign", other ? 3 : 0], ["unknown", 1], ["empty", 2], ["cut", 1]]);
    sim.probe("attack." + what);
    sim.note(`forging a message for ${to} in ${chat.id}: ${what}`);
    const b = Uint8Array.from(genuine);
    switch (what) {
      case "flip":
        b[att.int(0, b.length - 1)] ^= 1 << att.int(0, 7);
        return event(a, chat.id, b, att.bool(0.3), true);
      case "mirror": {
        const own = fromSelf.get(chat.id) ?? [];
        if (own.length) {
          // of the client itself, or of the other one, as far as it has sent any
          const v = att.pick(own);
          event(a, chat.id, v.data, v.service, true, v.file);
        }
        return;
      }
      case "replay":
        // with the same file: who relays a message can always attach another one, or none
        if (seen.length) {
          const e = att.pick(seen);
          event(a, chat.id, e.message.bytes, e.message._ === "encryptedMessageService", true, e.file);
        }
        return;
      case "garbage":
        return event(a, chat.id, att.bytes(24 + 16 * att.int(0, 10)), att.bool(0.3), true);
      case "short":
        return event(a, chat.id, att.bytes(att.int(0, 60)), att.bool(0.3), true);
      case "key":
        return event(a, chat.id, cat(b.subarray(0, 8), att.bytes(16 + 16 * att.int(1, 10))), false, true);
      case "foreign": {
        event(a, other!.id, b, att.bool(0.3), true);
        return;
      }
      case "unknown":
        return event(a, att.int(1, 100000), b, false, true);
      case "cut":
        return event(a, chat.id, b.slice(0, b.length - 16), false, true);
      case "empty": {
        // as if there was no key
        const layer = { _: "decryptedMessageLayer", random_bytes: att.bytes(15), layer: 144, in_seq_no: 1, out_seq_no: 1, message: { _: "decryptedMessage", random_id: 5n, ttl: 0, message: "forged without a key" } };
        const body = SecretChats.serializeObject(layer as any);
        for (const key of [new Uint8Array(), new Uint8Array(256)]) {
          const id = hex(sha1(key).slice(-8));
          for (const x of [0, 8]) event(a, chat.id, encrypt({ key: key as Bytes, id: att.bool(0.5) ? id : "", fp: 0n }, x, body, (n) => att.bytes(n)), false, true);
        }
        return;
      }
    }
  }

  //// CALLS ////
  const sliceSize = cfg.pick([3, 20, 100]);
  /** The changes that were part of a difference. */
  const told = new Set<string>();
  function getDifference(a: Account, fn: any): RpcReply {
    const rest = a.events.filter((e) => e.pos > fn.qts);
    const mine = [...chats.values()].filter((v) => (v.admin === a.id || v.participant === a.id) && (v.state !== "requested" || v.participant === a.id) && changed.has(`${a.id}/${v.id}`) && (!told.has(`${a.id}/${v.id}/${v.state}`) || changed.get(`${a.id}/${v.id}`)! >= fn.date * 1000 - sim.epoch - 600000));
    if (!rest.length && !mine.length) return ok({ _: "updates.differenceEmpty", date: date(), seq: a.seq });
    const slice = rest.slice(0, sliceSize);
    for (const v of mine) told.add(`${a.id}/${v.id}/${v.state}`);
    const common = { new_messages: [], new_encrypted_messages: slice.map((e) => e.message), other_updates: mine.map((v) => ({ _: "updateEncryption", chat: view(v, a.id), date: date() })), chats: [], users: people(a.id) };
    sim.probe(slice.length < rest.length ? "diff.slice" : "diff");
    if (slice.length < rest.length) return ok({ _: "updates.differenceSlice", ...common, intermediate_state: { ...state(a), qts: slice.at(-1)!.pos } });
    return ok({ _: "updates.difference", ...common, state: state(a) });
  }
  const dhBad = hostile && cfg.bool(0.15);
  const dh = sim.rng("dh");
  /** How many more unusable parameters somebody is to get, and who got usable ones. */
  const dhLeft = new Map<number, number>();
  const dhGood = new Set<number>();
  const parameters = (user: number) => sim.check(dhGood.has(user), "C19", "bad-parameters", () => `the client of ${user} went on with unusable parameters`);
  const done = new Map<string, RpcReply>();
  function handler(ctx: RpcContext): RpcReply | Promise<RpcReply> {
    const fn = ctx.fn;
    const user = Number(ctx.permKey.user);
    const a = accounts.get(user)!;
    const chatOf = (p: any): EncChat | RpcReply => {
      const chat = chats.get(p.chat_id);
      if (!chat || (chat.admin !== user && chat.participant !== user) || p.access_hash !== hash(chat, user)) return { error: [400, "CHAT_ID_INVALID"] };
      if (chat.state === "discarded") return { error: [400, "ENCRYPTION_DECLINED"] };
      return chat;
    };
    switch (fn._) {
      case "updates.getState":
        return ok(state(a));
      case "updates.getDifference":
        return getDifference(a, fn);
      case "users.getUsers": {
        const users = fn.id.length === 1 && fn.id[0]._ === "inputUserSelf" ? people(user).filter((v: any) => v.self) : people(user);
        return { result: new W().u32(0x1cb5c415).u32(users.length).raw(cat(...users.map((u: any) => Api.serializeObject(u)))).done() };
      }
      case "messages.getDhConfig": {
        const left = dhBad ? dhLeft.get(user) ?? dh.int(1, 4) : 0;
        dhLeft.set(user, Math.max(0, left - 1));
        if (!left) dhGood.add(user);
        else {
          sim.probe("attack.dh");
          const bad = Uint8Array.from(P_BYTES);
          const g = dh.pick([3, 3, 1, 2, 8]);
          if (g === 3) {
            // no prime, although it looks like one that suits
            do bad[255 - dh.int(0, 40)] ^= 2 << dh.int(0, 6);
            while (toBig(bad) === P || toBig(bad) % 3n !== 2n);
          }
          return ok({ _: "messages.dhConfig", g, p: bad, version: 3, random: dh.bytes(256) });
        }
        return ok({ _: "messages.dhConfig", g: Number(G), p: P_BYTES, version: 3, random: dh.bytes(256) });
      }
      case "messages.requestEncryption": {
        const other = Number(fn.user_id.user_id);
        parameters(user);
        if (!EVERYONE.includes(other) || other === user) return { error: [400, "USER_ID_INVALID"] };
        let chat = [...chats.values()].find((v) => v.admin === user && v.randomId === BigInt(fn.random_id));
        if (!chat) {
          chat = makeChat(user, other, fn.g_a, BigInt(fn.random_id));
          weak(chat, "g_a", fn.g_a);
          if (accounts.has(other)) pushChat(chat, other);
          else invited(chat);
        }
        return ok({ ...view({ ...chat, state: "requested" }, user) });
      }
      case "messages.acceptEncryption": {
        parameters(user);
        const chat = chatOf(fn.peer);
        if (!("id" in chat)) return chat;
        if (chat.participant !== user) return { error: [400, "CHAT_ID_INVALID"] };
        if (chat.state === "accepted") return eq(chat.gB, fn.g_b) ? ok(view(chat, user)) : { error: [400, "ENCRYPTION_ALREADY_ACCEPTED"] };
        weak(chat, "g_b", fn.g_b);
        if (chat.peer) {
          const k = chat.peer.establish(fn.g_b);
          if (k.fp !== fn.key_fingerprint) sim.violation("C19", "keys-differ", `chat ${chat.id}: the client accepted with the fingerprint ${fn.key_fingerprint}, and its peer's key has ${k.fp}`);
        }
        relay.accept(chat, fn.g_b, fn.key_fingerprint);
        changed.set(`${user}/${chat.id}`, sim.now);
        if (chat.peer) sim.after(sim.jitter("peer.hop", 1, 40), "peer.talk", () => established(chat));
        return ok(view(chat, user));
      }
      case "messages.discardEncryption": {
        const chat = chats.get(fn.chat_id);
        if (!chat || (chat.admin !== user && chat.participant !== user)) return { error: [400, "CHAT_ID_INVALID"] };
        if (chat.state === "discarded") return { error: [400, "ENCRYPTION_ALREADY_DECLINED"] };
        sim.note(`chat ${chat.id} is ended by ${user}`);
        if (!chat.ended) sim.violation(chat.peer?.out.length || hostile ? "C18" : "C18", "discarded", `chat ${chat.id}: the client of ${user} ended the chat, which nobody asked it to and which its peer gave no reason for`);
        chat.state = "discarded";
        pushChat(chat, user === chat.admin ? chat.participant : chat.admin);
        return { result: boolTrue() };
      }
      case "upload.saveBigFilePart":
      case "upload.saveFilePart": {
        const id = `${user}/${fn.file_id}`;
        let u = uploads.get(id);
        if (!u) uploads.set(id, u = new Map());
        u.set(fn.file_part, Uint8Array.from(fn.bytes));
        return { result: boolTrue() };
      }
      case "upload.getFile": {
        const f = fn.location._ === "inputEncryptedFileLocation" ? files.get(fn.location.id) : null;
        if (!f || fn.location.access_hash !== f.id * 3n) return { error: [400, "LOCATION_INVALID"] };
        return ok({ _: "upload.file", type: { _: "storage.filePartial" }, mtime: 1700000000, bytes: f.bytes.slice(Number(fn.offset), Number(fn.offset) + fn.limit) });
      }
      case "messages.sendEncryptedFile":
      case "messages.sendEncrypted":
      case "messages.sendEncryptedService": {
        const chat = chatOf(fn.peer);
        if (!("id" in chat)) return chat;
        if (chat.state !== "accepted") return { error: [400, "CHAT_ID_INVALID"] };
        const id = `${user}/${chat.id}/${fn.random_id}`;
        const before = done.get(id);
        if (before) return before;
        if (hostile) {
          // the server must not be able to read it
          for (const key of [new Uint8Array(), new Uint8Array(256)]) {
            for (const x of [0, 8]) if (decrypt({ key: key as Bytes, id: "", fp: 0n }, x, fn.data)) sim.violation("C19", "readable", `chat ${chat.id}: the client sent a message anybody can decrypt`);
          }
        }
        let file: EncFile | undefined;
        if (fn._ === "messages.sendEncryptedFile") {
          if (fn.file._ === "inputEncryptedFile") file = files.get(fn.file.id);
          else if (fn.file._ === "inputEncryptedFileUploaded" || fn.file._ === "inputEncryptedFileBigUploaded") {
            const parts = uploads.get(`${user}/${fn.file.id}`) ?? new Map();
            const list = Array.from({ length: fn.file.parts }, (_, n) => parts.get(n));
            if (list.length && list.every((v) => v)) file = relay.store(cat(...list), fn.file.key_fingerprint);
          }
          if (!file) {
            sim.violation("C18", "file-differs", `chat ${chat.id}: the client attached a file (${fn.file._}) the server does not have`);
            return { error: [400, "FILE_PARTS_INVALID"] };
          }
        }
        if (!fromSelf.has(chat.id)) fromSelf.set(chat.id, []);
        fromSelf.get(chat.id)!.push({ data: fn.data, service: fn._ === "messages.sendEncryptedService", file });
        relay.deliver(chat, user, fn.data, fn._ === "messages.sendEncryptedService", file);
        const reply = file ? ok({ _: "messages.sentEncryptedFile", date: date(), file: viewOfFile(file) }) : ok({ _: "messages.sentEncryptedMessage", date: date() });
        done.set(id, reply);
        return reply;
      }
    }
    return { error: [400, "METHOD_INVALID"] };
  }
  function weak(chat: EncChat, what: string, half: Uint8Array) {
    const v = toBig(half);
    if (half.length !== 256 || v <= 1n << 1984n || v >= P - (1n << 1984n)) sim.violation("C19", "bad-half", `chat ${chat.id}: the client sent an unusable ${what}`);
  }

  //// MODEL PEERS ////
  const pw = sim.rng("peers");
  const peerLoss = faulty && cfg.bool(0.5) ? cfg.pick([0.03, 0.2]) : 0;
  const peerLate = faulty && cfg.bool(0.5) ? cfg.pick([0.1, 0.4]) : 0;
  const peerDup = faulty && cfg.bool(0.3) ? 0.15 : 0;
  let peerRekeys = cfg.bool(focus === "C19" ? 0.75 : 0.4) ? cfg.pick([0.05, 0.2]) : 0;
  const refuse = cfg.bool(0.25) ? 0.4 : 0;
  const evil = hostile && cfg.bool(0.4) ? cfg.pick([0.25, 0.7]) : 0;
  const peerPause = cfg.pick([50, 1000, 8000]);
  const filing = cfg.bool(0.35) ? 2 : 0;
  const perPeer = cfg.int(3, tier === "thorough" ? 60 : 25);
  let talking = 0;
  function makePeer(chat: EncChat, id: number): Peer {
    const p = new Peer(relay, chat, id, sim.rng(`peer/${id}/${chats.size}`));
    p.loss = peerLoss;
    p.late = peerLate;
    p.dup = peerDup;
    p.refuse = refuse;
    p.contents = contents;
    p.evil = evil;
    return p;
  }
  /** A model was asked for a chat. */
  function invited(chat: EncChat) {
    const p = makePeer(chat, chat.participant);
    const k = p.establish(chat.gA);
    const bad = hostile && att.bool(0.12);
    if (bad) {
      badHalf.add(chat.id);
      chat.ended = true;
      sim.probe("attack.half");
    }
    sim.after(pw.pick([pw.range(0, 5), pw.range(5, 3000)]), "peer.accept", () => {
      if (chat.state !== "requested") return;
      if (bad) {
        const { half, fp } = att.bool(0.5) ? p.badHalf(toBig(chat.gA)) : { half: p.g, fp: BigInt.asIntN(64, k.fp ^ (1n << BigInt(att.int(0, 63)))) };
        relay.accept(chat, half, fp);
        return;
      }
      relay.accept(chat, p.g, k.fp);
      established(chat);
    });
  }
  function established(chat: EncChat) {
    const p = chat.peer!;
    talking++;
    (async () => {
      await sim.sleep(pw.pick([0, pw.range(0, 5), pw.range(0, 3000)]), "peer.talk");
      for (let n = 0; n < perPeer && chat.state === "accepted"; n++) {
        const keep = sim.op();
        if (keep) {
          if (pw.bool(peerRekeys)) p.startRekey();
          else say(p);
        }
        await sim.sleep(pw.pick([0.01, pw.range(0, 20), pw.range(0, peerPause)]), "peer.talk");
      }
    })().finally(() => talking--);
  }
  let words = 0;
  function say(p: Peer, text = "") {
    const token = `${p.id}:${++words}${text}`;
    const base = { _: "decryptedMessage", random_id: p.randomId(), ttl: 0 };
    const what = pw.weighted([["text", 6], ["contact", 1], ["venue", 1], ["noop", text ? 0 : 0.5], ["file", filing]]);
    if (what === "noop") return p.service({ _: "decryptedMessageActionNoop" });
    if (what === "file") {
      const content = p.r.bytes(p.r.pick([1, p.r.int(1, 100), p.r.int(100, 5000)]));
      contents.set(token, content);
      const key = p.r.bytes(32), iv = p.r.bytes(32);
      const file = relay.store(igeE(cat(content, p.r.bytes((16 - content.length % 16) % 16)), key, iv), fingerprintOf(key, iv));
      p.send({ ...base, message: token, media: { _: "decryptedMessageMediaDocument", thumb: new Uint8Array(), thumb_w: 0, thumb_h: 0, mime_type: "a/b", size: BigInt(content.length), key, iv, attributes: [], caption: "" } }, token, file);
    } else if (what === "text") p.send({ ...base, message: token }, token);
    else if (what === "contact") p.send({ ...base, message: "", media: { _: "decryptedMessageMediaContact", phone_number: "123", first_name: token, last_name: "x", user_id: 0 } }, token);
    else p.send({ ...base, message: "", media: { _: "decryptedMessageMediaVenue", lat: 1, long: 2, title: token, address: "a", provider: "foursquare", venue_id: "" } }, token);
  }

  //// THE PROGRAMS ////
  const usable = new Map<string, number>();
  const w = sim.rng("workload");
  const acceptAfter = w.pick([0, 50, 3000]);
  function boot(a: Account): Process {
    const life = a.lives.length;
    const p = new Process(sim, life, a.disk, tr, { guaranteeUpdateDelivery: guarantee, persistCache: true, defaultHandlers: true }, options);
    a.lives.push(p);
    a.down = false;
    p.client.use(async (ctx: any, next: any) => {
      if (!p.alive) return;
      const u = ctx.update;
      if (u.type === "secretChat") {
        const c = u.secretChat;
        sim.note(`client ${a.id}: chat ${c.id} is ${c.type}`);
        if (c.type === "requested") accept(a, p, c.id);
        else if (c.type === "active") mark(a, c.id, "update");
      } else if (u.type === "secretMessage") {
        const m = u.secretMessage;
        const token = tokenOfShown(m);
        const chat = chats.get(m.chatId);
        if (!chat || (chat.admin !== a.id && chat.participant !== a.id)) {
          sim.violation("C19", "forged", `${JSON.stringify(token)} was shown in chat ${m.chatId}, which doesn't exist`);
          return;
        }
        const from = chat.admin === a.id ? chat.participant : chat.admin;
        chat.log.get(from)!.shown.push({ token, life, at: sim.now });
        showed(sim, chat, from, token);
        const content = contents.get(token);
        if (content || m.document) {
          if (!content || !m.document || m.document.fileSize !== content.length) sim.violation("C18", "file-differs", `chat ${chat.id}: ${token} was shown with a file of ${m.document?.fileSize} bytes instead of ${content?.length}`);
          else fetchFile(a, p, m, token, content);
        }
      }
      await next();
    });
    (async () => {
      while (p.alive) {
        try {
          await p.start();
          break;
        } catch (err) {
          sim.note(`start() failed: ${String((err as any)?.message).slice(0, 200)}`);
          await sim.sleep(3000, "user.retry");
        }
      }
      if (p.alive) sim.note(`client ${a.id} is up (life ${life})`);
    })();
    return p;
  }
  function fetchFile(a: Account, p: Process, m: any, token: string, content: Uint8Array) {
    (async () => {
      for (let n = 0; n < 5 && p.alive; n++) {
        try {
          const parts: Uint8Array[] = [];
          for await (const v of p.client.download(m.document.fileId, { fileInformation: m.fileInformation })) parts.push(v);
          if (!p.alive) return;
          sim.probe("file.downloaded");
          if (!eq(cat(...parts), content)) sim.violation("C18", "file-differs", `chat ${m.chatId}: the file of ${token} differs from what was sent (${cat(...parts).length} of ${content.length} bytes)`);
          return;
        } catch (err: any) {
          if (!p.alive) return;
          sim.note(`client ${a.id}: downloading the file of ${token} failed: ${err?.name} ${err?.message}`);
          if (!faulty) sim.violation("C18", "file-differs", `chat ${m.chatId}: downloading the file of ${token} failed although nothing did: ${err?.name} ${err?.message}`);
          await sim.sleep(3000, "user.retry");
        }
      }
    })();
  }
  function mark(a: Account, id: number, how: string) {
    const chat = chats.get(id);
    if (!chat) return;
    if (!usable.has(`${a.id}/${id}`)) {
      usable.set(`${a.id}/${id}`, sim.now);
      if (badHalf.has(id)) sim.violation("C19", "bad-half", `chat ${id} became usable (${how}) with an unusable half of the other party, or one that leads to another key than it should`);
      if (chat.state === "requested") sim.violation("C19", "usable-too-early", `chat ${id} became usable (${how}) before its participant accepted`);
      sim.note(`chat ${id} is usable for ${a.id} (${how})`);
      talk(a, chat);
    }
  }
  const accepting = new Set<string>();
  const unsure = new Set<number>();
  function accept(a: Account, p: Process, id: number) {
    const name = `${a.id}/${id}/${a.life}`;
    const chat = chats.get(id);
    if (accepting.has(name) || usable.has(`${a.id}/${id}`) || !chat) return;
    accepting.add(name);
    (async () => {
      await sim.sleep(w.range(0, acceptAfter), "user.accept");
      for (let n = 0; n < 50 && p.alive; n++) {
        try {
          const c = await p.client.acceptSecretChat(id);
          if (!p.alive) return;
          if (c.type === "active") mark(a, id, "accepted");
          return;
        } catch (err: any) {
          if (!p.alive) return;
          sim.note(`client ${a.id}: accepting ${id} failed: ${err?.name} ${err?.message ?? err}`);
          if (badHalf.has(id)) {
            sim.probe("attack.half.refused");
            return;
          }
          unsure.add(id);
          if (chat.state !== "requested") return;
          await sim.sleep(2000, "user.retry");
        }
      }
    })();
  }
  const badHalf = new Set<number>();
  const perClient = w.int(3, tier === "thorough" ? 60 : 25);
  const many = w.bool(focus === "C19" ? 0.2 : 0.12) ? faulty ? 115 : restarts ? w.pick([130, 180]) : 180 : 0;
  // (so many at once would never get through if salts changed all the time)
  mtFaults.rotateSalt = Math.min(mtFaults.rotateSalt, many ? 0.002 : 0.02);
  // then only their number should lead to a new key
  const onlyMany = many > 0 && w.bool(0.5);
  // or only their age, which restarts do not change
  const aging = restarts > 0 && !many && w.bool(0.5);
  if (onlyMany || aging) peerRekeys = 0;
  const clientPause = w.pick([20, 1000, 8000]);
  let pendingSends = 0;
  function speak(a: Account, chat: EncChat, text = ""): Promise<void> {
    const p = a.process;
    const token = `${a.id}:${++words}${text}`;
    const what = w.weighted([["text", 6], ["contact", 1], ["venue", 1], ["file", filing]]);
    const s: Sent = { token, at: sim.now, state: "pending", life: a.life };
    chat.log.get(a.id)!.sent.push(s);
    if (what === "file") s.settledAt = Infinity;
    pendingSends++;
    const c = p.client;
    const content = what === "file" ? w.bytes(w.pick([1, w.int(1, 100), w.int(100, 5000)])) : EMPTY.key;
    if (what === "file") contents.set(token, content);
    sim.note(`client ${a.id} says ${token} in ${chat.id}`);
    const source = () => !w.bool(0.3) ? content : new ReadableStream<Uint8Array>({
      start(c) {
        for (let n = 0; n < content.length; n += 700) c.enqueue(content.subarray(n, n + 700));
        c.close();
      },
    });
    const call = what === "file" ? c.sendSecretDocument(chat.id, source() as any, { caption: token, parseMode: null, fileName: "f", chunkSize: w.pick([1024, 4096, undefined as any]) } as any) : what === "text" ? c.sendSecretMessage(chat.id, token, { parseMode: null }) : what === "contact" ? c.sendSecretContact(chat.id, token, "123") : c.sendSecretVenue(chat.id, 1, 2, token, "a");
    return call.then(() => {
      if (s.settledAt) s.settledAt = sim.now;
      if (p.alive && s.state === "pending") s.state = "ok";
    }, (err: any) => {
      s.state = "error";
      if (p.alive) sim.note(`client ${a.id}: ${token} failed: ${err?.name} ${err?.message ?? err}`);
      if (p.alive && !faulty && !chat.ended) sim.violation("C18", "not-sent", `chat ${chat.id}: sending ${token} failed although nothing did: ${err?.name} ${err?.message}`);
    }).finally(() => {
      if (p.alive) pendingSends--;
    });
  }
  function talk(a: Account, chat: EncChat) {
    talking++;
    (async () => {
      const n = many && (onlyMany || chat.id % 2) ? many : perClient;
      for (let k = 0; k < n && chat.state === "accepted" && !chat.ended; k++) {
        const keep = sim.op();
        if (!a.ready) {
          await sim.sleep(1000, "user.wait");
          k--;
          if (over) break;
          continue;
        }
        if (keep) {
          // a restart does not change how often the key was used
          if (many === 130 && n === many && k === 65) for (let i = 0; i < 1000 && !(a.life && a.ready); i++) await sim.sleep(500, "user.wait");
          if (many && n === many && w.bool(0.97)) {
            speak(a, chat);
            if (k % 30 !== 29) continue;
          } else if (!onlyMany && !aging && w.bool(0.05)) {
            // it has had no key younger than a week
            sim.probe("week");
            (sim as any).epoch += 7 * 86400000 + 1000;
          } else speak(a, chat);
        }
        await sim.sleep(w.pick([0.01, w.range(0, 20), w.range(0, clientPause)]), "user.talk");
      }
    })().finally(() => talking--);
  }
  let over = false;

  //// THE RUN ////
  for (const a of accounts.values()) boot(a);
  await sim.run(() => [...accounts.values()].every((a) => a.ready), 600000);
  // they know each other
  for (const a of accounts.values()) {
    const p = a.process;
    await sim.until((async () => {
      for (let n = 0; n < 100; n++) {
        try {
          await p.client.invoke({ _: "users.getUsers", id: [{ _: "inputUserSelf" }, ...EVERYONE.map((v) => ({ _: "inputUser", user_id: BigInt(v), access_hash: BigInt(v) * 7919n + 1n }))] } as any);
          return;
        } catch {
          await sim.sleep(1000, "user.retry");
        }
      }
    })());
  }
  const count = cfg.weighted([[1, 4], [2, 2]]);
  for (let n = 0; n < count; n++) {
    const a = accounts.get(SELVES[n % SELVES.length])!;
    const other = two ? SELVES[(n + 1) % 2] : PEERS[n];
    sim.after(w.range(0, 3000) * n, "user.request", () => {
      if (!two && w.bool(0.5)) {
        // the model asks
        const chat = makeChat(other, a.id, new Uint8Array(), BigInt(n + 1));
        const peer = makePeer(chat, other);
        chat.gA = peer.g;
        if (hostile && att.bool(0.1)) {
          badHalf.add(chat.id);
          chat.ended = true;
          sim.probe("attack.half");
          chat.gA = fromBig(att.pick([0n, 1n, P - 1n, 2n, P]), 256);
        }
        pushChat(chat, a.id);
        return;
      }
      requesting++;
      request(a, other).finally(() => requesting--);
    });
  }
  let requesting = 0;
  const asked = new Set<number>();
  async function request(a: Account, other: number) {
    for (let k = 0; k < 50; k++) {
      const p = a.process;
      if (!a.ready) {
        await sim.sleep(2000, "user.retry");
        continue;
      }
      try {
        const c = await p.client.requestSecretChat(other);
        if (!p.alive) continue;
        sim.note(`client ${a.id} asked ${other} for chat ${c.id}`);
        asked.add(c.id);
        return;
      } catch (err: any) {
        if (!p.alive) continue;
        sim.note(`client ${a.id}: asking ${other} for a chat failed: ${err?.name} ${err?.message ?? err}`);
        if (!faulty && !dhBad && !badHalf.size) sim.violation("C19", "not-requested", `requesting a secret chat failed although nothing did: ${err?.name} ${err?.message}`);
        if (!faulty && k > 3) return;
        await sim.sleep(2000, "user.retry");
      }
    }
  }
  const span = w.pick([3000, 20000, 60000]);
  let changing = 0;
  const established_ = () => [...chats.values()].every((v) => SELVES.every((s) => (v.admin !== s && v.participant !== s) || usable.has(`${s}/${v.id}`)));
  const early = crashing > 0 && cfg.bool(0.15);
  for (let n = 0; n < crashing; n++) {
    changing++;
    (async () => {
      await sim.sleep(w.range(100, span), "proc.crash");
      const a = w.pick([...accounts.values()]);
      while (!early && (!established_() || !chats.size) && !over) await sim.sleep(w.range(10, 2000), "proc.crash");
      if (!a.ready || over || !sim.fault("proc.crash", 1)) return;
      sim.note(`client ${a.id} crashes`);
      sim.probe("crash");
      a.process.crash();
      a.down = true;
      a.crashedAt.push(sim.now);
      pendingSends = 0;
      for (const v of chats.values()) {
        if (v.admin !== a.id && v.participant !== a.id) continue;
        crashes.set(v, [...crashesOf(v), sim.now]);
        killed.add(v);
        if (!usable.has(`${a.id}/${v.id}`)) v.whole = false;
      }
      await sim.sleep(w.pick([w.range(5, 50), w.range(100, 10000), w.range(1000, 100000)]), "proc.down");
      boot(a);
    })().finally(() => changing--);
  }
  let last: Promise<void> = Promise.resolve();
  for (let n = 0; n < (aging ? 4 : restarts); n++) {
    changing++;
    const previous = last;
    last = (async () => {
      if (aging) await previous;
      await sim.sleep(aging ? w.range(2000, 10000) : w.range(2000, span * 2), "user.restart");
      const a = aging ? [...accounts.values()][0] : w.pick([...accounts.values()]);
      const free = () => [...chats.values()].every((v) => (v.admin !== a.id && v.participant !== a.id) || usable.has(`${a.id}/${v.id}`));
      while ((!free() || !a.ready) && !over) await sim.sleep(w.range(10, 2000), "user.restart");
      if (over) return;
      sim.note(`client ${a.id} stops`);
      sim.probe("restart");
      const p = a.process;
      a.down = true;
      // what was called has come back, and what arrived was handled
      const at = sim.now;
      while (pendingSends && sim.now - at < 1000000) await sim.sleep(100, "user.restart");
      await sim.sleep(6000, "user.restart");
      await p.client.disconnect().catch((err: any) => sim.note("disconnect() failed: " + err));
      await sim.sleep(1000, "user.restart");
      p.crash();
      for (const v of chats.values()) if (v.admin === a.id || v.participant === a.id) crashes.set(v, [...crashesOf(v), sim.now]);
      a.crashedAt.push(sim.now);
      await sim.sleep(w.range(10, 20000), "user.restart");
      if (aging) {
        sim.probe("days");
        (sim as any).epoch += w.int(60, 100) * 3600000;
      }
      boot(a);
      while (aging && !a.ready && !over) await sim.sleep(100, "user.restart");
      for (const v of chats.values()) {
        for (let k = 0; aging && a.ready && k < 2; k++) {
          if (v.state === "accepted" && !v.ended && usable.has(`${a.id}/${v.id}`)) speak(a, v).catch(() => {});
          await sim.sleep(w.range(10, 5000), "user.restart");
        }
      }
    })().finally(() => changing--);
  }
  await sim.run(() => sim.now > span && !talking && !changing && !requesting && !pendingSends, 4000000);
  over = true;
  await sim.run(() => false, sim.now + w.range(0, 20000));

  //// heal ////
  sim.faultsEnabled = false;
  net.faults = { ...NO_NET_FAULTS, shortRead: net.faults.shortRead, partialWrite: net.faults.partialWrite };
  net.partitionedUntil = 0;
  server.faults = { ...NO_MT_FAULTS };
  for (const a of accounts.values()) a.disk.heal();
  sim.note("---- healed ----");
  await sim.run(() => [...accounts.values()].every((a) => a.ready && a.process.client.isConnected) && !changing && !talking, sim.now + 900000);
  await sim.run(() => false, sim.now + 100000);
  // if a call failed, what came of it is not known
  const known = (v: EncChat) => (!accounts.has(v.admin) || asked.has(v.id)) && (usable.has(`${v.participant}/${v.id}`) || !unsure.has(v.id));
  const whole = [...chats.values()].filter((v) => v.whole && !v.ended && v.state !== "discarded" && known(v));
  for (const v of chats.values()) sim.probe(`chat.${v.peer ? v.peer.creator ? "accepted" : "requested" : "two"}`);
  for (const a of accounts.values()) send(a, { _: "updatesTooLong" }, "updatesTooLong");
  await sim.run(() => false, sim.now + 60000);
  // (a client that hears nothing looks after 15 minutes)
  await sim.run(() => whole.every((v) => SELVES.every((s) => (v.admin !== s && v.participant !== s) || usable.has(`${s}/${v.id}`))), sim.now + 1100000);
  for (const v of whole) {
    for (const s of SELVES) {
      if ((v.admin === s || v.participant === s) && !usable.has(`${s}/${v.id}`)) sim.violation("C19", "not-established", `chat ${v.id} has not become usable for ${s} (it is ${v.state})`);
    }
  }
  // what is new shows what is missing
  for (let k = 0; k < 2; k++) {
    for (const v of whole) {
      if (v.state !== "accepted") continue;
      for (const a of accounts.values()) if (usable.has(`${a.id}/${v.id}`)) speak(a, v, "/end").catch(() => {});
      if (v.peer) say(v.peer, "/end");
    }
    await sim.run(() => !pendingSends, sim.now + 100000);
    await sim.run(() => false, sim.now + 100000);
    const behind = () => whole.some((v) => v.peer?.buffer.size);
    await sim.run(() => !behind(), sim.now + 1200000);
  }
  // keys can be renewed whatever happened before
  // (what a client received just before it crashed may be lost with it, among it a part of an exchange)
  for (const { peer } of whole) {
    // (later ones may have to wait for the other party to confirm that it has the current one)
    if (peer && peer.keys.length === 1 && !peer.rekey && !peer.use.asked && (peer.use.messages > 105 || peer.use.overdue > 3)) peer.overused = `${peer.use.messages} messages, ${peer.use.overdue} of them after more than a week,`;
  }
  const renewing = whole.filter((v) => v.peer && v.state === "accepted" && !v.peer.buffer.size && !killed.has(v) && !v.peer.spoiled.size);
  const keysBefore = new Map(renewing.map((v) => [v, v.peer!.keys.length]));
  const stale = () => renewing.filter((v) => v.state === "accepted" && v.peer!.keys.length === keysBefore.get(v));
  for (let k = 0; k < 6 && stale().length; k++) {
    for (const v of stale()) {
      if (!v.peer!.startRekey()) say(v.peer!, "/more");
    }
    await sim.run(() => !stale().length, sim.now + 60000);
    for (const v of renewing) {
      for (const a of accounts.values()) if (usable.has(`${a.id}/${v.id}`) && v.state === "accepted") speak(a, v, "/more").catch(() => {});
    }
    await sim.run(() => !pendingSends, sim.now + 60000);
    await sim.run(() => false, sim.now + 20000);
  }
  for (const v of stale()) sim.violation("C19", "rekey-refused", `chat ${v.id}: its peer has not been able to renew the key, which it tried again and again`);
  await sim.run(() => !pendingSends, sim.now + 60000);
  await sim.run(() => false, sim.now + 20000);
  for (const v of whole) {
    if (v.state !== "accepted") continue;
    for (const [from, log] of v.log) {
      const shown = new Set(log.shown.map((s) => s.token));
      const to = from === v.admin ? v.participant : v.admin;
      const receiver = accounts.get(to);
      for (const s of log.sent) {
        if (shown.has(s.token)) continue;
        const last = s.token.endsWith("/end");
        if (s.state !== "ok" && !last) continue;
        if (last && s.state === "pending") sim.violation("C18", "send-pending", `chat ${v.id}: sending ${s.token} has not ended on a healthy network`);
        // what was received just before a crash may have been lost with it
        if (receiver?.crashedAt.some((t) => s.at < t)) {
          sim.probe("lost.by.crash");
          continue;
        }
        sim.violation("C18", "lost", `chat ${v.id}: ${s.token} from ${from} (sent at ${s.at.toFixed(0)}${s.state === "ok" ? "" : ", " + s.state}) was never shown to ${to}`);
        break;
      }
    }
    const p = v.peer;
    if (p?.overused && !faulty) sim.violation("C19", "key-overused", `chat ${v.id}: the client used its key for ${p.overused} and did not ask for another`);
    if (p && !faulty && !p.spoiled.size) {
      if (p.rekey || p.toCommit) sim.violation("C19", "rekey-stalled", `chat ${v.id}: a key exchange ${p.rekey ? "of the peer" : "of the client"} has not ended`);
      if (p.keys.length > 1 && p.lastKey !== p.keys.length - 1) sim.violation("C19", "rekey-stalled", `chat ${v.id}: the client does not use the new key`);
    }
    if (p?.rekeys) sim.probe("rekeyed", );
  }
  info.chats = whole.length;
  // nothing that was sent is shown after an end
  for (const a of accounts.values()) a.process.client.disconnect().catch(() => {});
  await sim.run(() => false, sim.now + 5000);
  void EMPTY;
}

export default {
  unhandled: () => "-",
  stuck: (focus) => focus,
  components: {
    real: ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts", "client/2_update_manager.ts", "client/6_client.ts and everything below it"],
    stub: ["Telegram data centre relaying secret chats (sim/server, this world)", "model of a conforming peer (this world), or a second real client", "disk under the Storage interface", "TCP and WebSocket", "clock, timers, randomness, WebCrypto completion"],
  },
  run,
} as World;
