// Proxy servers, written from their specifications: SOCKS5 (RFC 1928/1929) and MTProto proxies behind fake TLS.
// They sit between a simulated connection and whatever is tunnelled, check the client strictly, and can misbehave.
import nodeCrypto from "node:crypto";
import type { Conn, ServerSide } from "../core/net.ts";
import type { Rng } from "../core/rng.ts";
import { cat, eq, hex } from "./wire.ts";

export type Inner = (conn: Conn) => ServerSide;

export interface ProxyEvents {
  /** The client broke the protocol, or revealed something it must not. */
  problem(kind: string, message: string): void;
  /** The server made the setup fail, or let it succeed. */
  outcome(good: boolean, how: string): void;
}

const hmac = (key: Uint8Array, data: Uint8Array) => Uint8Array.from(nodeCrypto.createHmac("sha256", key).update(data).digest());

abstract class ProxySide implements ServerSide {
  protected buf: Uint8Array = new Uint8Array();
  protected inner: ServerSide | null = null;
  protected failed: string | null = null;
  readonly conn: Conn;
  protected readonly ev: ProxyEvents;
  constructor(conn: Conn, ev: ProxyEvents) {
    this.conn = conn;
    this.ev = ev;
  }

  onData(bytes: Uint8Array) {
    if (this.failed) {
      this.ev.problem("bytes-after-failure", `the client sent ${bytes.length} bytes after the setup had failed (${this.failed})`);
      return;
    }
    this.buf = cat(this.buf, bytes);
    while (!this.failed && this.step()) { /* next */ }
  }

  onClose(reason: "fin" | "reset") {
    this.inner?.onClose(reason);
  }

  /** Consumes one element of the stream; false when more bytes are needed. */
  protected abstract step(): boolean;

  protected take(n: number): Uint8Array {
    const r = this.buf.slice(0, n);
    this.buf = this.buf.subarray(n);
    return r;
  }

  protected fail(how: string, end: "fin" | "reset" | null = "fin") {
    this.failed = how;
    this.ev.outcome(false, how);
    if (end) this.conn.serverEnd(end);
  }

  /** Sends a part of what was to be sent and ends the connection. */
  protected cut(bytes: Uint8Array, r: Rng, how: string) {
    this.conn.sendRaw(bytes.subarray(0, r.int(0, Math.max(0, bytes.length - 1))));
    this.fail(how, r.bool(0.7) ? "fin" : "reset");
  }
}

export interface Socks5Plan {
  /** What the server does about the methods: accept without authentication, ask for credentials, or misbehave. */
  method: "none" | "password" | "refuse" | "unoffered" | "bad-version" | "cut" | "close" | "garbage";
  auth: "ok" | "refuse" | "bad-version" | "cut" | "close";
  connect: "ok" | "refuse" | "bad-version" | "bad-address-type" | "cut" | "close";
  addressType: 1 | 3 | 4;
  /** The username and password the server knows. */
  user: { username: string; password: string } | null;
  destination: { host: string; port: number };
  /** Keep the connection open after refusing, as sloppy servers do. */
  lazy: boolean;
}

export class Socks5Side extends ProxySide {
  #state: "greeting" | "auth" | "request" | "open" = "greeting";
  #plan: Socks5Plan;
  #r: Rng;
  #make: Inner;
  constructor(conn: Conn, plan: Socks5Plan, r: Rng, ev: ProxyEvents, make: Inner) {
    super(conn, ev);
    this.#plan = plan;
    this.#r = r;
    this.#make = make;
  }

  protected step(): boolean {
    const b = this.buf, p = this.#plan, r = this.#r;
    const end = p.lazy ? null : "fin";
    switch (this.#state) {
      case "greeting": {
        if (b.length < 2 || b.length < 2 + b[1]) return false;
        const g = this.take(2 + b[1]);
        if (g[0] !== 5 || g[1] === 0) this.ev.problem("greeting", `SOCKS5 greeting ${hex(g)}`);
        const offered = [...g.subarray(2)];
        if (!offered.includes(0) && !offered.includes(2)) this.ev.problem("greeting", `offers no usable method: ${hex(g)}`);
        if (this.buf.length) this.ev.problem("early-bytes", "bytes were sent before the method was selected");
        switch (p.method) {
          case "none":
            if (!offered.includes(0)) {
              this.conn.sendRaw(new Uint8Array([5, 0xFF]));
              this.fail("no common method", end);
              return false;
            }
            this.conn.sendRaw(new Uint8Array([5, 0]));
            this.#state = "request";
            return true;
          case "password":
            if (!offered.includes(2)) {
              this.conn.sendRaw(new Uint8Array([5, 0xFF]));
              this.fail("no common method", end);
              return false;
            }
            this.conn.sendRaw(new Uint8Array([5, 2]));
            if (!p.user) {
              // the client has no credentials to give
              this.failed = "credentials wanted";
              this.ev.outcome(false, this.failed);
              return false;
            }
            this.#state = "auth";
            return true;
          case "refuse":
            this.conn.sendRaw(new Uint8Array([5, 0xFF]));
            this.fail("method refused", end);
            return false;
          case "unoffered":
            this.conn.sendRaw(new Uint8Array([5, r.pick([1, 3, 0x80, 0xFE])]));
            this.fail("method not offered", end);
            return false;
          case "bad-version":
            this.conn.sendRaw(new Uint8Array([r.pick([0, 4, 1, 0x48]), r.pick([0, 2])]));
            this.fail("bad version in the method reply", end);
            return false;
          case "garbage": {
            const g = r.bytes(r.int(2, 40));
            g[0] = r.pick([0x48, 0x15, 0x16, 4]);
            this.conn.sendRaw(g);
            this.fail("garbage method reply", end);
            return false;
          }
          case "cut":
            this.cut(new Uint8Array([5, 0]), r, "cut in the method reply");
            return false;
          case "close":
            this.fail("closed before the method reply", r.bool(0.5) ? "fin" : "reset");
            return false;
        }
        break;
      }
      case "auth": {
        if (b.length < 2 || b.length < 3 + b[1] || b.length < 3 + b[1] + b[2 + b[1]]) return false;
        const ul = b[1], pl = b[2 + ul];
        const m = this.take(3 + ul + pl);
        const enc = new TextEncoder();
        const user = enc.encode(p.user!.username).subarray(0, 255), pass = enc.encode(p.user!.password).subarray(0, 255);
        if (m[0] !== 1 || !eq(m.subarray(2, 2 + ul), user) || !eq(m.subarray(3 + ul), pass)) {
          this.ev.problem("credentials", `authentication message ${hex(m)} does not carry the credentials`);
        }
        if (this.buf.length) this.ev.problem("early-bytes", "bytes were sent before the authentication was answered");
        switch (p.auth) {
          case "ok":
            this.conn.sendRaw(new Uint8Array([1, 0]));
            this.#state = "request";
            return true;
          case "refuse":
            this.conn.sendRaw(new Uint8Array([1, r.pick([1, 2, 0xFF])]));
            this.fail("credentials refused", end);
            return false;
          case "bad-version":
            this.conn.sendRaw(new Uint8Array([r.pick([0, 2, 5]), 0]));
            this.fail("bad version in the authentication reply", end);
            return false;
          case "cut":
            this.cut(new Uint8Array([1, 0]), r, "cut in the authentication reply");
            return false;
          case "close":
            this.fail("closed before the authentication reply", "fin");
            return false;
        }
        break;
      }
      case "request": {
        if (b.length < 5) return false;
        const n = b[3] === 1 ? 10 : b[3] === 4 ? 22 : b[3] === 3 ? 7 + b[4] : -1;
        if (n < 0) {
          this.ev.problem("request", `request ${hex(b.slice(0, 40))} has address type ${b[3]}`);
          this.fail("bad request");
          return false;
        }
        if (b.length < n) return false;
        const q = this.take(n);
        const port = (q[n - 2] << 8) | q[n - 1];
        const host = q[3] === 1 ? [...q.subarray(4, 8)].join(".") : q[3] === 3 ? new TextDecoder().decode(q.subarray(5, n - 2)) : Array.from({ length: 8 }, (_, i) => ((q[4 + i * 2] << 8) | q[5 + i * 2]).toString(16)).join(":");
        if (q[0] !== 5 || q[1] !== 1 || q[2] !== 0) this.ev.problem("request", `request ${hex(q)}`);
        if (host !== expand(p.destination.host) || port !== p.destination.port) this.ev.problem("destination", `asked the proxy for ${host} port ${port} instead of ${p.destination.host} port ${p.destination.port}`);
        if (this.buf.length) this.ev.problem("early-bytes", "bytes were sent before the proxy had connected");
        const address = p.addressType === 1 ? r.bytes(4) : p.addressType === 4 ? r.bytes(16) : (() => {
          const l = r.pick([0, 1, 11, 255]);
          return cat(new Uint8Array([l]), r.bytes(l));
        })();
        const reply = cat(new Uint8Array([5, 0, 0, p.addressType]), address, r.bytes(2));
        switch (p.connect) {
          case "ok":
            this.conn.sendRaw(reply);
            this.ev.outcome(true, "connected");
            this.#state = "open";
            this.inner = this.#make(this.conn);
            return true;
          case "refuse":
            reply[1] = r.int(1, 8);
            this.conn.sendRaw(reply);
            this.fail("connection refused by the proxy", end);
            return false;
          case "bad-version":
            reply[0] = r.pick([0, 1, 4]);
            this.conn.sendRaw(reply);
            this.fail("bad version in the reply", end);
            return false;
          case "bad-address-type":
            reply[3] = r.pick([0, 2, 5, 0x80, 0xFF]);
            this.conn.sendRaw(reply);
            this.fail("bad address type in the reply", end);
            return false;
          case "cut":
            this.cut(reply, r, "cut in the reply");
            return false;
          case "close":
            this.fail("closed before the reply", "fin");
            return false;
        }
        break;
      }
      case "open":
        if (b.length === 0) return false;
        this.inner!.onData(this.take(b.length));
        return false;
    }
    return false;
  }
}

function expand(host: string): string {
  if (!host.includes(":")) return host;
  const [a, z] = host.split("::");
  const left = a ? a.split(":") : [], right = z ? z.split(":") : [];
  const mid = host.includes("::") ? new Array(8 - left.length - right.length).fill("0") : [];
  return [...left, ...mid, ...right].map((v) => parseInt(v, 16).toString(16)).join(":");
}

export interface TlsPlan {
  answer: "ok" | "flip" | "wrong-secret" | "replay" | "bad-prefix" | "bad-second-prefix" | "alert" | "cut" | "close" | "echo" | "garbage" | "zero-random";
  secret: Uint8Array;
  domain: string;
  /** Seconds since the epoch as the client's clock shows them. */
  clientTime: () => number;
  recordSize: number;
  /** Valid answers to earlier hellos. */
  earlier: Uint8Array[];
  lazy: boolean;
}

/** Whether the bytes are a well-formed TLS 1.3 ClientHello record; returns the server name. */
export function parseClientHello(h: Uint8Array): { error: string | null; name: string } {
  let o = 0, name = "";
  const bad = (error: string) => ({ error, name });
  const u8 = () => h[o++];
  const u16 = () => (h[o++] << 8) | h[o++];
  if (h[0] !== 0x16 || h[1] !== 3 || h[2] !== 1) return bad("record header");
  o = 3;
  if (u16() !== h.length - 5) return bad("record length");
  if (u8() !== 1) return bad("handshake type");
  if (((u8() << 16) | u16()) !== h.length - 9) return bad("handshake length");
  if (u16() !== 0x0303) return bad("version");
  o += 32;
  if (u8() !== 32) return bad("session ID length");
  o += 32;
  const cl = u16();
  if (cl % 2 || cl < 2 || o + cl > h.length) return bad("cipher suites");
  o += cl;
  const comp = u8();
  if (comp !== 1 || u8() !== 0) return bad("compression methods");
  const el = u16();
  if (o + el !== h.length) return bad(`extensions length ${el}, ${h.length - o} bytes left`);
  const seen = new Set<number>();
  while (o < h.length) {
    const type = u16(), len = u16();
    if (o + len > h.length) return bad(`extension ${type} runs over the end`);
    if (seen.has(type)) return bad(`extension ${type} appears twice`);
    seen.add(type);
    const body = h.subarray(o, o + len);
    if (type === 0) {
      const list = (body[0] << 8) | body[1], nl = (body[3] << 8) | body[4];
      if (list !== len - 2 || body[2] !== 0 || nl !== len - 5) return bad("server name extension");
      name = new TextDecoder().decode(body.subarray(5));
    }
    if (type === 51) {
      // the key share of x25519 must be there
      let k = 2, found = false;
      if (((body[0] << 8) | body[1]) !== len - 2) return bad("key share");
      while (k < len) {
        const group = (body[k] << 8) | body[k + 1], kl = (body[k + 2] << 8) | body[k + 3];
        if (group === 0x1d) found = kl === 32;
        k += 4 + kl;
      }
      if (!found || k !== len) return bad("key share");
    }
    o += len;
  }
  for (const t of [0, 10, 13, 43, 51]) if (!seen.has(t)) return bad(`extension ${t} is missing`);
  return { error: null, name };
}

export class FakeTlsSide extends ProxySide {
  #state: "hello" | "open" = "hello";
  #plan: TlsPlan;
  #r: Rng;
  #make: Inner;
  #sawCcs = false;
  constructor(conn: Conn, plan: TlsPlan, r: Rng, ev: ProxyEvents, make: Inner) {
    super(conn, ev);
    this.#plan = plan;
    this.#r = r;
    this.#make = make;
  }

  protected step(): boolean {
    const p = this.#plan, r = this.#r;
    if (this.#state === "hello") {
      if (this.buf.length < 5) return false;
      const n = 5 + ((this.buf[3] << 8) | this.buf[4]);
      if (this.buf.length < n) return false;
      const hello = this.take(n);
      const parsed = parseClientHello(hello);
      if (parsed.error) this.ev.problem("client-hello", `malformed ClientHello: ${parsed.error}`);
      else if (parsed.name !== p.domain) this.ev.problem("client-hello", `server name ${JSON.stringify(parsed.name)} instead of ${JSON.stringify(p.domain)}`);
      const random = hello.slice(11, 43);
      const zeroed = hello.slice();
      zeroed.fill(0, 11, 43);
      const mac = hmac(p.secret, zeroed);
      let time = 0;
      for (let i = 3; i >= 0; i--) time = (time * 256) + (random[28 + i] ^ mac[28 + i]);
      if (!eq(mac.subarray(0, 28), random.subarray(0, 28))) this.ev.problem("client-hello-mac", "the ClientHello is not authenticated with the proxy secret");
      else if (Math.abs(time - p.clientTime()) > 120) this.ev.problem("client-hello-time", `the ClientHello is dated ${time}, the client's clock shows ${p.clientTime()}`);
      if (this.buf.length) this.ev.problem("early-bytes", "bytes were sent before the proxy had answered");

      const body = cat(new Uint8Array([2, 0, 0, 0x76, 3, 3]), new Uint8Array(32), new Uint8Array([0x20]), hello.subarray(44, 76), new Uint8Array([0x13, 1, 0, 0, 0x2e, 0, 0x33, 0, 0x24, 0, 0x1d, 0, 0x20]), r.bytes(32), new Uint8Array([0, 0x2b, 0, 2, 3, 4]));
      const noise = r.bytes(r.pick([1, 64, 1024, 4096, 6000]));
      const answer = cat(new Uint8Array([0x16, 3, 3, body.length >> 8, body.length & 255]), body, new Uint8Array([0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, noise.length >> 8, noise.length & 255]), noise);
      answer.set(hmac(p.answer === "wrong-secret" ? r.bytes(16) : p.secret, cat(random, answer)), 11);
      const old = p.earlier.length ? p.earlier[r.int(0, p.earlier.length - 1)] : null;
      const end = p.lazy ? null : "fin";
      switch (p.answer) {
        case "ok":
          p.earlier.push(answer.slice());
          this.conn.sendRaw(answer);
          this.ev.outcome(true, "connected");
          this.#state = "open";
          this.conn.encodeOut = (b) => this.#records(b);
          this.inner = this.#make(this.conn);
          return true;
        case "wrong-secret":
          this.conn.sendRaw(answer);
          this.fail("answer made with another secret", end);
          return false;
        case "flip": {
          const at = r.pick([r.int(11, 42), r.int(44, 4 + body.length), answer.length - r.int(1, noise.length)]);
          answer[at] ^= 1 << r.int(0, 7);
          this.conn.sendRaw(answer);
          this.fail(`answer altered at byte ${at}`, end);
          return false;
        }
        case "zero-random":
          answer.fill(0, 11, 43);
          this.conn.sendRaw(answer);
          this.fail("answer without authentication", end);
          return false;
        case "replay":
          if (!old) {
            this.fail("closed", "fin");
            return false;
          }
          this.conn.sendRaw(old);
          this.fail("answer to an earlier hello", end);
          return false;
        case "bad-prefix":
          answer[r.pick([0, 1, 2])] ^= 1 << r.int(0, 7);
          answer.fill(0, 11, 43);
          answer.set(hmac(p.secret, cat(random, answer)), 11);
          this.conn.sendRaw(answer);
          this.fail("bad first record", end);
          return false;
        case "bad-second-prefix":
          answer[5 + body.length + r.int(0, 8)] ^= 1 << r.int(0, 7);
          answer.fill(0, 11, 43);
          answer.set(hmac(p.secret, cat(random, answer)), 11);
          this.conn.sendRaw(answer);
          this.fail("bad second record", end);
          return false;
        case "alert":
          this.conn.sendRaw(new Uint8Array([0x15, 3, 3, 0, 2, 2, 40]));
          this.fail("alert", "fin");
          return false;
        case "echo":
          this.conn.sendRaw(hello);
          this.fail("own hello echoed", end);
          return false;
        case "garbage":
          this.conn.sendRaw(cat(new TextEncoder().encode("HTTP/1.1 400 Bad Request\r\n\r\n"), r.bytes(20)));
          this.fail("garbage", end);
          return false;
        case "cut":
          this.cut(answer, r, "cut in the answer");
          return false;
        case "close":
          this.fail("closed before the answer", r.bool(0.5) ? "fin" : "reset");
          return false;
      }
    }
    const b = this.buf;
    if (b.length < 5) return false;
    if (!this.#sawCcs) {
      if (b.length < 6) return false;
      if (!eq(b.subarray(0, 6), new Uint8Array([0x14, 3, 3, 0, 1, 1]))) this.ev.problem("no-change-cipher-spec", `the first record after the handshake is ${hex(b.subarray(0, 6))}`);
      this.#sawCcs = true;
      this.take(6);
      return true;
    }
    if (b[0] !== 0x17 || b[1] !== 3 || b[2] !== 3) {
      this.ev.problem("record", `record header ${hex(b.subarray(0, 5))}`);
      this.failed = "bad record";
      return false;
    }
    const n = (b[3] << 8) | b[4];
    if (n > 16384 + 256 || n === 0) this.ev.problem("record", `record of ${n} bytes`);
    if (b.length < 5 + n) return false;
    const rec = this.take(5 + n);
    this.inner!.onData(rec.subarray(5));
    return true;
  }

  #records(b: Uint8Array): Uint8Array {
    const out: Uint8Array[] = [];
    const max = Math.min(16384, Math.max(this.#plan.recordSize, Math.ceil(b.length / 100)));
    for (let o = 0; o < b.length;) {
      const n = Math.min(b.length - o, this.#r.bool(0.5) ? max : this.#r.int(Math.ceil(max / 8), max));
      out.push(new Uint8Array([0x17, 3, 3, n >> 8, n & 255]), b.subarray(o, o + n));
      o += n;
    }
    return cat(...out);
  }
}
