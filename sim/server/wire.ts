// The server's own TL primitives, transport codecs and MTProto cryptography, written independently of /repo.
import { Buffer } from "node:buffer";
import nodeCrypto from "node:crypto";
import { ige256Decrypt, ige256Encrypt } from "jsr:@roj/tgcrypto@1.0.3";

export type Bytes = Uint8Array<ArrayBuffer>;

export class W {
  #buf = new Uint8Array(256);
  #n = 0;
  #need(k: number) {
    if (this.#n + k > this.#buf.length) {
      const b = new Uint8Array(Math.max(this.#buf.length * 2, this.#n + k));
      b.set(this.#buf.subarray(0, this.#n));
      this.#buf = b;
    }
  }
  raw(b: Uint8Array) {
    this.#need(b.length);
    this.#buf.set(b, this.#n);
    this.#n += b.length;
    return this;
  }
  u32(v: number) {
    return this.raw(new Uint8Array([v & 255, (v >>> 8) & 255, (v >>> 16) & 255, (v >>> 24) & 255]));
  }
  i64(v: bigint) {
    const b = new Uint8Array(8);
    new DataView(b.buffer).setBigInt64(0, BigInt.asIntN(64, v), true);
    return this.raw(b);
  }
  /** Little-endian integer of n bytes. */
  big(v: bigint, n: number) {
    const b = new Uint8Array(n);
    let x = BigInt.asUintN(n * 8, v);
    for (let i = 0; i < n; i++) {
      b[i] = Number(x & 255n);
      x >>= 8n;
    }
    return this.raw(b);
  }
  bytes(b: Uint8Array) {
    if (b.length < 254) this.raw(new Uint8Array([b.length])).raw(b);
    else this.raw(new Uint8Array([254, b.length & 255, (b.length >>> 8) & 255, (b.length >>> 16) & 255])).raw(b);
    const used = (b.length < 254 ? 1 : 4) + b.length;
    return this.raw(new Uint8Array((4 - (used % 4)) % 4));
  }
  str(s: string) {
    return this.bytes(new TextEncoder().encode(s));
  }
  longs(v: bigint[]) {
    this.u32(0x1cb5c415).u32(v.length);
    for (const x of v) this.i64(x);
    return this;
  }
  done(): Bytes {
    return this.#buf.slice(0, this.#n);
  }
  get length() {
    return this.#n;
  }
}

export class R {
  readonly b: Uint8Array;
  o = 0;
  #v: DataView;
  constructor(b: Uint8Array) {
    this.b = b;
    this.#v = new DataView(b.buffer, b.byteOffset, b.byteLength);
  }
  get left() {
    return this.b.length - this.o;
  }
  raw(n: number): Bytes {
    if (n < 0 || this.left < n) throw new Error("short read");
    const r = this.b.slice(this.o, this.o + n) as Bytes;
    this.o += n;
    return r;
  }
  u32() {
    if (this.left < 4) throw new Error("short read");
    const v = this.#v.getUint32(this.o, true);
    this.o += 4;
    return v;
  }
  i32() {
    return this.u32() | 0;
  }
  i64() {
    if (this.left < 8) throw new Error("short read");
    const v = this.#v.getBigInt64(this.o, true);
    this.o += 8;
    return v;
  }
  /** Signed little-endian integer of n bytes. */
  big(n: number) {
    const b = this.raw(n);
    let x = 0n;
    for (let i = n - 1; i >= 0; i--) x = (x << 8n) | BigInt(b[i]);
    return BigInt.asIntN(n * 8, x);
  }
  bytes(): Bytes {
    let n = this.raw(1)[0];
    let used = 1;
    if (n >= 254) {
      const l = this.raw(3);
      n = l[0] | (l[1] << 8) | (l[2] << 16);
      used = 4;
    }
    const r = this.raw(n);
    this.raw((4 - ((used + n) % 4)) % 4);
    return r;
  }
  longs(): bigint[] {
    if (this.u32() !== 0x1cb5c415) throw new Error("not a vector");
    const n = this.u32();
    if (n > 100000) throw new Error("vector too long");
    return Array.from({ length: n }, () => this.i64());
  }
}

export const sha1 = (...p: Uint8Array[]): Bytes => {
  const h = nodeCrypto.createHash("sha1");
  for (const x of p) h.update(x);
  return Uint8Array.from(h.digest());
};
export const sha256 = (...p: Uint8Array[]): Bytes => {
  const h = nodeCrypto.createHash("sha256");
  for (const x of p) h.update(x);
  return Uint8Array.from(h.digest());
};
export const cat = (...p: Uint8Array[]): Bytes => {
  const out = new Uint8Array(p.reduce((a, b) => a + b.length, 0));
  let o = 0;
  for (const x of p) {
    out.set(x, o);
    o += x.length;
  }
  return out;
};
export const igeE = (d: Uint8Array, k: Uint8Array, iv: Uint8Array): Bytes => ige256Encrypt(d, k, iv) as Bytes;
export const igeD = (d: Uint8Array, k: Uint8Array, iv: Uint8Array): Bytes => ige256Decrypt(d, k, iv) as Bytes;
export const eq = (a: Uint8Array, b: Uint8Array) => a.length === b.length && a.every((v, i) => v === b[i]);
export const hex = (b: Uint8Array) => Buffer.from(b).toString("hex");
export const unhex = (s: string): Bytes => Uint8Array.from(Buffer.from(s, "hex"));
export function toBig(b: Uint8Array): bigint {
  return b.length === 0 ? 0n : BigInt("0x" + hex(b));
}
export function fromBig(v: bigint, n: number): Bytes {
  const s = v.toString(16).padStart(n * 2, "0");
  return unhex(s.slice(-n * 2));
}
export function modpow(b: bigint, e: bigint, m: bigint): bigint {
  let r = 1n;
  b %= m;
  while (e > 0n) {
    if (e & 1n) r = (r * b) % m;
    b = (b * b) % m;
    e >>= 1n;
  }
  return r;
}

export function authKeyId(key: Uint8Array): bigint {
  const h = sha1(key).slice(-8);
  return new DataView(h.buffer).getBigInt64(0, true);
}

/** MTProto 2.0 key derivation; x is 0 for client-to-server messages and 8 for server-to-client ones. */
function kdf(key: Uint8Array, msgKey: Uint8Array, x: number): [Bytes, Bytes] {
  const a = sha256(msgKey, key.subarray(x, x + 36));
  const b = sha256(key.subarray(40 + x, 76 + x), msgKey);
  return [cat(a.subarray(0, 8), b.subarray(8, 24), a.subarray(24, 32)), cat(b.subarray(0, 8), a.subarray(8, 24), b.subarray(24, 32))];
}

export function decryptFromClient(key: Uint8Array, packet: Uint8Array): Bytes | null {
  const msgKey = packet.subarray(8, 24);
  let data = packet.subarray(24);
  data = data.subarray(0, data.length - (data.length % 16));
  if (data.length === 0) return null;
  const [k, iv] = kdf(key, msgKey, 0);
  const plain = igeD(data, k, iv);
  if (!eq(sha256(key.subarray(88, 120), plain).subarray(8, 24), msgKey)) return null;
  return plain;
}

export function encryptToClient(key: Uint8Array, keyId: bigint, payload: Uint8Array, padding: Uint8Array): Bytes {
  const plain = cat(payload, padding);
  const msgKey = sha256(key.subarray(96, 128), plain).subarray(8, 24);
  const [k, iv] = kdf(key, msgKey, 8);
  return new W().i64(keyId).raw(msgKey).raw(igeE(plain, k, iv)).done();
}

/** MTProto 1.0 decryption, as used for binding temporary keys. */
export function decryptV1(key: Uint8Array, packet: Uint8Array): Bytes {
  const m = packet.subarray(8, 24);
  const a = sha1(m, key.subarray(0, 32));
  const b = sha1(key.subarray(32, 48), m, key.subarray(48, 64));
  const c = sha1(key.subarray(64, 96), m);
  const d = sha1(m, key.subarray(96, 128));
  const k = cat(a.subarray(0, 8), b.subarray(8, 20), c.subarray(4, 16));
  const iv = cat(a.subarray(8, 20), b.subarray(0, 8), c.subarray(16, 20), d.subarray(0, 8));
  return igeD(packet.subarray(24), k, iv);
}

class Ctr {
  #c: ReturnType<typeof nodeCrypto.createCipheriv>;
  constructor(key: Uint8Array, iv: Uint8Array) {
    this.#c = nodeCrypto.createCipheriv("aes-256-ctr", key, iv);
  }
  go(b: Uint8Array): Bytes {
    return Uint8Array.from(this.#c.update(b));
  }
}

export type Framing = "abridged" | "intermediate" | "padded";

/** The server's end of a transport: bytes in, packets out. */
export class Codec {
  #buf: Uint8Array = new Uint8Array();
  framing: Framing | null = null;
  obfuscated = false;
  dcId: number | null = null;
  #in: Ctr | null = null;
  #out: Ctr | null = null;
  error: string | null = null;
  readonly secret: Uint8Array | null;
  readonly mustObfuscate: boolean;

  constructor(secret: Uint8Array | null = null, mustObfuscate = false) {
    this.secret = secret;
    this.mustObfuscate = mustObfuscate;
  }

  feed(bytes: Uint8Array): Bytes[] {
    const out: Bytes[] = [];
    if (this.error) return out;
    this.#buf = cat(this.#buf, this.#in ? this.#in.go(bytes) : bytes);
    if (!this.framing && !this.#detect()) return out;
    while (true) {
      const p = this.#next();
      if (!p) break;
      out.push(p);
    }
    return out;
  }

  #detect(): boolean {
    const b = this.#buf;
    if (b.length < 1) return false;
    if (!this.mustObfuscate) {
      if (b[0] === 0xEF) {
        this.framing = "abridged";
        this.#buf = b.subarray(1);
        return true;
      }
      if (b.length < 4) return false;
      if ([0, 1, 2, 3].every((i) => b[i] === 0xEE)) {
        this.framing = "intermediate";
        this.#buf = b.subarray(4);
        return true;
      }
      if ([0, 1, 2, 3].every((i) => b[i] === 0xDD)) {
        this.framing = "padded";
        this.#buf = b.subarray(4);
        return true;
      }
    }
    if (b.length < 64) return false;
    const init = b.slice(0, 64);
    const rev = init.slice().reverse();
    let ek = init.slice(8, 40), dk = rev.slice(8, 40);
    if (this.secret) {
      const s = this.secret.length >= 17 ? this.secret.subarray(1, 17) : this.secret;
      ek = sha256(ek, s);
      dk = sha256(dk, s);
    }
    this.#in = new Ctr(ek, init.slice(40, 56));
    this.#out = new Ctr(dk, rev.slice(40, 56));
    const plain = this.#in.go(init);
    const tag = hex(plain.subarray(56, 60));
    this.framing = tag === "efefefef" ? "abridged" : tag === "eeeeeeee" ? "intermediate" : tag === "dddddddd" ? "padded" : null;
    if (!this.framing) {
      this.error = "unknown protocol tag " + tag;
      return false;
    }
    this.obfuscated = true;
    this.dcId = new DataView(plain.buffer).getInt16(60, true);
    this.#buf = this.#in.go(b.slice(64));
    return true;
  }

  #next(): Bytes | null {
    const b = this.#buf;
    let head: number, len: number;
    if (this.framing === "abridged") {
      if (b.length < 1) return null;
      if (b[0] < 0x7F) head = 1, len = b[0] * 4;
      else if (b[0] === 0x7F) {
        if (b.length < 4) return null;
        head = 4, len = (b[1] | (b[2] << 8) | (b[3] << 16)) * 4;
      } else {
        this.error = "bad abridged length byte " + b[0];
        return null;
      }
    } else {
      if (b.length < 4) return null;
      head = 4, len = (b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24)) >>> 0;
    }
    if (len > 4_000_000 || len === 0) {
      this.error = "implausible packet length " + len;
      return null;
    }
    if (b.length < head + len) return null;
    const p = b.slice(head, head + len) as Bytes;
    this.#buf = b.subarray(head + len);
    return p;
  }

  frame(packet: Uint8Array, padding: Uint8Array = new Uint8Array()): Bytes {
    let out: Bytes;
    if (this.framing === "abridged") {
      const n = packet.length / 4;
      out = cat(n < 0x7F ? new Uint8Array([n]) : new Uint8Array([0x7F, n & 255, (n >>> 8) & 255, (n >>> 16) & 255]), packet);
    } else {
      const body = this.framing === "padded" ? cat(packet, padding) : packet;
      out = new W().u32(body.length).raw(body).done();
    }
    return this.#out ? this.#out.go(out) : out;
  }

  get partial() {
    return this.#buf.length;
  }
}
