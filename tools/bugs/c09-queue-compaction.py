PROPERTY='C09'
KIT=False
NEEDS='more than sixty chunks waiting to be read, and one of them read partly at the moment the queue is shortened'
BREAKS='the bytes already read from the first chunk left are handed out again, so everything after it is shifted'
EDITS=[('connection/0_byte_queue.ts', '      this.#chunks = this.#chunks.slice(this.#head);\n      this.#head = 0;\n', '      this.#chunks = this.#chunks.slice(this.#head);\n      this.#head = this.#headOffset = 0;\n')]
DEMO='''
import { ConnectionTLS } from "/repo/connection/1_connection_tls.ts";

// deno-lint-ignore no-explicit-any
type Any = any;

/** Bytes read by the client of a socket that gives what was sent in the sizes it likes. */
class Queue {
  bytes: number[] = [];
  wake: (() => void)[] = [];
  push(b: ArrayLike<number>) {
    this.bytes.push(...Array.from(b));
    this.wake.splice(0).forEach((v) => v());
  }
  async take(p: Uint8Array) {
    while (!this.bytes.length) await new Promise<void>((r) => this.wake.push(r));
    const n = Math.min(p.length, this.bytes.length);
    p.set(this.bytes.splice(0, n));
    return n;
  }
}

const secret = new Uint8Array(16).map((_, i) => i + 1);
async function hmac(key: Uint8Array, data: Uint8Array) {
  const k = await crypto.subtle.importKey("raw", key as Any, { name: "HMAC", hash: "SHA-256" }, false, ["sign"]);
  return new Uint8Array(await crypto.subtle.sign("HMAC", k, data as Any));
}

const incoming = new Queue();
let greeted = false;
const socket: Any = {
  setNoDelay() {},
  setKeepAlive() {},
  close() {},
  read: (p: Uint8Array) => incoming.take(p),
  async write(p: Uint8Array) {
    if (!greeted) {
      greeted = true;
      const random = p.slice(11, 43);
      const hello = [0x16, 3, 3, 0, 80, ...new Array(80).fill(7), 0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, 0, 50, ...new Array(50).fill(9)];
      hello.fill(0, 11, 43);
      const digest = await hmac(secret, new Uint8Array([...random, ...hello]));
      hello.splice(11, 32, ...digest);
      incoming.push(hello);
    }
    return p.length;
  },
};
const connection = new ConnectionTLS("127.0.0.1", 443, secret);
connection.connect = (() => Promise.resolve(socket)) as Any;
await connection.open();

const count = 900;
const sent = new Uint8Array(count).map((_, i) => (i * 31 + (i >> 3)) & 255);
for (let i = 0; i < count; i += 3) incoming.push([0x17, 3, 3, 0, 3, ...sent.subarray(i, i + 3)]);
// one read makes it take in every record but the last ones, the others come in twos
const got: number[] = [];
const first = new Uint8Array(2);
await connection.read(first);
got.push(...first);
for (const size of [601, 2, 2, 200, 2, 2, 2]) {
  const p = new Uint8Array(size);
  await connection.read(p);
  got.push(...p);
}
const { ByteQueue } = await import("/repo/connection/0_byte_queue.ts").catch(() => ({} as Any));
if (ByteQueue) {
  const queue = new ByteQueue();
  for (let i = 0; i < count; i += 3) queue.push(sent.slice(i, i + 3));
  for (let i = 0; i < count; i += 2) {
    const p = new Uint8Array(2);
    queue.read(p);
    if (p[0] !== sent[i] || p[1] !== sent[i + 1]) {
      console.error(`the bytes at ${i} are others than those received`);
      Deno.exit(1);
    }
  }
}
if (got.some((v, i) => v !== sent[i])) {
  console.error("the bytes read are others than those received");
  Deno.exit(1);
}
console.log("ok");
Deno.exit(0);
'''
