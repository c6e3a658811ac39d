PROPERTY='C10'
KIT=False
NEEDS='a connection through a TLS proxy that is lost and opened again with the same object'
BREAKS='the second handshake is not finished: the first data after it lacks the change-cipher-spec record, which proxies insist on'
EDITS=[('connection/1_connection_tls.ts', '      this.#canRead = this.#canWrite = this.#isFirstWrite = true;\n      this.stateChangeHandler?.(true);', '      this.#canRead = this.#canWrite = true;\n      this.stateChangeHandler?.(true);')]
DEMO='''
import { ConnectionTLS } from "/repo/connection/1_connection_tls.ts";

// deno-lint-ignore no-explicit-any
type Any = any;
const secret = new Uint8Array(16).map((_, i) => i + 1);
async function hmac(key: Uint8Array, data: Uint8Array) {
  const k = await crypto.subtle.importKey("raw", key as Any, { name: "HMAC", hash: "SHA-256" }, false, ["sign"]);
  return new Uint8Array(await crypto.subtle.sign("HMAC", k, data as Any));
}
const written: number[][] = [];
function makeSocket(): Any {
  const mine: number[] = [];
  written.push(mine);
  let incoming: number[] = [], wake = () => {}, greeted = false, closed = false;
  return {
    setNoDelay() {},
    setKeepAlive() {},
    close() {
      closed = true;
      wake();
    },
    async read(p: Uint8Array) {
      while (!incoming.length && !closed) await new Promise<void>((r) => wake = r);
      if (!incoming.length) return null;
      const n = Math.min(p.length, incoming.length);
      p.set(incoming.slice(0, n));
      incoming = incoming.slice(n);
      return n;
    },
    async write(p: Uint8Array) {
      if (greeted) {
        mine.push(...p);
        return p.length;
      }
      greeted = true;
      const random = p.slice(11, 43);
      const hello = [0x16, 3, 3, 0, 80, ...new Array(80).fill(7), 0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, 0, 50, ...new Array(50).fill(9)];
      hello.fill(0, 11, 43);
      hello.splice(11, 32, ...await hmac(secret, new Uint8Array([...random, ...hello])));
      incoming.push(...hello);
      wake();
      return p.length;
    },
  };
}
let socket: Any;
const connection = new ConnectionTLS("127.0.0.1", 443, secret);
connection.connect = (() => Promise.resolve(socket = makeSocket())) as Any;
for (let i = 0; i < 3; i++) {
  await connection.open();
  await connection.write(new Uint8Array([1, 2, 3, 4]));
  const expected = [0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, 0, 4, 1, 2, 3, 4];
  if (written[i].join() !== expected.join()) {
    console.error(`connection ${i + 1} starts with ${written[i].join()}`);
    Deno.exit(1);
  }
  const reading = connection.read(new Uint8Array(1)).catch(() => {});
  await new Promise((r) => setTimeout(r, 1));
  socket.close(); // the proxy goes away
  await reading;
}
console.log("ok");
Deno.exit(0);
'''
