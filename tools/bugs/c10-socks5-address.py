PROPERTY='C10'
KIT=False
NEEDS='a SOCKS5 proxy that answers with an IPv6 address'
BREAKS="the rest of the proxy's answer is taken for the first bytes from Telegram"
EDITS=[('connection/1_connection_socks5.ts', '          const ipv4 = new Uint8Array(16);\n', '          const ipv4 = new Uint8Array(4);\n')]
DEMO='''
import { ConnectionSocks5 } from "/repo/connection/1_connection_socks5.ts";

// deno-lint-ignore no-explicit-any
type Any = any;
for (const bound of [[1, 127, 0, 0, 1], [3, 3, 97, 46, 98], [4, ...new Array(15).fill(0), 1]]) {
  const incoming: number[] = [];
  let step = 0;
  const socket: Any = {
    setNoDelay() {},
    setKeepAlive() {},
    close() {},
    read(p: Uint8Array) {
      if (!incoming.length) return Promise.resolve(null);
      const n = Math.min(p.length, incoming.length);
      p.set(incoming.splice(0, n));
      return Promise.resolve(n);
    },
    write(p: Uint8Array) {
      if (step === 0) incoming.push(5, 0);
      else if (step === 1) incoming.push(5, 0, 0, ...bound, 1, 2, 11, 22, 33, 44);
      step++;
      return Promise.resolve(p.length);
    },
  };
  Object.defineProperty(Deno, "connect", { configurable: true, writable: true, value: () => Promise.resolve(socket) });
  const connection = new ConnectionSocks5("149.154.167.51", 443, "127.0.0.1", 1080);
  await connection.open();
  const p = new Uint8Array(4);
  await connection.read(p);
  if (p.join() !== "11,22,33,44") {
    console.error(`with an address of type ${bound[0]} the first bytes are ${p.join()}`);
    Deno.exit(1);
  }
}
console.log("ok");
Deno.exit(0);
'''
