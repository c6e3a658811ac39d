PROPERTY='C09'
KIT=False
NEEDS='a packet of a quarter of a megabyte or more sent over the abridged transport'
BREAKS='the length in front of the packet lacks its highest bits, so the server cuts the packet short and everything after it is lost'
EDITS=[('transport/1_transport_abridged.ts', 'bufferLength >>> 16', 'bufferLength >>> 24')]
DEMO='''
import { TransportAbridged } from "/repo/transport/1_transport_abridged.ts";

// deno-lint-ignore no-explicit-any
type Any = any;
const out: number[] = [];
const connection: Any = {
  isConnected: true,
  open: () => Promise.resolve(),
  close() {},
  read: () => new Promise(() => {}),
  write(p: Uint8Array) {
    for (const b of p) out.push(b);
    return Promise.resolve();
  },
};
const transport = new TransportAbridged(connection);
await transport.initialize();
for (const size of [4, 504, 508, 65536, 262140, 262144, 524292]) {
  out.length = 0;
  const packet = new Uint8Array(size).map((_, i) => (i * 7) & 255);
  await transport.send(packet as Any);
  let at = 0;
  if (out[0] === 0xef) at = 1;
  let length = out[at++];
  if (length >= 0x7f) {
    length = out[at] | out[at + 1] << 8 | out[at + 2] << 16;
    at += 3;
  }
  if (length * 4 !== size || out.length - at !== size || out[at + 3] !== packet[3]) {
    console.error(`a packet of ${size} bytes is announced as one of ${length * 4}`);
    Deno.exit(1);
  }
}
console.log("ok");
Deno.exit(0);
'''
