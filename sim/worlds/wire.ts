// World: every transport and connection class against an independent codec, with proxies in between.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import type { Conn, ServerSide } from "../core/net.ts";
import { captureLogs, makeNet, NET_RATES, NO_NET_FAULTS, swarm } from "./common.ts";
import { type Bytes, cat, Codec, eq, hex } from "../server/wire.ts";
import { FakeTlsSide, Socks5Side, type Socks5Plan, type TlsPlan } from "../server/proxy.ts";
import { ConnectionSocks5, ConnectionTCP } from "/repo/2_connection.ts";
import { ConnectionTCP as ConnectionTCPNode } from "/repo/connection/1_connection_tcp.node.ts";
import { ConnectionTLS as ConnectionTLSNode } from "/repo/connection/1_connection_tls.node.ts";
import { ConnectionSocks5 as ConnectionSocks5Node } from "/repo/connection/1_connection_socks5.node.ts";
import { getDcId, TransportAbridged, TransportIntermediate, transportProviderMtproxy, transportProviderSocks5, transportProviderTcp, transportProviderWebSocket } from "/repo/3_transport.ts";

// deno-lint-ignore-file no-explicit-any

const KINDS = ["tcp", "tcp-obf", "inter", "padded", "inter-obf", "padded-obf", "ws", "mtproxy", "mtproxy-dd", "mtproxy-tls", "socks5", "socks5-deno", "tcp-node", "tls-node"] as const;
type Kind = typeof KINDS[number];
const DC_IPS: Record<string, string> = { "1": "149.154.175.50", "2": "149.154.167.51", "3": "149.154.175.100", "4": "149.154.167.91", "5": "149.154.171.5", "1-test": "149.154.175.10", "2-test": "149.154.167.40", "3-test": "149.154.175.117" };

class Peer implements ServerSide {
  readonly codec: Codec;
  readonly got: Bytes[] = [];
  readonly queued: Bytes[] = [];
  readonly sent: Bytes[] = [];
  closed: string | null = null;
  raw: Uint8Array = new Uint8Array();
  constructor(readonly sim: Sim, readonly conn: Conn, secret: Uint8Array | null, mustObfuscate: boolean) {
    this.codec = new Codec(secret, mustObfuscate);
  }
  onData(bytes: Uint8Array) {
    if (this.raw.length < 64) this.raw = cat(this.raw, bytes).slice(0, 64);
    this.got.push(...this.codec.feed(bytes));
    this.flush();
  }
  onClose(reason: string) {
    this.closed = reason;
  }
  send(packet: Bytes) {
    this.queued.push(packet);
    this.flush();
  }
  flush() {
    if (!this.codec.framing || this.conn.serverClosed) return;
    const r = this.sim.rng("peer.pad");
    // several packets may share a write
    const out: Bytes[] = [];
    for (const p of this.queued.splice(0)) {
      this.sent.push(p);
      out.push(this.codec.frame(p, r.bytes(r.int(0, 15))));
      if (r.bool(0.6)) this.conn.send(cat(...out.splice(0)));
    }
    if (out.length) this.conn.send(cat(...out));
  }
}

interface Episode {
  n: number;
  peer: Peer | null;
  conn: Conn | null;
  sends: { packet: Bytes; state: "pending" | "ok" | "error" }[];
  got: Uint8Array[];
  receiving: boolean;
  ended: "" | "closed" | "broken";
  setup: "pending" | "ok" | "error";
  serverSays: { good: boolean; how: string } | null;
}

async function run(sim: Sim, focus: string, _tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const pool: readonly Kind[] = focus === "C10" ? ["mtproxy", "mtproxy-dd", "mtproxy-tls", "mtproxy-tls", "mtproxy-tls", "socks5", "socks5", "socks5-deno", "socks5-deno", "tls-node"] : KINDS;
  const kind = cfg.pick([...pool]);
  sim.probe("kind." + kind);
  const faulty = cfg.bool(0.6);
  const hostile = cfg.bool(0.5);
  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, { ...NET_RATES, reset: 0.02, fin: 0.02, stall: 0.02, partition: 0.002 }, 0.4) : { ...NO_NET_FAULTS, shortRead: cfg.pick([0, 0.3, 0.9]), partialWrite: cfg.pick([0, 0.3, 0.9]) });
  if (cfg.bool(0.2)) net.segmentation = 1;
  const skew = cfg.bool(0.2) ? cfg.int(-3600, 3600) * 1000 : 0;
  sim.skew = skew;
  const dc = cfg.pick(["1", "2", "2", "3", "4", "5", "1-test", "2-test", "3-test"]) as any;
  const isMedia = cfg.bool(0.3);
  const dcId = (parseInt(dc) + (dc.endsWith("-test") ? 10000 : 0)) * (isMedia ? -1 : 1);
  const secret = cfg.bytes(16);
  const domain = cfg.pick(["a.io", "www.google.com", "cloudflare.com", "s3.eu-central-1.amazonaws.com", "x".repeat(40) + ".example"]);
  const proxied = kind.startsWith("mtproxy") || kind.startsWith("socks5") || kind === "tls-node";
  const isTls = kind === "mtproxy-tls" || kind === "tls-node";
  const isSocks = kind.startsWith("socks5");
  const credentials = cfg.bool(0.6) ? { username: cfg.pick(["u", "user", "ü@:/%", "n".repeat(300)]), password: cfg.pick(["p", "päss:@/", "q".repeat(256)]) } : null;
  const bad = (kindOf: string, message: () => string) => {
    sim.violation("C09", kindOf, `${kind}: ${message()}`);
    if (proxied) sim.violation("C10", kindOf, `${kind}: ${message()}`);
  };
  const bad10 = (kindOf: string, message: () => string) => sim.violation("C10", kindOf, `${kind}: ${message()}`);

  // awkward random values: nonces that must not be used
  const awkward = sim.rng("awkward");
  const shape = cfg.bool(0.5) ? 0.3 : 0;
  sim.shapeRandom = (b) => {
    if (b.length === 56 && awkward.bool(shape)) {
      const w = awkward.pick([[0xEF], [0xEF], [0x48, 0x45, 0x41, 0x44], [0x50, 0x4F, 0x53, 0x54], [0x47, 0x45, 0x54, 0x20], [0x4F, 0x50, 0x54, 0x49], [0x16, 3, 1, 2], [0xDD, 0xDD, 0xDD, 0xDD], [0xEE, 0xEE, 0xEE, 0xEE], null]);
      if (w) b.set(w, 0);
      else b.fill(0, 4, 8);
      sim.probe("awkward-nonce");
    }
  };

  //// SERVERS ////
  let episode!: Episode;
  const accept = (conn: Conn): Peer => {
    const peer = new Peer(sim, conn, kind.startsWith("mtproxy") || kind === "tls-node" ? secret : null, kind === "ws" || kind.endsWith("-obf") || kind.startsWith("mtproxy") || kind === "tls-node");
    if (episode.peer) bad("two-connections", () => "one open() made two connections");
    episode.peer = peer;
    return peer;
  };
  const listener = (conn: Conn, dial: any): ServerSide => {
    const e = episode;
    e.conn = conn;
    const events = {
      problem: (k: string, m: string) => bad10(k, () => m),
      outcome: (good: boolean, how: string) => {
        e.serverSays = { good, how };
        sim.probe((good ? "setup.good " : "setup.bad ") + how.replace(/ at byte \d+/, ""));
      },
    };
    const r = sim.rng("proxy");
    const misbehave = hostile && sim.fault("proxy.misbehave", 0.5);
    if (isSocks) {
      const p: Socks5Plan = { method: r.bool(0.5) ? "none" : "password", auth: "ok", connect: "ok", addressType: r.pick([1, 1, 3, 4]), user: credentials, destination: { host: destination, port: 80 }, lazy: r.bool(0.4) };
      if (misbehave) {
        const at = r.int(0, 2);
        if (at === 0) p.method = r.pick(["refuse", "unoffered", "bad-version", "cut", "close", "garbage"]);
        else if (at === 1) p.method = "password", p.auth = r.pick(["refuse", "bad-version", "cut", "close"]);
        else p.connect = r.pick(["refuse", "bad-version", "bad-address-type", "cut", "close"]);
      }
      if (dial.hostname !== proxyHost || dial.port !== proxyPort) bad10("wrong-proxy", () => `dialed ${dial.hostname}:${dial.port}`);
      return new Socks5Side(conn, p, r, events, accept);
    }
    if (isTls) {
      const p: TlsPlan = { answer: "ok", secret, domain, clientTime: () => Math.floor(sim.wall() / 1000), recordSize: r.pick([1, 16, 100, 1400, 16384]), earlier, lazy: r.bool(0.4) };
      if (misbehave) p.answer = r.pick(["flip", "flip", "wrong-secret", "replay", "bad-prefix", "bad-second-prefix", "alert", "cut", "cut", "close", "echo", "garbage", "zero-random"]);
      if (dial.hostname !== proxyHost || dial.port !== proxyPort) bad10("wrong-proxy", () => `dialed ${dial.hostname}:${dial.port}`);
      return new FakeTlsSide(conn, p, r, events, accept);
    }
    return accept(conn);
  };
  const earlier: Uint8Array[] = [];
  let destination = DC_IPS[dc];
  const proxyHost = cfg.pick(["proxy.test", "192.0.2.7", "2001:db8::7"]);
  const proxyPort = cfg.pick([443, 1080, 8888]);
  net.listen(() => true, listener);

  //// CLIENT ////
  const secretOf = (): Uint8Array<ArrayBuffer> => kind === "mtproxy" ? secret : kind === "mtproxy-dd" ? cat(new Uint8Array([0xdd]), secret) : cat(new Uint8Array([0xee]), secret, new TextEncoder().encode(domain));
  const hex_ = (b: Uint8Array) => hex(b);
  const make = (): { connection: any; transport: any; dcId: number } => {
    const custom = (connection: any, transport: any) => ({ connection, transport, dcId: getDcId(dc, isMedia) });
    switch (kind) {
      case "tcp":
        return transportProviderTcp()({ dc, isMedia });
      case "tcp-obf":
        return transportProviderTcp({ obfuscated: true })({ dc, isMedia });
      case "ws":
        return transportProviderWebSocket({ wss: cfg.bool(0.5) })({ dc, isMedia });
      case "inter":
      case "padded":
      case "inter-obf":
      case "padded-obf": {
        const c = new ConnectionTCP(DC_IPS[dc], 80);
        return custom(c, new TransportIntermediate(c, { isPadded: kind.startsWith("padded"), isObfuscated: kind.endsWith("-obf"), ...(cfg.bool(0.5) ? { dcId } : {}) }));
      }
      case "tcp-node": {
        const c = new ConnectionTCPNode(DC_IPS[dc], 80);
        return custom(c, new TransportAbridged(c, false));
      }
      case "tls-node": {
        const c = new ConnectionTLSNode(proxyHost, proxyPort, secretOf());
        return custom(c, new TransportIntermediate(c, { isPadded: true, isObfuscated: true, secret: secretOf(), dcId }));
      }
      case "mtproxy":
      case "mtproxy-dd":
      case "mtproxy-tls":
        if (cfg.bool(0.5)) return transportProviderMtproxy(`https://t.me/proxy?server=${encodeURIComponent(proxyHost)}&port=${proxyPort}&secret=${hex_(secretOf())}`)({ dc, isMedia });
        return transportProviderMtproxy(proxyHost, proxyPort, secretOf())({ dc, isMedia });
      case "socks5": {
        const host = proxyHost.includes(":") ? "192.0.2.7" : proxyHost;
        if (host !== proxyHost) return transportProviderSocks5Fixed();
        const c = credentials;
        if (cfg.bool(0.5)) return transportProviderSocks5(`socks5://${c ? `${encodeURIComponent(c.username)}:${encodeURIComponent(c.password)}@` : ""}${host}:${proxyPort}`)({ dc, isMedia });
        return transportProviderSocks5(host, proxyPort, c ?? undefined)({ dc, isMedia });
      }
      case "socks5-deno": {
        if (cfg.bool(0.6)) destination = cfg.pick(["dc.example.test", "d\u00e7-\u4e2d.example", "\u00fc.example", "a".repeat(cfg.int(1, 60)) + ".example", "x".repeat(255), "2001:67c:4e8:f002::a", "::1", "2001:db8::", "2001:db8:0:1:1:1:1:1", "10.0.0.255"]);
        const c = new (cfg.bool(0.5) ? ConnectionSocks5 : ConnectionSocks5Node)(destination, 80, proxyHost, proxyPort, credentials ?? undefined);
        return custom(c, new TransportAbridged(c, false));
      }
    }
  };
  // through an IPv6 proxy the data centre's IPv6 address is used
  const IP6: Record<string, string> = { "1": "2001:b28:f23d:f001::a", "2": "2001:67c:4e8:f002::a", "3": "2001:b28:f23d:f003::a", "4": "2001:67c:4e8:f004::a", "5": "2001:b28:f23f:f005::a", "1-test": "2001:b28:f23d:f001::e", "2-test": "2001:67c:4e8:f002::e", "3-test": "2001:b28:f23d:f003::e" };
  const transportProviderSocks5Fixed = () => {
    destination = IP6[dc];
    return transportProviderSocks5(`[${proxyHost}]`, proxyPort, credentials ?? undefined)({ dc, isMedia });
  };
  const { connection, transport, dcId: providerDcId } = make();
  if (providerDcId !== dcId) bad("dc", () => `the provider's DC is ${providerDcId} instead of ${dcId}`);
  /** What was last said of the connection. */
  let saidOpen = false;
  connection.stateChangeHandler = (open: boolean) => {
    saidOpen = open;
    if (!open && connection.isConnected) bad("wrong-state", () => "the connection is said to have been lost although it is open");
  };

  //// WORKLOAD ////
  const w = sim.rng("workload");
  let serial = 0;
  const size = (): number => {
    const n = w.weighted<number>([[8, 2], [w.int(2, 40) * 4, 6], [126 * 4, 1], [127 * 4, 1], [128 * 4, 1], [w.int(700, 730) * 4, 2], [w.int(1, 5000) * 4, 3], [16384, 1], [w.int(16000, 20000) * 4, 1], [65535 * 4, 0.3], [65536 * 4, 0.3], [w.int(50000, 120000) * 4, 0.3]]);
    return n;
  };
  const packet = (): Bytes => {
    const b = w.bytes(size());
    new DataView(b.buffer).setUint32(0, ++serial, true);
    return b as Bytes;
  };
  const episodes: Episode[] = [];
  let receives = 0;
  const receiveLoop = async (e: Episode) => {
    e.receiving = true;
    receives++;
    try {
      while (true) {
        const p = await transport.receive();
        // it counts where it was asked for
        e.got.push(p.slice());
      }
    } catch {
      if (!e.ended) e.ended = "broken";
    } finally {
      e.receiving = false;
      receives--;
    }
  };
  const send = async (e: Episode, p: Bytes) => {
    const s: Episode["sends"][number] = { packet: p, state: "pending" };
    e.sends.push(s);
    try {
      await transport.send(p);
      s.state = "ok";
    } catch {
      s.state = "error";
      if (!e.ended) e.ended = "broken";
    }
  };

  const open = async (): Promise<Episode> => {
    const e: Episode = episode = { n: episodes.length, peer: null, conn: null, sends: [], got: [], receiving: false, ended: "", setup: "pending", serverSays: null };
    episodes.push(e);
    try {
      await connection.open();
      e.setup = "ok";
    } catch {
      e.setup = "error";
      if (connection.isConnected) bad("open-after-error", () => "open() failed but the connection counts as open");
    }
    if (e.setup === "ok") {
      // (it may be broken again already)
      if (e.serverSays && !e.serverSays.good) bad10("setup-accepted", () => `open() succeeded although the proxy's part went wrong: ${e.serverSays!.how}`);
      if (proxied && (isSocks || isTls) && !e.serverSays) bad10("setup-skipped", () => "open() succeeded before the proxy had answered");
      try {
        await transport.initialize();
      } catch {
        e.ended = "broken";
      }
    } else {
      e.ended = "broken";
      const conn = e.conn as Conn | null;
      if (conn) {
        await sim.sleep(1000);
        if (!conn.clientClosed && !conn.serverClosed && !conn.harmed) bad10("socket-left-open", () => `open() failed (${e.serverSays?.how}) but the socket is still open`);
        else if (!conn.clientClosed && e.serverSays) bad10("socket-not-closed", () => `open() failed (${e.serverSays?.how}) but the socket was not closed`);
        if (e.serverSays?.good && !conn.harmed && !conn.serverClosed) bad10("good-setup-failed", () => "open() failed although the proxy's part went well and the connection was fine");
      }
    }
    return e;
  };
  const close = (e: Episode) => {
    e.ended ||= "closed";
    try {
      connection.close();
    } catch {
      // not open
    }
    if (connection.isConnected) bad("open-after-close", () => "the connection counts as open after close()");
  };

  const verify = (e: Episode) => {
    const peer = e.peer;
    if (!peer) return;
    const conn = peer.conn;
    if (peer.codec.error) bad("framing", () => `episode ${e.n}: the peer cannot follow the stream: ${peer.codec.error}`);
    if (peer.codec.framing) {
      const want = kind.startsWith("tcp") || kind === "ws" || isSocks ? "abridged" : kind.startsWith("inter") ? "intermediate" : "padded";
      if (peer.codec.framing !== want && !(kind === "ws")) bad("framing-kind", () => `the transport is ${peer.codec.framing} instead of ${want}`);
      if (peer.codec.obfuscated) {
        const b = peer.raw;
        const first = b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24), second = b[4] | b[5] | b[6] | b[7];
        if (b[0] === 0xEF || [0x44414548, 0x54534F50, 0x20544547, 0x4954504F, 0x02010316, 0xDDDDDDDD, 0xEEEEEEEE].includes(first >>> 0) || second === 0) bad("forbidden-nonce", () => `the obfuscation header starts with ${hex(b.slice(0, 8))}`);
        if ((kind.startsWith("mtproxy") || kind === "tls-node") && peer.codec.dcId !== dcId) bad("proxy-dc", () => `the proxy is asked for DC ${peer.codec.dcId} instead of ${dcId}`);
      }
    }
    // what arrived is a prefix of what was sent
    const padded = peer.codec.framing === "padded";
    const same = (want: Uint8Array, have: Uint8Array) => padded ? have.length >= want.length && have.length <= want.length + 15 && eq(have.subarray(0, want.length), want) : eq(want, have);
    for (const [i, p] of peer.got.entries()) {
      const s = e.sends[i];
      if (!s) bad("foreign-packet", () => `episode ${e.n}: packet ${i} (${p.length} bytes) was never sent on this connection`);
      else if (!same(s.packet, p)) bad("packet-altered", () => `episode ${e.n}: packet ${i} to the peer: ${s.packet.length} bytes were sent, ${p.length} arrived${s.packet.length <= p.length ? ", with other content" : ""}`);
      else continue;
      break;
    }
    for (const [i, p] of e.got.entries()) {
      const s = peer.sent[i];
      if (!s) bad("foreign-received", () => `episode ${e.n}: received packet ${i} (${p.length} bytes), which the peer never sent on this connection`);
      else if (!same(s, p)) bad("received-altered", () => `episode ${e.n}: packet ${i} from the peer has ${s.length} bytes, ${p.length} were received${p.length >= s.length ? ", with other content" : ""}`);
      else continue;
      break;
    }
    void conn;
  };

  const driver = async () => {
    const count = w.int(2, 8);
    for (let i = 0; i < count; i++) {
      if (!sim.op()) continue;
      const e = await open();
      if (!e.peer) {
        // the proxy is not serving it
        if (!e.ended && !e.serverSays) bad("setup-skipped", () => "open() succeeded before anybody had answered");
        e.ended = "broken";
      }
      if (e.ended) {
        if (connection.isConnected) close(e);
        await sim.sleep(w.pick([0, 1, 50, 3000]));
        continue;
      }
      void receiveLoop(e);
      const ops = w.int(1, 12);
      for (let k = 0; k < ops && !e.ended; k++) {
        if (!sim.op()) continue;
        switch (w.weighted<string>([["send", 5], ["burst", 2], ["push", 5], ["push-burst", 2], ["pause", 3], ["server-break", hostile ? 1 : 0.2]])) {
          case "send":
            await send(e, packet());
            break;
          case "burst":
            for (let n = w.int(2, 5); n > 0; n--) void send(e, packet());
            if (w.bool(0.4)) await sim.sleep(w.pick([0, 1, 100]));
            break;
          case "push":
            e.peer?.send(packet());
            break;
          case "push-burst":
            for (let n = w.int(2, 8); n > 0; n--) e.peer?.send(packet());
            break;
          case "pause":
            await sim.sleep(w.pick([0.1, 1, 10, 500]));
            break;
          case "server-break":
            if (e.peer && sim.fault("peer.break", 1)) {
              e.peer.conn.harmed = true;
              if (isTls && w.bool(0.4)) {
                // a record that is none
                e.peer.conn.sendRaw(w.pick([[0x15, 3, 3, 0, 2, 2, 40], [0x17, 3, 1, 0, 4, 1, 2, 3, 4], [0x16, 3, 3, 0, 40], [0x48, 0x54, 0x54, 0x50, 0x2f]].map((v) => new Uint8Array(v))));
                for (let t = 0; t < 600 && e.receiving; t++) await sim.sleep(200);
                if (e.receiving) bad("malformed-record-unnoticed", () => `episode ${e.n}: two minutes after a malformed record the stream is still being read`);
                else if (connection.isConnected) bad("malformed-record-open", () => `episode ${e.n}: after a malformed record the connection still counts as open`);
                break;
              }
              if (w.bool(0.5)) {
                // in the middle of a packet
                const f = e.peer.codec.framing ? e.peer.codec.frame(packet()) : new Uint8Array();
                e.peer.conn.send(f.subarray(0, w.int(0, Math.max(0, f.length - 1))));
              }
              e.peer.conn.serverEnd(w.bool(0.6) ? "fin" : "reset");
              if (w.bool(0.5)) await sim.sleep(w.pick([1, 100, 2000]));
            }
            break;
        }
      }
      if (!e.ended && w.bool(0.75)) {
        // let everything arrive
        const conn = e.conn!, peer = e.peer!;
        // three minutes without a byte moving in either direction is as long as anything is delayed
        for (let t = 0, moved = -1; t < 900 && !e.ended && !conn.harmed; t++) {
          const now = conn.bytesToServer + conn.bytesToClient + conn.bytesRead + conn.bytesWritten;
          if (now !== moved) t = 0, moved = now;
          if (e.sends.every((s) => s.state !== "pending") && peer.got.length >= e.sends.length && peer.queued.length === 0 && e.got.length >= peer.sent.length) break;
          await sim.sleep(200);
        }
        if (!conn.harmed && conn.alive && !e.ended) {
          sim.probe("complete");
          if (peer.got.length < e.sends.length) bad("packet-lost", () => `episode ${e.n}: ${peer.got.length} of ${e.sends.length} packets arrived at the peer on an unharmed connection (${e.sends.filter((s) => s.state === "ok").length} sends succeeded)`);
          if (e.got.length < peer.sent.length) bad("received-lost", () => `episode ${e.n}: ${e.got.length} of ${peer.sent.length} packets of the peer were received on an unharmed connection`);
        } else if (e.ended && !conn.harmed && !conn.serverClosed) bad("gave-up", () => `episode ${e.n}: the client gave up an unharmed connection`);
      }
      // the end of the connection: ours, or waiting for the peer's to show
      if (e.ended !== "broken") {
        if (e.conn!.serverClosed && w.bool(0.5)) {
          for (let t = 0; t < 600 && e.receiving; t++) await sim.sleep(200);
          if (e.receiving) bad("break-unnoticed", () => `episode ${e.n}: two minutes after the peer ended the connection a read of it is still pending`);
        }
        close(e);
      } else if (connection.isConnected) close(e);
      else {
        // (a socket whose peer is done stays until what is being written has gone out, however slowly)
        await sim.sleep(1000);
        for (let t = 0; t < 900 && (saidOpen || kind !== "ws" && !e.conn!.clientClosed); t++) await sim.sleep(200);
        if (saidOpen) bad("loss-not-said", () => `episode ${e.n}: operations failed because the connection was lost, but this was not said`);
        if (kind !== "ws" && !e.conn!.clientClosed) bad("socket-leaked", () => `episode ${e.n}: the connection was lost, and its socket has not been closed`);
      }
      await sim.sleep(w.pick([0, 0, 0.01, 1, 30, 3000]));
    }
    await sim.sleep(5000);
    for (const e of episodes) if (e.receiving) bad("read-hangs", () => `a read of episode ${e.n} (${e.ended}) is still pending after the connection was closed`);
    for (const e of episodes) verify(e);
    for (const e of episodes) for (const s of e.sends) if (s.state === "pending") bad("write-hangs", () => `a write of episode ${e.n} is still pending after the connection was closed`);
    for (const c of net.conns) if (!c.clientClosed && (!c.serverClosed || !c.harmed)) bad("socket-leaked", () => `connection ${c.id} was never closed by the client`);
  };
  try {
    await sim.until(driver(), 24 * 3600 * 1000);
    await sim.runFor(1000);
  } catch (err) {
    if (!/did not settle/.test(String(err))) throw err;
    bad("hang", () => "an operation never settles (open or write)");
  } finally {
    info.kind = kind;
  }
}

export default {
  unhandled: "C09",
  stuck: "C09",
  components: {
    real: ["transport/* (abridged, intermediate, obfuscation, providers)", "connection/* (TCP, TLS, SOCKS5 for Deno and node; WebSocket; byte queue)", "utilities/1_crypto.ts CTR"],
    stub: ["TCP, node sockets and WebSocket (sim/core/net.ts, socket.ts)", "peers and proxies (sim/server/wire.ts, proxy.ts)", "clock, timers, randomness, WebCrypto completion"],
  },
  run,
} as World;
