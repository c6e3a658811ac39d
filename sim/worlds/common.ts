// Shared pieces of the worlds: swarm configuration, transports, log capture.
import type { Sim } from "../core/sim.ts";
import { type Conn, NO_NET_FAULTS, type NetFaults, type ServerSide, setNet, SimNet } from "../core/net.ts";
import { MtServer, type MtFaults, type MtOptions, NO_MT_FAULTS, type RpcHandler } from "../server/mt.ts";
import { FakeTlsSide, Socks5Side } from "../server/proxy.ts";
import { cat } from "../server/wire.ts";
import { FINGERPRINT, RSA } from "../server/keys.ts";
import { transportProviderMtproxy, transportProviderSocks5, transportProviderTcp, transportProviderWebSocket } from "/repo/3_transport.ts";
import { TransportAbridged, TransportIntermediate, getDcId } from "/repo/3_transport.ts";
import { ConnectionTCP } from "/repo/2_connection.ts";
import { setLoggingProvider, setLogVerbosity } from "/repo/1_utilities.ts";

// deno-lint-ignore-file no-explicit-any

export const publicKeys: any = [[FINGERPRINT, [RSA.n, RSA.e]]];

export function captureLogs(sim: Sim) {
  if (!sim.options.verbose) {
    setLogVerbosity(0);
    return;
  }
  const show = (v: any): string => {
    if (v instanceof Error) return v.stack ?? String(v);
    if (typeof v === "object" && v !== null) {
      try {
        return Deno.inspect(v, { depth: 4, compact: true, breakLength: 400, strAbbreviateSize: 60, iterableLimit: 8 });
      } catch {
        return "?";
      }
    }
    return String(v);
  };
  const put = (...args: any[]) => sim.note("    " + String(args[0]).replace(/^\[\S+ \S+ /, "[") + " " + args.slice(1).map(show).join(" ").slice(0, 600));
  setLoggingProvider({ error: put, warn: put, info: put, debug: put, log: () => {} });
  setLogVerbosity(4);
}

/** Picks a random subset of the fault kinds given, each at its rate (swarm testing). */
export function swarm<T extends Record<string, number>>(sim: Sim, site: string, base: T, rates: Partial<T>, p = 0.4): T {
  const r = sim.rng("swarm:" + site);
  const out: any = { ...base };
  for (const k of Object.keys(rates).sort()) {
    const on = r.bool(p);
    const scale = r.pick([0.3, 1, 1, 3]);
    if (on) out[k] = Math.min(0.9, (rates as any)[k] * scale);
  }
  return out;
}

export const NET_RATES: Partial<NetFaults> = { refuse: 0.1, connectTimeout: 0.03, reset: 0.012, fin: 0.01, stall: 0.02, partition: 0.004, shortRead: 0.5, partialWrite: 0.4, backpressure: 0.1 };
export const MT_RATES: Partial<MtFaults> = { killBeforeReply: 0.02, slowReply: 0.1, rotateSalt: 0.06, resend: 0.08, detailedInfo: 0.06, badMsg: 0.015, hangUp: 0.01, rpcInternal: 0.02 };

export const HARMLESS_NET: NetFaults = { ...NO_NET_FAULTS, shortRead: 0.3, partialWrite: 0.2 };

export function makeNet(sim: Sim, faults: NetFaults): SimNet {
  const net = new SimNet(sim, faults);
  const r = sim.rng("cfg.net");
  net.maxLatency = r.pick([5, 40, 120, 120, 400]);
  net.jitter = r.pick([0, 5, 30, 200]);
  net.segmentation = r.pick([0, 0.3, 0.8]);
  setNet(net);
  return net;
}

export interface WorldTransport {
  provider: any;
  options: Partial<MtOptions>;
  proxied: boolean;
  /** The proxy in front of the server. */
  front: (conn: Conn, make: (conn: Conn) => ServerSide) => ServerSide;
}
export type TransportKind = "mtproxy-tls" | "socks5" | "tcp" | "tcp-obf" | "ws" | "inter" | "padded" | "mtproxy" | "mtproxy-dd";

export function makeTransport(kind: TransportKind, secret: Uint8Array<ArrayBuffer>, sim?: Sim): WorldTransport {
  const front: WorldTransport["front"] = (conn, make) => make(conn);
  const silent = { problem() {}, outcome() {} };
  switch (kind) {
    case "tcp":
      return { provider: transportProviderTcp(), options: {}, proxied: false, front };
    case "tcp-obf":
      return { provider: transportProviderTcp({ obfuscated: true }), options: { mustObfuscate: true }, proxied: false, front };
    case "ws":
      return { provider: transportProviderWebSocket({ wss: true }), options: { mustObfuscate: true }, proxied: false, front };
    case "mtproxy-tls": {
      const domain = "www.example.com";
      const s = cat(new Uint8Array([0xee]), secret, new TextEncoder().encode(domain));
      return {
        provider: transportProviderMtproxy("proxy.test", 443, s),
        options: { secret, mustObfuscate: true },
        proxied: true,
        front: (conn, make) => new FakeTlsSide(conn, { answer: "ok", secret, domain, clientTime: () => Math.floor(sim!.wall() / 1000), recordSize: 1400, earlier: [], lazy: false }, sim!.rng("proxy"), silent, make),
      };
    }
    case "socks5":
      return {
        provider: transportProviderSocks5("proxy.test", 443, { username: "user", password: "pass" }),
        options: {},
        proxied: true,
        front: (conn, make) => new Socks5Side(conn, { method: sim!.rng("proxy").pick(["none", "password"]), auth: "ok", connect: "ok", addressType: 1, user: { username: "user", password: "pass" }, destination: { host: "149.154.167.51", port: 80 }, lazy: false }, sim!.rng("proxy"), silent, make),
      };
    case "inter":
    case "padded": {
      const provider = ({ dc, isMedia }: any) => {
        const connection = new ConnectionTCP("149.154.167.51", 80);
        return { connection, transport: new TransportIntermediate(connection, { isPadded: kind === "padded" }), dcId: getDcId(dc, isMedia) };
      };
      return { provider, options: {}, proxied: false, front };
    }
    case "mtproxy":
      return { provider: transportProviderMtproxy("proxy.test", 443, secret), options: { secret, mustObfuscate: true }, proxied: true, front };
    case "mtproxy-dd": {
      const s = new Uint8Array(17);
      s[0] = 0xdd;
      s.set(secret, 1);
      return { provider: transportProviderMtproxy("proxy.test", 443, s), options: { secret, mustObfuscate: true }, proxied: true, front };
    }
  }
}
void TransportAbridged;

export { HARMLESS_NET as harmlessNet, MtServer, NO_MT_FAULTS, NO_NET_FAULTS };
export type { RpcHandler };
