// World: clients without a key, connecting through handshakes that are delayed, cut off, altered, repeated or swapped.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import { Rng } from "../core/rng.ts";
import { captureLogs, makeNet, makeTransport, MtServer, NET_RATES, NO_MT_FAULTS, NO_NET_FAULTS, publicKeys, swarm, type TransportKind } from "./common.ts";
import { type Bytes, fromBig, modpow, toBig } from "../server/wire.ts";
import { type AuthKey, type MtConn, ok, type RpcContext } from "../server/mt.ts";
import { DH_PRIME } from "../server/keys.ts";
import { ClientEncrypted } from "/repo/client/2_client_encrypted.ts";

// deno-lint-ignore-file no-explicit-any

function isPrime(n: bigint): boolean {
  for (const p of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n]) {
    if (n === p) return true;
    if (n % p === 0n) return false;
  }
  let d = n - 1n, s = 0;
  while (!(d & 1n)) d >>= 1n, s++;
  outer: for (const a of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n]) {
    let x = modpow(a, d, n);
    if (x === 1n || x === n - 1n) continue;
    for (let i = 1; i < s; i++) {
      x = x * x % n;
      if (x === n - 1n) continue outer;
    }
    return false;
  }
  return true;
}
function prime(r: Rng, bits: number): bigint {
  while (true) {
    const n = (BigInt(r.u32()) & ((1n << BigInt(bits)) - 1n)) | (1n << BigInt(bits - 1)) | 1n;
    if (isPrime(n)) return n;
  }
}

/** Exponents whose power of 3 starts with zero bytes. */
let smallGa: bigint[] | null = null;
function awkwardExponents(): bigint[] {
  if (smallGa) return smallGa;
  smallGa = [];
  // walking: g^(a+1) from g^a
  const r = new Rng("awkward");
  let a = toBig(r.bytes(64)) + 2n;
  let ga = modpow(3n, a, DH_PRIME);
  const limit = 1n << 2040n;
  for (let i = 0; i < 4000 && smallGa.length < 6; i++) {
    if (ga < limit) smallGa.push(a);
    a++;
    ga = ga * 3n % DH_PRIME;
  }
  return smallGa;
}

interface Attempt {
  client: ClientEncrypted;
  name: string;
  state: "pending" | "ok" | "error";
  error?: any;
  t0: number;
  t1: number;
}

async function run(sim: Sim, _focus: string, _tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const secret = cfg.bytes(16);
  const kind = cfg.weighted<TransportKind>([["tcp", 4], ["tcp-obf", 2], ["ws", 3], ["inter", 1], ["padded", 1], ["mtproxy", 1], ["mtproxy-tls", 0.5], ["socks5", 0.5]]);
  const faulty = cfg.bool(0.6);
  const hostile = cfg.bool(0.6);
  const dc = kind === "tcp" || kind === "tcp-obf" || kind === "ws" ? cfg.pick(["1", "2", "2", "3", "4", "5", "1-test", "2-test", "3-test"]) : "2";
  const isMedia = cfg.bool(0.25);
  const pfs = cfg.bool(0.3);
  const tr = makeTransport(kind, secret, sim);
  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, { ...NET_RATES, reset: 0.03, fin: 0.02 }, 0.35) : { ...NO_NET_FAULTS, shortRead: cfg.pick([0, 0.3]), partialWrite: cfg.pick([0, 0.3]) });
  const want = (parseInt(dc) + (dc.endsWith("-test") ? 10000 : 0)) * (isMedia ? -1 : 1);

  //// altered answers ////
  const r = sim.rng("attack");
  const rate = hostile ? cfg.pick([0.1, 0.3, 0.3, 0.8]) : 0;
  const kinds = ["flip", "flip", "flip-nonce", "flip-server-nonce", "flip-tail", "swap", "old", "truncate", "retry", "fail", "drop", "repeat", "garbage"].filter(() => r.bool(0.5));
  const earlier: Record<string, Bytes[]> = {};
  let altered = 0;
  const tamperPlain = (name: string, body: Bytes, conn: MtConn): Bytes[] => {
    const old = earlier[name] ??= [];
    old.push(body);
    if (!sim.faultsEnabled || !kinds.length || !sim.fault("hs.tamper", rate)) return [body];
    const how = r.pick(kinds);
    sim.probe(`tamper.${how}`);
    altered++;
    const b = body.slice();
    switch (how) {
      case "flip":
        b[r.int(4, b.length - 1)] ^= 1 << r.int(0, 7);
        return [b];
      case "flip-nonce":
        b[r.int(4, 19)] ^= 1 << r.int(0, 7);
        return [b];
      case "flip-server-nonce":
        b[r.int(20, 35)] ^= 1 << r.int(0, 7);
        return [b];
      case "flip-tail":
        b[b.length - 1 - r.int(0, Math.min(63, b.length - 40))] ^= 1 << r.int(0, 7);
        return [b];
      case "swap": {
        const n = r.pick(Object.keys(earlier).sort());
        return [earlier[n][r.int(0, earlier[n].length - 1)]];
      }
      case "old":
        return [old[r.int(0, old.length - 1)]];
      case "truncate":
        return [b.slice(0, 4 * r.int(1, (b.length >> 2) - 1)) as Bytes];
      case "retry":
      case "fail": {
        // dh_gen_retry, dh_gen_fail or server_DH_params_fail with the right nonces
        const out = name === "dh_gen_ok" ? b : b.slice(0, 52) as Bytes;
        if (out.length < 52) return [b];
        new DataView(out.buffer, out.byteOffset).setUint32(0, name === "dh_gen_ok" ? (how === "retry" ? 0x46dc1fb9 : 0xa69dae02) : 0x79cb045d, true);
        return [out];
      }
      case "drop":
        sim.after(r.range(100, 30000), "srv.idle", () => conn.hangUp());
        return [];
      case "repeat":
        return [b, b];
      default:
        return [r.bytes(4 * r.int(1, 40)) as Bytes];
    }
  };

  const awkward = cfg.bool(0.4);
  const pqr = sim.rng("srv.pq");
  const keysBy: AuthKey[] = [];
  const server = new MtServer(sim, net, {
    ...tr.options,
    properties: { framing: "C09", protocol: "C07", acks: "C05", authkey: "C07" },
    tamperPlain,
    handshakeDc: () => want,
    dhA: awkward ? () => pqr.bool(0.6) ? pqr.pick(awkwardExponents()) : toBig(pqr.bytes(pqr.pick([64, 255]))) + 2n : undefined,
    pq: () => {
      const bits = pqr.pick([31, 31, 31, 30, 24, 16]);
      const p = prime(pqr, bits);
      let q = prime(pqr, pqr.pick([31, 31, bits]));
      while (q === p) q = prime(pqr, 31);
      return p * q;
    },
    onAuthKey: (k) => {
      keysBy.push(k);
      sim.probe(fromBig(toBig(k.key), 256)[0] === 0 ? "key.leading-zero" : "key");
    },
  }, { ...NO_MT_FAULTS }, (ctx: RpcContext) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as any));
  if (tr.proxied) net.listen((d) => d.hostname === "proxy.test" && d.port === 443, (c) => tr.front(c, (v) => server.accept(v, "2", false)));
  server.listenDirect();
  // a connection on which nothing happens is closed, as real servers do
  server.onConn = (c) => {
    const watch = (n: number) => {
      sim.after(75000, "srv.idle", () => {
        if (c.closed) return;
        if (c.packetsIn === n) c.hangUp();
        else watch(c.packetsIn);
      });
    };
    watch(0);
  };
  if (awkward) {
    const a = sim.rng("cfg.random");
    sim.shapeRandom = (bytes) => {
      if (bytes.length < 16 || !a.bool(0.3)) return;
      const v = a.pick([0, 0, 0xff, 0x80]);
      const n = a.int(1, 2);
      if (a.bool()) bytes.fill(v, 0, n);
      else bytes.fill(v, bytes.length - n);
    };
  }

  //// the clients ////
  const params = { transportProvider: tr.provider, publicKeys, isMedia, isPerfectForwardSecrecyEnabled: pfs, appVersion: "1", deviceModel: "sim", systemVersion: "1", langCode: "en", systemLangCode: "en", langPack: "" };
  const attempts: Attempt[] = [];
  const agree = (a: Attempt, when: string) => {
    const c = a.client;
    const perm = [...server.keys.values()].find((k) => !k.temp && k.key.length === c.authKey.length && k.key.every((v, i) => v === c.authKey[i]));
    if (!sim.check(perm !== undefined, "C07", "key-not-shared", () => `${a.name} ${when}: connect() reported success but the server does not have its key (${c.authKey.length} bytes)`)) return;
    sim.check(perm!.dc === dc, "C07", "wrong-dc", () => `${a.name}: the key belongs to DC ${perm!.dc}`);
    sim.check(c.authKey.length === 256, "C07", "key-length", () => `${a.name}: the key has ${c.authKey.length} bytes`);
    const used = pfs ? [...server.keys.values()].find((k) => k.temp && k.id === c.session.authKeyId) : perm;
    if (!sim.check(used !== undefined, "C07", "temp-key-not-shared", () => `${a.name} ${when}: connect() reported success but the server does not have its temporary key`)) return;
    sim.check(!pfs || used!.perm === perm, "C07", "not-bound", () => `${a.name} ${when}: connect() reported success but the temporary key is not bound`);
    sim.check(BigInt.asIntN(64, c.serverSalt) === used!.salt, "C07", "salt", () => `${a.name} ${when}: the first salt is ${c.serverSalt} for the client and ${used!.salt} for the server`);
  };
  function connect(client: ClientEncrypted, name: string): Attempt {
    const a: Attempt = { client, name, state: "pending", t0: sim.now, t1: -1 };
    attempts.push(a);
    sim.note(`${name}: connect()`);
    client.connect().then(() => {
      a.state = "ok";
      a.t1 = sim.now;
      sim.note(`${name}: connected`);
      agree(a, "right after connecting");
    }, (err) => {
      a.state = "error";
      a.t1 = sim.now;
      a.error = err;
      sim.note(`${name}: connect() failed: ${String(err?.message).slice(0, 160)}`);
    });
    return a;
  }

  const n = cfg.pick([1, 1, 2, 3]);
  const clients = Array.from({ length: n }, () => new ClientEncrypted(dc as any, 4242, params as any));
  let active = n;
  clients.forEach((client, i) => {
    (async () => {
      const w = new Rng(`client${i}/${cfg.u32()}`);
      await sim.sleep(w.range(0, 3000), "user.start");
      for (let k = 0; k < 4; k++) {
        const a = connect(client, `client ${i} attempt ${k}`);
        sim.op();
        if (w.bool(0.1)) connect(client, `client ${i} attempt ${k} (again)`);
        if (faulty && w.bool(0.15) && sim.fault("op.disconnect", 1)) {
          await sim.sleep(w.range(0, 600), "user.abort");
          sim.note(`client ${i}: disconnect()`);
          client.disconnect();
          await sim.sleep(2000, "user.settle");
          sim.check(a.state !== "pending", "C07", "pending-after-disconnect", () => `${a.name}: connect() is still pending 2 s after disconnect()`);
        }
        while (a.state === "pending") await sim.sleep(500, "user.poll");
        if (a.state === "ok" && client.isConnected) break;
        await sim.sleep(w.range(0, 4000), "user.retry");
      }
      active--;
    })();
  });
  // ten tries, each of which may wait for the server to close an idle connection a few times
  await sim.run(() => active === 0, 4 * 10 * 4 * 80000);
  for (const a of attempts) {
    if (a.state === "pending") sim.violation("C07", "hang", `${a.name}: connect() is pending for ${((sim.now - a.t0) / 1000).toFixed(0)} s`);
    else sim.probe("connect." + a.state);
  }

  //// heal ////
  sim.faultsEnabled = false;
  net.faults = { ...NO_NET_FAULTS, shortRead: net.faults.shortRead, partialWrite: net.faults.partialWrite };
  net.partitionedUntil = 0;
  sim.note("---- healed ----");
  await sim.run(() => false, sim.now + 40000);
  for (let i = 0; i < clients.length; i++) {
    const client = clients[i];
    const a = connect(client, `client ${i} healed`);
    const limit = sim.now + 60000;
    await sim.run(() => a.state !== "pending", limit);
    if (!sim.check(a.state === "ok", "C07", "no-key-when-healthy", () => `${a.name}: on a healthy network connect() ${a.state === "pending" ? "takes more than a minute" : "fails: " + a.error?.stack}`)) continue;
    let state = "pending", value: any, error: any;
    client.invoke({ _: "help.getDeepLinkInfo", path: "hello" } as any).then((v) => (state = "ok", value = v), (e) => (state = "error", error = e));
    await sim.run(() => state !== "pending", sim.now + 30000);
    sim.check(state === "ok" && value.message === "hello", "C07", "key-unusable", () => `${a.name}: a call under the new key is ${state}: ${error?.message}`);
  }
  for (const c of clients) c.disconnect();
  await sim.run(() => false, sim.now + 5000);
  for (const [k, v] of Object.entries(server.stats)) if (v) sim.probes["srv." + k] = v;
  info.keys = keysBy.length;
  info.altered = altered;
  sim.probe("transport." + kind);
}

const world: World = {
  unhandled: "C07",
  stuck: "C07",
  run,
  components: {
    real: ["client/1_client_plain.ts", "client/2_client_encrypted.ts", "session/*", "transport/*", "connection/*", "tl/*", "utilities/* (factorisation, RSA padding, modular exponentiation)"],
    stub: ["Telegram data centre (sim/server)", "TCP and WebSocket", "clock, timers, randomness, WebCrypto completion"],
  },
};
export default world;
