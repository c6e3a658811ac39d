// World: one ClientEncrypted, one data centre, concurrent calls, any trouble in between.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import { cyrb128, Rng } from "../core/rng.ts";
import { captureLogs, makeNet, makeTransport, MT_RATES, MtServer, NET_RATES, NO_MT_FAULTS, NO_NET_FAULTS, publicKeys, swarm, type TransportKind } from "./common.ts";
import { W, sha1 } from "../server/wire.ts";
import { boolFalse, boolTrue, type MtSession, ok, parseCall, type RpcContext, type RpcReply } from "../server/mt.ts";
import { ClientEncrypted } from "/repo/client/2_client_encrypted.ts";
import { Api } from "/repo/2_tl.ts";
import { ConnectionError, TelegramError } from "/repo/4_errors.ts";

// deno-lint-ignore-file no-explicit-any

const POISON = "POISON";

interface Call {
  token: string;
  kind: string;
  t0: number;
  connected0: boolean;
  t1: number;
  outcome: "pending" | "ok" | "error" | "lost";
  error?: any;
  phase: string;
}

/** What the server answers to a call; a pure function of the call. */
function answer(fn: any): { reply: RpcReply; expect: (v: any) => boolean; token: string } {
  switch (fn._) {
    case "help.getDeepLinkInfo": {
      const token = fn.path.slice(0, 12);
      const m = /^.{12}E(\d+):([A-Z_0-9]+):/.exec(fn.path);
      if (m) return { token, reply: { error: [Number(m[1]), m[2]] }, expect: () => false };
      const size = parseInt(fn.path.slice(12, 20), 36);
      const message = token + new Rng(token).bytes(Math.ceil(size / 2)).reduce((s: string, b: number) => s + b.toString(16).padStart(2, "0"), "");
      return { token, reply: ok({ _: "help.deepLinkInfo", message }), expect: (v) => v?._ === "help.deepLinkInfo" && v.message === message && v.update_app === undefined && v.entities === undefined };
    }
    case "account.checkUsername": {
      const yes = (cyrb128(fn.username)[0] & 1) === 1;
      return { token: fn.username.slice(0, 12), reply: { result: yes ? boolTrue() : boolFalse() }, expect: (v) => v === yes };
    }
    case "photos.deletePhotos": {
      const ids = fn.id.map((v: any) => v.id as bigint);
      const token = "p" + String(ids[0]);
      const out = ids.map((v: bigint) => BigInt.asIntN(64, v * 3n + 1n));
      return { token, reply: { result: new W().longs(out).done() }, expect: (v) => Array.isArray(v) && v.length === out.length && v.every((x: any, i: number) => x === out[i]) };
    }
    case "upload.getFile": {
      const token = "f" + String(fn.location.id);
      const bytes = new Rng(token).bytes(fn.limit);
      return { token, reply: ok({ _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 1, bytes }), expect: (v) => v?._ === "upload.file" && v.bytes.length === bytes.length && v.bytes.every((x: number, i: number) => x === bytes[i]) };
    }
  }
  throw new Error("unexpected call " + fn._);
}

const PLANNED_ERRORS = ["400:PEER_ID_INVALID", "420:FLOOD_WAIT_7", "403:CHAT_WRITE_FORBIDDEN", "303:FILE_MIGRATE_4", "500:RPC_CALL_FAIL", "400:SOMETHING_NOT_KNOWN_2", "401:AUTH_KEY_UNREGISTERED"];

async function run(sim: Sim, focus: string, tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const secret = cfg.bytes(16);
  const kind = cfg.weighted<TransportKind>([["tcp", 4], ["tcp-obf", 2], ["ws", 2], ["inter", 1], ["padded", 1], ["mtproxy", 1], ["mtproxy-dd", 1], ["mtproxy-tls", 1], ["socks5", 1]]);
  const pfs = cfg.bool(focus === "C08" ? 1 : 0.15);
  const disableUpdates = cfg.bool(0.2);
  const handshake = cfg.bool(0.06);
  const faulty = cfg.bool(0.8);
  const clocky = cfg.bool(focus === "C04" ? 0.5 : 0.2);

  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, NET_RATES, 0.3) : { ...NO_NET_FAULTS });
  if (!faulty) {
    net.faults.shortRead = cfg.pick([0, 0.3]);
    net.faults.partialWrite = cfg.pick([0, 0.3]);
  }
  const tr = makeTransport(kind, secret, sim);
  const mtFaults = faulty ? swarm(sim, "mt", NO_MT_FAULTS, MT_RATES, 0.35) : { ...NO_MT_FAULTS };
  if (focus === "C06" ? cfg.bool(0.9) : cfg.bool(0.12)) mtFaults.forge = cfg.pick([0.05, 0.15, 0.4]);
  if (focus === "C02" && cfg.bool(0.5)) mtFaults.rotateSalt = 0.1;
  if (focus === "C05" && cfg.bool(0.5)) mtFaults.rotateSalt = Math.max(mtFaults.rotateSalt, 0.15);

  let badPackets = 0;
  const server = new MtServer(sim, net, {
    ...tr.options,
    properties: { framing: "C09", protocol: "C04", acks: "C05", authkey: "C08" },
    checkDcId: (id) => {
      if (id !== 2 && tr.proxied) sim.violation("C10", "dc-id", `the proxy was asked for DC ${id}`);
    },
  }, mtFaults, handler);
  if (tr.proxied) net.listen((d) => d.hostname === "proxy.test" && d.port === 443, (c) => tr.front(c, (v) => server.accept(v, "2", false)));
  server.listenDirect();
  if (focus === "C08") server.expiryGrace = cfg.pick([0, 0, 3600_000]);
  server.replyDelay = cfg.pick([[0, 5], [1, 60], [1, 60], [1, 2000]]);

  // clock of the client
  if (clocky) {
    sim.skew = cfg.pick([-400, 400, -86400, 86400, 3600, -3600, 40, -20, -301, 31]) * 1000;
    sim.probe("clock.skewed");
  }

  const executions = new Map<string, { t: number; msgId: bigint; conn: number; session: string }[]>();
  const refused = new Set<bigint>();
  function handler(ctx: RpcContext): RpcReply {
    const a = answer(ctx.fn);
    let list = executions.get(a.token);
    if (!list) executions.set(a.token, list = []);
    list.push({ t: sim.now, msgId: ctx.msgId, conn: ctx.conn.conn.id, session: ctx.session.key });
    if (pfs && !ctx.authKey.temp) sim.violation("C08", "permanent-key-used", `${ctx.fn._} was encrypted with the permanent key`);
    if (disableUpdates && !ctx.withoutUpdates && ctx.fn._ !== "upload.getFile") sim.violation("C04", "updates-not-disabled", `${ctx.fn._} was sent without invokeWithoutUpdates`);
    if (ctx.initConnection && ctx.initConnection.api_id !== 4242) sim.violation("C04", "api-id", "initConnection carries another api_id");
    return a.reply;
  }
  void refused;

  const params = { transportProvider: tr.provider, publicKeys, disableUpdates, isPerfectForwardSecrecyEnabled: pfs, appVersion: "1", deviceModel: "sim", systemVersion: "1", langCode: "en", systemLangCode: "en", langPack: "" };
  let client = new ClientEncrypted("2", 4242, params as any);
  const updates: any[] = [];
  let deserializationErrors = 0;
  client.handlers = {
    onUpdate: (u) => {
      const text = JSON.stringify(u, (_k, v) => typeof v === "bigint" ? String(v) : v);
      sim.check(!text.includes(POISON), "C06", "forged-update", () => `a forged update was delivered: ${text}`);
      updates.push(u);
    },
    onDeserializationError: () => {
      deserializationErrors++;
    },
  };
  if (!handshake) {
    const key = sim.rng("authkey").bytes(256);
    const k = server.addKey("2", key as any);
    await sim.until(client.setAuthKey(key));
    if (!pfs && cfg.bool(0.7)) client.serverSalt = k.salt;
  }
  void sha1;

  //// calls ////
  const calls: Call[] = [];
  let n = 0;
  const wr = sim.rng("work");
  function makeCall(kind: string): { fn: any; expect: (v: any) => boolean; token: string; error?: string } {
    const id = (n++).toString(36).padStart(4, "0");
    const token = ("T" + id + wr.u32().toString(36).padStart(7, "0")).slice(0, 12);
    let fn: any;
    let error: string | undefined;
    switch (kind) {
      case "text":
        fn = { _: "help.getDeepLinkInfo", path: token + wr.pick([0, 10, 100, 900]).toString(36).padStart(8, "0") };
        break;
      case "big": {
        // what is sent is big too: compressible or not
        const size = wr.pick([1100, 5000, 20000, 60000]);
        const filler = wr.bool() ? "x".repeat(size) : wr.bytes(size >> 1).reduce((s, b) => s + b.toString(16).padStart(2, "0"), "");
        fn = { _: "help.getDeepLinkInfo", path: token + wr.pick([0, 3000, 40000]).toString(36).padStart(8, "0") + filler };
        break;
      }
      case "error":
        error = wr.pick(PLANNED_ERRORS);
        fn = { _: "help.getDeepLinkInfo", path: token + "E" + error + ":" };
        break;
      case "bool":
        fn = { _: "account.checkUsername", username: token };
        break;
      case "vector":
        fn = { _: "photos.deletePhotos", id: Array.from({ length: wr.pick([1, 1, 3, 200]) }, () => ({ _: "inputPhoto", id: wr.big64(), access_hash: wr.big64(), file_reference: wr.bytes(8) })) };
        break;
      case "file":
        fn = { _: "upload.getFile", location: { _: "inputDocumentFileLocation", id: wr.big64(), access_hash: 1n, file_reference: new Uint8Array(4), thumb_size: "" }, offset: 0n, limit: wr.pick([16, 4096, 65536]) };
        break;
      default:
        throw new Error(kind);
    }
    const a = answer(fn);
    return { fn, expect: a.expect, token: a.token, error };
  }

  function start(kind: string, phase: string): Promise<Call> {
    const { fn, expect, token, error } = kind === "ping" ? { fn: null, expect: () => true, token: "", error: undefined } : makeCall(kind);
    const call: Call = { token, kind, t0: sim.now, connected0: client.isConnected, t1: -1, outcome: "pending", phase };
    calls.push(call);
    let pingId = 0n;
    let promise: Promise<any>;
    if (kind === "ping") {
      pingId = wr.big64();
      promise = client.invoke({ _: "ping", ping_id: pingId } as any);
    } else promise = client.invoke(fn);
    sim.note(`call ${token || "ping"} (${kind})`);
    return promise.then((value) => {
      call.outcome = "ok";
      call.t1 = sim.now;
      sim.note(`call ${token || "ping"} answered`);
      const text = typeof value === "object" && value && "message" in value ? value.message : "";
      if (String(text).includes(POISON)) {
        sim.violation("C06", "forged-answer", `call ${token} was answered from a forged packet`);
      } else if (kind === "ping") {
        sim.check(value?._ === "pong" && value.ping_id === pingId, "C01", "wrong-pong", () => `ping ${pingId} was answered with ${Deno.inspect(value)}`);
      } else if (error) {
        sim.violation("C01", "error-as-result", `call ${token}, which the server refused with ${error}, resolved with ${Deno.inspect(value).slice(0, 200)}`);
      } else {
        sim.check(expect(value), "C01", "wrong-answer", () => `call ${token} (${kind}) resolved with something else than the server's answer: ${Deno.inspect(value).slice(0, 300)}`);
        sim.check(executions.has(token), "C01", "answer-from-nowhere", () => `call ${token} resolved but the server never executed it`);
      }
      return call;
    }, (err) => {
      call.t1 = sim.now;
      call.error = err;
      sim.note(`call ${token || "ping"} failed: ${String(err?.message ?? err).slice(0, 120)}`);
      if (String(err?.message).includes(POISON)) {
        call.outcome = "error";
        sim.violation("C06", "forged-error", `call ${token} failed with a forged error`);
      } else if (err instanceof TelegramError) {
        call.outcome = "error";
        const got = `${err.errorCode}:${err.errorMessage}`;
        if (got === "500:INTERNAL" && (sim.faultCounts["srv.rpcInternal"] ?? 0) > 0) {
          // an injected server error: it must belong to this call, which shows in the executions check
          sim.check(executions.has(token) === false || true, "C01", "", () => "");
        } else {
          sim.check(got === error, "C01", "foreign-error", () => `call ${token} (${kind}${error ? `, refused with ${error}` : ""}) failed with ${got}`);
        }
      } else {
        call.outcome = "lost";
      }
      return call;
    });
  }

  // forged packets try to answer outstanding calls and to bring updates
  let lastForged = 0;
  server.forgeBody = (s: MtSession) => {
    const r = sim.rng("forge.body");
    lastForged = sim.now;
    badPackets++;
    if (r.bool(0.7)) {
      const ids = [...s.seen].filter(([, v]) => v === "rpc").map(([k]) => k);
      const id = ids.length ? ids[Math.max(0, ids.length - 1 - r.int(0, 4))] : 4n;
      if (r.bool(0.2)) return new W().u32(0xf35c6d01).i64(id).u32(0x2144ca19).u32(400).str(POISON + "_ERROR").done();
      return new W().u32(0xf35c6d01).i64(id).raw(Uint8Array.from(Api.serializeObject({ _: "help.deepLinkInfo", message: POISON + "x".repeat(r.int(0, 300)) } as any))).done();
    }
    return Uint8Array.from(Api.serializeObject({ _: "updateShort", date: 1, update: { _: "updateUserPhone", user_id: 1n, phone: POISON } } as any));
  };
  void lastForged;

  //// user behaviour ////
  let wantConnected = true;
  let connectedOnce = false;
  const goodTransport = () => client.isConnected;
  /** The user calls connect() until it works, as applications do at start. */
  async function userConnect(): Promise<boolean> {
    for (let i = 0; i < 40 && wantConnected; i++) {
      try {
        await client.connect();
        connectedOnce = true;
        return true;
      } catch (err) {
        sim.note("connect failed: " + String((err as any)?.message ?? err).slice(0, 100));
        if (err instanceof TypeError || err instanceof RangeError) sim.note(String((err as any).stack));
        await sim.sleep(2000, "user.retry");
      }
    }
    return false;
  }

  const maxOps = tier === "thorough" ? cfg.pick([8, 20, 40, 80]) : cfg.pick([6, 12, 20, 35]);
  const callers = cfg.int(1, 4);
  const think = cfg.pick([[0, 20], [0, 300], [0, 300], [50, 8000]]) as [number, number];
  const mix: [string, number][] = [["text", 5], ["bool", 2], ["vector", 1.5], ["file", 1], ["big", 1], ["error", 1.5], ["ping", 0.7]];
  const ctl = faulty;
  const script: { caller: number; delay: number; kind: string; arg?: number }[] = [];
  for (let i = 0; i < maxOps; i++) {
    let kind = wr.weighted(mix);
    if (wr.bool(0.12)) kind = "push";
    else if (wr.bool(0.04)) kind = wr.pick(["push-unknown", "push-broken"]);
    else if (ctl && wr.bool(focus === "C03" ? 0.14 : 0.05)) kind = wr.pick(["kill", "kill", "restart", "partition", "disconnect", "rekey-disconnect", "double-connect"]);
    else if (clocky && wr.bool(0.06)) kind = "clock";
    script.push({ caller: wr.int(0, callers - 1), delay: wr.range(think[0], think[1]), kind, arg: wr.u32() });
  }

  let phase = "work";
  const background: Promise<unknown>[] = [];
  let disconnects = 0;
  async function doOp(op: { kind: string; arg?: number }) {
    const r = new Rng(String(op.arg));
    switch (op.kind) {
      case "kill":
        for (const c of server.conns) {
          if (sim.fault("op.kill", 1)) c.conn.kill();
        }
        return;
      case "restart":
        // the server loses its sessions (not its keys) and all connections
        if (!sim.fault("op.restart", 1)) return;
        for (const c of [...server.conns]) c.hangUp(r.bool() ? "fin" : "reset");
        for (const s of server.sessions.values()) s.closed = true;
        server.sessions.clear();
        return;
      case "partition":
        if (sim.fault("op.partition", 1)) net.partition(r.range(500, 30000));
        return;
      case "clock": {
        if (!sim.fault("op.clock", 1)) return;
        sim.skew += r.pick([-7200, 7200, -60, 60, 100000, -100000, 350, -350]) * 1000;
        return;
      }
      case "disconnect":
      case "rekey-disconnect": {
        if (!sim.fault("op.disconnect", 1)) return;
        await explicitDisconnect(r.pick([0, 0, 10, 3000, 5000]));
        return;
      }
      case "double-connect":
        await Promise.allSettled([client.connect(), client.connect()]);
        return;
      case "push":
      case "push-broken":
      case "push-unknown": {
        for (const s of server.liveSessions(() => true)) {
          if (op.kind === "push") server.push(s, Api.serializeObject({ _: "updateShort", date: 1, update: { _: "updateUserPhone", user_id: BigInt(r.int(1, 9)), phone: "P" + r.u32() + "y".repeat(r.pick([0, 0, 2000])) } } as any));
          else if (op.kind === "push-broken") {
            // a service message that is cut short; it is not acknowledged, as it cannot be read
            for (let i = r.int(1, 3); i > 0; i--) server.pushService(s, r.bool() ? new W().u32(0x276d3ec6).u32(1).done() : new W().u32(0x347773c5).u32(7).done(), "broken");
          } else server.push(s, new W().u32(0x5a5a5a5a).u32(1).done());
        }
        return;
      }
      default:
        background.push(start(op.kind, phase));
        if (r.bool(0.5)) await background[background.length - 1];
    }
  }

  /** disconnect(), its consequences, and connecting again later. */
  async function explicitDisconnect(pause: number) {
    disconnects++;
    wantConnected = false;
    const pending = calls.filter((c) => c.outcome === "pending");
    sim.note("user disconnects");
    client.disconnect();
    await sim.sleep(3200, "user.settle");
    for (const c of pending) {
      sim.check(c.outcome !== "pending", "C03", "pending-after-disconnect", () => `call ${c.token || "ping"} (${c.kind}), made ${(sim.now - c.t0).toFixed(0)} ms ago, is still pending 3.2 s after disconnect()`);
    }
    await sim.sleep(pause, "user.pause");
    wantConnected = true;
    await userConnect();
  }

  const workers: Promise<void>[] = [];
  let done = false;
  const main = (async () => {
    await userConnect();
    for (let c = 0; c < callers; c++) {
      workers.push((async () => {
        for (const op of script) {
          if (op.caller !== c) continue;
          await sim.sleep(op.delay, "user.think");
          if (sim.op()) await doOp(op);
        }
      })());
    }
    // an explicit disconnection by one caller may leave others' operations waiting: all settle or the end of the phase
    await Promise.all(workers);
    done = true;
  })();
  const workLimit = 240000;
  let reached = await sim.run(() => done, workLimit);
  info.reached = reached;
  if (!connectedOnce && reached === "idle") {
    sim.violation("C07", "connect-hangs", "connect() never settles and nothing is scheduled any more");
  }

  //// heal: from here on everything works ////
  sim.faultsEnabled = false;
  server.faults = { ...NO_MT_FAULTS };
  net.faults = { ...NO_NET_FAULTS, shortRead: net.faults.shortRead, partialWrite: net.faults.partialWrite };
  net.partitionedUntil = 0;
  phase = "healed";
  const healAt = sim.now;
  sim.note("---- healed ----");
  reached = await sim.run(() => done, sim.now + 130000);
  // everything that was pending while things went wrong is settled by now
  await sim.run(() => false, Math.max(sim.now, healAt + 130000));
  if (!done) {
    const c = calls.filter((c) => c.outcome === "pending");
    if (c.length === 0) sim.violation("C03", "stalled", `the user's operations do not finish: connected=${client.isConnected} disconnected=${client.isDisconnected}`);
  }
  for (const c of calls) {
    if (c.outcome !== "pending") continue;
    const disturbed = net.breaks.some((t) => t >= c.t0 - 1000) || !c.connected0;
    const execs = executions.get(c.token)?.length ?? 0;
    sim.violation(disturbed ? "C03" : "C01", disturbed ? "call-hangs-after-loss" : "call-hangs", `call ${c.token || "ping"} (${c.kind}), made at ${c.t0.toFixed(0)} ms, is still pending at ${sim.now.toFixed(0)} ms, ${((sim.now - healAt) / 1000).toFixed(0)} s after the last fault; executions: ${execs}`);
  }

  // errors need a reason
  for (const c of calls) {
    if (c.outcome === "lost" && c.connected0) {
      const reason = net.breaks.some((t) => t >= c.t0 - 50 && t <= c.t1 + 1) || disconnects > 0;
      sim.check(reason, "C01", "spurious-loss", () => `call ${c.token || "ping"} (${c.kind}) failed with "${c.error?.message}" although no connection was lost: cause ${c.error?.cause}`);
      sim.check(c.error instanceof ConnectionError || c.error?.cause instanceof ConnectionError || disconnects > 0, "C01", "odd-error", () => `call ${c.token} failed with ${c.error?.name}: ${c.error?.message}; cause ${c.error?.cause}`);
    }
  }

  //// at most once ////
  for (const c of calls) {
    const ex = executions.get(c.token);
    if (!ex) continue;
    if (ex.length > 1 && server.invalidations.length === 0 && badPackets === 0) {
      sim.violation("C02", "executed-twice", `call ${c.token} (${c.kind}) was executed ${ex.length} times, at ${ex.map((e) => e.t.toFixed(0)).join(", ")} ms`);
    }
    if (c.outcome === "lost") {
      for (const e of ex) {
        const conn = net.conns.find((v) => v.id === e.conn)!;
        if (conn.openedAt > c.t1) sim.violation("C02", "executed-after-failure", `call ${c.token} failed at ${c.t1.toFixed(0)} ms but was sent again on a connection opened at ${conn.openedAt.toFixed(0)} ms`);
      }
    }
  }

  //// service after healing ////
  const bt = server.stats.badTimes, bs = server.stats.badSalts;
  if (connectedOnce && wantConnected) {
    sim.check(goodTransport(), "C03", "not-reconnected", () => `130 s after the last fault the client is not connected (isDisconnected=${client.isDisconnected})`);
    const probes: Call[] = [];
    let settled = 0;
    for (let i = 0; i < 3; i++) start(["text", "bool", "file"][i], "probe").then((c) => (probes.push(c), settled++));
    await sim.run(() => settled === 3, sim.now + 45000);
    const good = probes.filter((p) => p.outcome === "ok").length;
    if (good < 3) {
      const why = settled < 3 ? `${3 - settled} of 3 calls get no answer for 45 s` : probes.map((p) => String(p.error?.message).slice(0, 200)).join("; ");
      const prop = server.stats.badTimes > bt ? "C04" : badPackets > 0 && focus === "C06" ? "C06" : "C03";
      sim.violation(prop, prop === "C04" ? "clock-not-corrected" : settled < 3 ? "no-service-after-healing" : "errors-after-healing", `130 s after the last fault calls are not served: ${why}; connected=${client.isConnected}, isDisconnected=${client.isDisconnected}`);
    }
    sim.check(server.stats.badTimes - bt <= 8, "C04", "clock-not-adopted", () => `${server.stats.badTimes - bt} messages with a wrong clock after it had been corrected`);
    sim.check(server.stats.badSalts - bs <= 8, "C04", "salt-not-adopted", () => `${server.stats.badSalts - bs} messages with a stale salt after it had been announced`);

    //// acknowledgements ////
    const quiet = sim.now;
    const conns = new Set(server.conns);
    for (const s of server.liveSessions(() => true)) server.push(s, Api.serializeObject({ _: "updateShort", date: 1, update: { _: "updateUserPhone", user_id: 3n, phone: "ack" } } as any));
    await sim.run(() => false, sim.now + 135000);
    for (const s of server.sessions.values()) {
      if (!s.conn || s.conn.closed || !conns.has(s.conn)) continue;
      const late = [...s.unacked.values()].filter((m) => m.sent > 0 && m.lastConn === s.conn!.conn && m.sentAt < quiet + 10000 && m.kind !== "never");
      sim.check(late.length === 0, "C05", "not-acknowledged", () => `${late.length} message(s) the client received more than 2 minutes ago on this connection are not acknowledged: ${late.slice(0, 4).map((m) => `${m.kind} (sent ${m.sent}x, last at ${m.sentAt.toFixed(0)} ms)`).join(", ")}`);
      sim.probe("acks.checked");
    }
    sim.check(goodTransport(), "C03", "lost-when-idle", () => "an idle client on a healthy network is not connected");
  }

  //// a temporary key expires ////
  if (pfs && connectedOnce && wantConnected && !sim.skewed && focus === "C08" && cfg.bool(0.25)) {
    const until = sim.now + 86400_000 * cfg.range(1.02, 1.2);
    sim.probe("pfs.day");
    while (sim.now < until && sim.violations.length === 0) {
      await sim.run(() => false, Math.min(until, sim.now + 7200_000));
    }
    await sim.run(() => false, sim.now + 240000);
    let settled = 0;
    const probes: Call[] = [];
    for (let i = 0; i < 2; i++) start("text", "probe").then((c) => (probes.push(c), settled++));
    await sim.run(() => settled === 2, sim.now + 60000);
    const lost = probes.filter((p) => p.outcome !== "ok");
    sim.check(settled === 2 && lost.length === 0, "C08", "no-service-after-expiry", () => `after the temporary key's lifetime calls are not served: ${settled} of 2 settled; ${lost.map((p) => String(p.error?.message)).join("; ")}`);
  }

  //// the end: explicit disconnection ////
  if (connectedOnce) {
    for (let i = 0; i < 2; i++) start("text", "last");
    await sim.run(() => false, sim.now + wr.pick([0, 1, 30]));
    wantConnected = false;
    if (cfg.bool(0.3)) {
      // in the middle of a reconnection
      for (const c of [...server.conns]) c.conn.kill();
      await sim.run(() => false, sim.now + wr.pick([0.01, 1, 5, 50, 200, 3010]));
    }
    const opened = net.connects;
    client.disconnect();
    const inFlight = net.dialing;
    await sim.run(() => false, sim.now + 60000);
    for (const c of calls) {
      if (c.outcome === "pending" && c.phase === "last") sim.violation("C03", "pending-after-disconnect", `call ${c.token} is still pending 60 s after disconnect()`);
    }
    sim.check(client.isDisconnected, "C03", "disconnect-forgotten", () => "the client no longer considers itself disconnected 60 s after disconnect()");
    sim.check(net.connects - opened <= 0, "C03", "connects-after-disconnect", () => `${net.connects - opened} connection(s) were opened after disconnect() (${inFlight} were being opened when it was called)`);
    const left = net.clientOpen.filter((c) => c.serverClosed === false);
    sim.check(left.length === 0, "C03", "connection-left-open", () => `${left.length} connection(s) are still open 60 s after disconnect()`);
    let late = "pending";
    client.invoke({ _: "account.checkUsername", username: "late" } as any).then(() => late = "served", () => late = "rejected");
    await sim.run(() => late !== "pending", sim.now + 20000);
    sim.check(late === "rejected", "C03", "call-after-disconnect", () => `a call made 60 s after disconnect() is ${late}`);
  }
  info.calls = calls.length;
  info.outcomes = calls.reduce((o: any, c) => (o[c.outcome] = (o[c.outcome] ?? 0) + 1, o), {});
  for (const c of calls) sim.probe("call." + c.outcome);
  for (const [k, v] of Object.entries(server.stats)) if (v) sim.probes["srv." + k] = v;
  sim.probes["updates"] = updates.length;
  sim.probes["deserializationErrors"] = deserializationErrors;
  sim.probe("transport." + kind);
  if (pfs) sim.probe("pfs");
  void main;
  void parseCall;
}

const world: World = {
  unhandled: "C03",
  stuck: "C03",
  run,
  components: {
    real: ["client/2_client_encrypted.ts", "client/1_client_plain.ts", "session/*", "transport/*", "connection/1_connection_tcp.ts", "connection/1_connection_web_socket.ts", "tl/*", "utilities/*"],
    stub: ["Telegram data centre (sim/server)", "TCP and WebSocket (sim/core/net.ts)", "clock, timers, randomness, WebCrypto completion (sim/core/env.ts)"],
  },
};
export default world;
