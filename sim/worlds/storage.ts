// World: the storage layer alone, over every backend, with concurrent use, slow and failing disks and crashes.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import nodeCrypto from "node:crypto";
import { captureLogs, swarm } from "./common.ts";
import { DISK_RATES, DiskError, makeIndexedDB, makeWebStorage, NO_DISK_FAULTS, SimDisk, SimKv, SimStorage } from "../stubs/disk.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { StorageDenoKV } from "/repo/storage/1_storage_deno_kv.ts";
import { StorageIndexedDB } from "/repo/storage/2_storage_indexed_db.ts";
import { StorageLocalStorage } from "/repo/storage/2_storage_local_storage.ts";
import { StorageMemory } from "/repo/storage/2_storage_memory.ts";
import { StorageSessionStorage } from "/repo/storage/2_storage_session_storage.ts";

// deno-lint-ignore-file no-explicit-any
const g = globalThis as any;

/** Content of a value, for comparison. */
function show(v: any): string {
  if (v === null || v === undefined) return "null";
  if (v instanceof Uint8Array) return "x" + [...v].map((b) => b.toString(16).padStart(2, "0")).join("");
  if (v instanceof Date) return "d" + v.getTime();
  if (typeof v === "bigint") return v + "n";
  if (Array.isArray(v)) return "[" + v.map(show).join(",") + "]";
  if (typeof v === "object") return "{" + Object.keys(v).filter((k) => v[k] !== undefined).sort().map((k) => k + ":" + show(v[k])).join(",") + "}";
  return JSON.stringify(v);
}

function simulatedFailure(err: any): boolean {
  if (err instanceof DiskError) return true;
  if (err instanceof DOMException && err.name === "QuotaExceededError") return true;
  if (err instanceof AggregateError) return err.errors.every(simulatedFailure);
  if (err?.target?.error) return simulatedFailure(err.target.error);
  if (err?.cause) return simulatedFailure(err.cause);
  return false;
}

/** What a cached key may hold: every state is a set of candidates, more than one only after a crash or a failed wipe. */
class Cell {
  states: string[][] = [["null"]];
  floor = 0;
  get last() {
    return this.states.length - 1;
  }
  push(candidates: string[]) {
    this.states.push(candidates);
  }
  union(from: number, to: number): Set<string> {
    const out = new Set<string>();
    for (let i = from; i <= to; i++) for (const v of this.states[i]) out.add(v);
    return out;
  }
}

/** A directly stored key: writes take time; those of one key take effect in the order they were made. */
class Register {
  writes: { value: string; start: number; done: boolean }[] = [{ value: "null", start: -1, done: true }];
  floor = 0;
}

const BACKENDS = ["sim", "sim-branch", "denokv", "denokv-branch", "idb", "idb-branch", "local", "local-branch", "session", "session-branch", "memory"] as const;

async function run(sim: Sim, _focus: string, tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const backend = cfg.weighted<(typeof BACKENDS)[number]>([["sim", 3], ["sim-branch", 1], ["denokv", 2], ["denokv-branch", 1], ["idb", 2], ["idb-branch", 1], ["local", 1], ["local-branch", 1], ["session", 0.5], ["session-branch", 0.5], ["memory", 0.7]]);
  const kind = backend.replace("-branch", "");
  const branched = backend.endsWith("-branch");
  const faulty = cfg.bool(0.75);
  const flood = cfg.bool(0.012);
  const disk = new SimDisk(sim, "d", faulty && !flood ? swarm(sim, "disk", NO_DISK_FAULTS, DISK_RATES, 0.4) : { ...NO_DISK_FAULTS });
  disk.delay = flood ? [0.01, 0.05] : cfg.pick([[0.01, 0.1], [0.05, 2], [1, 60], [1, 600]]) as [number, number];
  const webStorage = makeWebStorage(disk);
  const idb = makeIndexedDB(disk);
  Object.defineProperty(globalThis, "localStorage", { value: webStorage, configurable: true, writable: true });
  Object.defineProperty(globalThis, "sessionStorage", { value: webStorage, configurable: true, writable: true });
  g.indexedDB = idb.indexedDB;
  g.IDBKeyRange = idb.IDBKeyRange;
  const openKv = async () => {
    await disk.schedule("open", false, () => {}).catch(() => {});
    return new SimKv(disk);
  };
  Object.defineProperty(Deno, "openKv", { value: openKv, configurable: true, writable: true });
  const memory = new StorageMemory();

  function openRoot(): any {
    switch (kind) {
      case "sim":
        return new SimStorage(disk);
      case "denokv":
        return new StorageDenoKV("kv");
      case "idb":
        return new StorageIndexedDB("db");
      case "local":
        return new StorageLocalStorage("mtkruto");
      case "session":
        return new StorageSessionStorage("mtkruto");
      default:
        return memory;
    }
  }
  const volatile = kind === "memory";
  const synchronous = kind === "memory" || kind === "local" || kind === "session";

  let S!: StorageOperations;
  let raw!: any;
  let life = 0;
  let resetting = false;

  // other users of the same database, whose values must stay
  const others = cfg.bool(0.4);
  const otherId = branched ? null : "4_media";

  const cells = new Map<string, Cell>();
  const registers = new Map<string, Register>();
  const counters = new Map<string, { ok: number; all: number; lifeOk: number }>();
  const cell = (k: string) => cells.get(k) ?? (cells.set(k, new Cell()), cells.get(k)!);
  const register = (k: string) => registers.get(k) ?? (registers.set(k, new Register()), registers.get(k)!);

  const bad = (what: string, err: any) => {
    if (!simulatedFailure(err)) sim.violation("C14", `throws:${what}`, `${what} failed with ${err?.name}: ${err?.message ?? Deno.inspect(err)} although the backend (${backend}) reported no such failure\n${err?.stack ?? ""}`);
  };
  const check = (what: string, key: string, got: string, allowed: Set<string>, i: number, j: number) => {
    sim.check(allowed.has(got), "C14", what, () => `${key} (${backend}) reads ${got.slice(0, 160)}; it can only be ${[...allowed].map((v) => v.slice(0, 160)).join(" or ")} (states ${i} to ${j}, life ${life})`);
  };

  //// cached values ////
  const wr = sim.rng("work");
  const maps: Record<string, { keys: any[][]; value: () => any }> = {
    channelPts: { keys: Array.from({ length: 4 }, (_, i) => [1000000000n + BigInt(i) * 77n]), value: () => wr.int(0, 1 << 30) },
    peers: {
      keys: [[5], [777000], [-400], [-1001234567890]],
      value: () => [{ id: wr.int(1, 99), type: wr.pick(["private", "group", "channel"]), firstName: "N\n" + wr.u32(), username: wr.bool() ? "u" + wr.u32() : undefined, isBot: wr.bool(), also: wr.bool() ? ["a", "b\n2"] : undefined, photo: wr.bool() ? { smallFileId: "s", n: wr.int(0, 9) } : undefined }, wr.big64()],
    },
    usernames: { keys: [["alice"], ["bob\n6"], [""]], value: () => [wr.int(-9e9, 9e9), new Date(wr.int(0, 2e12))] },
    translations: { keys: [["en", "ios"], ["en\n", "android"]], value: () => ({ version: wr.int(0, 99), translations: [{ _: "normal", key: "k", value: "v" + wr.u32() }], date: new Date(wr.int(0, 2e12)) }) },
  };
  const mapNames = Object.keys(maps);
  const M = (name: string) => (S as any)[name];

  function mapSet(name: string, key: any[], value: any) {
    const k = name + show(key);
    cell(k).push([show(value)]);
    sim.note(`set ${k} = ${show(value).slice(0, 80)}`);
    M(name).set(key, value);
  }
  async function readCell(k: string, what: string, read: () => Promise<any>) {
    const c = cell(k);
    const i = c.last;
    const mine = life;
    let v: any;
    try {
      v = await read();
    } catch (err) {
      if (mine === life) bad(what, err);
      return;
    }
    if (mine !== life) return;
    const j = c.last;
    const got = show(v);
    sim.note(`read ${k} -> ${got.slice(0, 80)}`);
    check(what, k, got, c.union(i, j), i, j);
    if (i === j && c.states[i].length > 1) c.states[i] = [got];
  }
  const mapGet = (name: string, key: any[]) => readCell(name + show(key), "stale-read", () => M(name).get(key));
  const authGet = () => readCell("auth", "stale-auth", () => S.auth.get());
  async function authSet(value: any) {
    cell("auth").push([show(value)]);
    sim.note("set auth = " + show(value).slice(0, 80));
    const mine = life;
    try {
      await S.auth.set(value);
    } catch (err) {
      if (mine === life) bad("auth.set", err);
    }
  }
  const auth = () => ({ apiId: wr.int(0, 9), authKey: wr.bool(0.8) ? wr.bytes(256) : null, dc: wr.pick(["2", "4-test", null]) as any, isBot: wr.bool(), userId: wr.int(0, 1e9) });

  //// directly stored values ////
  async function directSet(key: any[], value: any) {
    const r = register(show(key));
    const w = { value: show(value), start: sim.events, done: false };
    r.writes.push(w);
    const n = r.writes.length - 1;
    const mine = life;
    try {
      await S.set(key, value);
      if (mine !== life) return;
      w.done = true;
      r.floor = Math.max(r.floor, n);
    } catch (err) {
      if (mine === life) bad("set", err);
    }
  }
  async function directGet(key: any[]) {
    const r = register(show(key));
    const from = r.floor;
    const mine = life;
    let v: any;
    try {
      v = await S.get(key);
    } catch (err) {
      if (mine === life) bad("get", err);
      return;
    }
    if (mine !== life) return;
    const allowed = new Set(r.writes.slice(from).map((w) => w.value));
    check("stale-stored-value", show(key), show(v), allowed, from, r.writes.length - 1);
  }
  async function incr(key: any[], by: number) {
    const k = show(key);
    const c = counters.get(k) ?? { ok: 0, all: 0, lifeOk: 0 };
    counters.set(k, c);
    c.all += by;
    const mine = life;
    try {
      await S.incr(key, by);
      if (mine === life) c.ok += by;
    } catch (err) {
      if (mine === life) bad("incr", err);
    }
  }

  //// the update queue ////
  const boxes = [0n, 1000000077n];
  const queue = new Map<bigint, { n: number; done: boolean; start: number }[]>(boxes.map((b) => [b, []]));
  let updateN = 0;
  async function setUpdate(box: bigint) {
    const e = { n: ++updateN, done: false, start: sim.events };
    queue.get(box)!.push(e);
    const mine = life;
    sim.note(`setUpdate ${e.n} in ${box}`);
    const update: any = wr.bool(0.4) ? { _: "updateUserPhone", user_id: BigInt(e.n), phone: "p" } : { _: "updateDeleteMessages", messages: [e.n], pts: wr.int(1, 1 << 30), pts_count: 1 };
    try {
      await S.setUpdate(box, update);
      if (mine === life) e.done = true;
    } catch (err) {
      if (mine === life) bad("setUpdate", err);
    }
  }
  const updateNumber = (u: any) => u._ === "updateUserPhone" ? Number(u.user_id) : u.messages[0];
  let consuming = false;
  async function consume(box: bigint) {
    if (consuming) return;
    consuming = true;
    const mine = life;
    try {
      const q = queue.get(box)!;
      const certain = q.find((e) => e.done)?.n;
      const first = await S.getFirstUpdate(box);
      if (mine !== life) return;
      if (first === null) {
        sim.check(certain === undefined, "C14", "update-lost", () => `update ${certain}, stored in box ${box}, is not found (${backend})`);
      } else {
        const n = updateNumber(first[1]);
        sim.note(`first of ${box}: ${n} ${show(first[0])}`);
        const at = q.findIndex((e) => e.n === n);
        sim.check(at >= 0, "C14", "update-resurrected", () => `update ${n} of box ${box} comes again after it had been deleted (${backend})`);
        if (certain !== undefined && (sim.faultCounts["op.clock"] ?? 0) === 0) sim.check(n <= certain, "C14", "update-order", () => `update ${n} of box ${box} comes before update ${certain}, which was stored earlier (${backend})`);
        if (at >= 0) q[at].done = false; // from here on it may be gone
        await S.set(first[0], null);
        if (mine === life && at >= 0) queue.set(box, q.filter((e) => e.n !== n));
      }
    } catch (err) {
      if (mine === life) bad("getFirstUpdate", err);
    } finally {
      if (mine === life) consuming = false;
    }
  }

  //// commits, wipes, crashes ////
  async function commit(force: boolean) {
    const before = new Map([...cells].map(([k, c]) => [k, c.last]));
    const mine = life;
    try {
      await S.commit(force);
    } catch (err) {
      if (mine === life) {
        bad("commit", err);
        sim.probe("commit.failed");
      }
      return false;
    }
    if (mine !== life) return false;
    if (force) {
      sim.probe("commit.done");
      for (const [k, i] of before) {
        const c = cell(k);
        c.floor = Math.max(c.floor, i);
      }
    }
    return true;
  }
  let readers = 0;
  async function wipe() {
    // writers stop, readers go on
    resetting = true;
    sim.note("reset()");
    const mine = life;
    const olds = new Map([...cells].map(([k, c]) => [k, c.last]));
    for (const [, c] of cells) c.push([...new Set([...c.states[c.last], ...c.union(c.floor, c.last), "null"])]);
    for (const [, r] of registers) r.writes.push({ value: "null", start: sim.events, done: false });
    let ok = false;
    try {
      await S.reset();
      ok = true;
    } catch (err) {
      if (mine === life) bad("reset", err);
    }
    if (mine !== life) return;
    for (const [, c] of cells) {
      if (ok) {
        c.push(["null"]);
        c.floor = c.last;
      } else c.push([...c.union(c.floor, c.last)]);
    }
    for (const [, r] of registers) if (ok) r.floor = r.writes.length - 1;
    for (const [, c] of counters) {
      if (ok) c.ok = c.all = 0;
      else c.ok = 0;
    }
    for (const b of boxes) {
      if (ok) queue.set(b, []);
      else for (const e of queue.get(b)!) e.done = false;
    }
    void olds;
    sim.probe(ok ? "reset.done" : "reset.failed");
    resetting = false;
  }

  async function open(): Promise<void> {
    raw = openRoot();
    S = new StorageOperations(branched ? raw.branch("4_media") : raw);
    for (let n = 0;; n++) {
      try {
        await S.initialize();
        return;
      } catch (err) {
        bad("initialize", err);
        await sim.sleep(500, "user.retry");
      }
    }
  }
  function crash() {
    sim.note("crash");
    life++;
    consuming = false;
    resetting = false;
    readers = 0;
    if (!volatile) {
      disk.crash();
      idb.reset();
      for (const [, c] of cells) {
        c.push([...c.union(c.floor, c.last)]);
        c.floor = c.last;
      }
      for (const b of boxes) for (const e of queue.get(b)!) e.done &&= true;
    }
  }

  const other = () => new StorageOperations(otherId ? raw.branch(otherId) : raw);
  async function writeOther() {
    const o = other();
    await o.initialize();
    await o.set(["other", 1], "kept");
    if (kind === "denokv") await o.close();
  }
  async function checkOther(): Promise<any> {
    const o = other();
    await o.initialize();
    const v = await o.get(["other", 1]);
    if (kind === "denokv") await o.close();
    return v;
  }

  await sim.until(open());
  let otherWritten = false;
  if (others && !volatile) {
    await sim.until(writeOther().then(() => otherWritten = true, (err) => bad("set", err)));
  }

  const directKeys: any[][] = [["messages.messages", -5, 1], ["messages.messages", -5, 2], ["cache.k", 77n, -3n], ["cache.k", 77n, "x"], ["session.serverSalt"]];
  const directValue = () => wr.pick<() => any>([() => wr.int(-1e6, 1e6), () => "s" + wr.u32() + "\n", () => wr.big64(), () => wr.bytes(wr.int(0, 40)), () => [wr.u32(), new Date(1e12 + wr.u32())], () => ({ a: [1n, { b: null }], c: true, d: undefined }), () => null])();
  const counterKeys: any[][] = [["stats.a"], ["stats.b", 5n]];

  const tasks = cfg.int(1, 4);
  const nOps = tier === "thorough" ? cfg.pick([20, 60, 150]) : cfg.pick([15, 40, 80]);
  const think = cfg.pick([[0, 0.2], [0, 5], [0, 200]]) as [number, number];
  const mix: [string, number][] = [["mapSet", 8], ["mapGet", 8], ["authSet", 1.5], ["authUpdate", 1], ["authGet", 1.5], ["commit", 1.5], ["commitSoft", 1.5], ["directSet", 3], ["directGet", 3], ["incr", 1.5], ["setUpdate", 3], ["consume", 3], ["reset", 0.25], ["crash", faulty ? 0.5 : 0.1], ["clock", faulty ? 0.2 : 0]];

  async function doOp(kind_: string) {
    const name = wr.pick(mapNames), key = wr.pick(maps[name].keys);
    const dkey = wr.pick(directKeys), box = wr.pick(boxes), ckey = wr.pick(counterKeys);
    const value = maps[name].value(), av = auth(), dvalue = directValue(), by = wr.int(1, 5), jump = wr.pick([-86400000, -3600000, 3600000]);
    const writes = ["mapSet", "authSet", "authUpdate", "directSet", "incr", "setUpdate", "consume"];
    if (resetting && writes.includes(kind_)) return;
    switch (kind_) {
      case "mapSet":
        return mapSet(name, key, value);
      case "mapGet":
        return await mapGet(name, key);
      case "authSet":
        return await authSet(av);
      case "authUpdate": {
        // as the client does: only once the value has been loaded
        try {
          S.auth.mustGet();
        } catch {
          return;
        }
        const c = cell("auth");
        const v: any = { ...S.auth.mustGet(), userId: av.userId };
        if (c.states[c.last].length > 1) return;
        c.push([show(v)]);
        return await S.auth.update((a) => a.userId = av.userId);
      }
      case "authGet":
        return await authGet();
      case "commit":
        return void await commit(true);
      case "commitSoft":
        return void await commit(false);
      case "directSet":
        return await directSet(dkey, dvalue);
      case "directGet":
        return await directGet(dkey);
      case "incr":
        return await incr(ckey, by);
      case "setUpdate":
        return await setUpdate(box);
      case "consume":
        return await consume(box);
      case "reset":
        // only while nothing else is being written
        if (writing > 0 || resetting) return;
        return await wipe();
      case "clock":
        if (sim.fault("op.clock", 1)) sim.skew += jump;
        return;
      case "crash":
        return "crash";
    }
  }

  let writing = 0;
  let lifeTasks = 0;
  let lifeDone = 0;
  let opsLeft = nOps;
  let wantCrash = false;
  function startTasks() {
    lifeTasks = tasks;
    lifeDone = 0;
    for (let t = 0; t < tasks; t++) {
      const mine = life;
      (async () => {
        while (opsLeft > 0 && !wantCrash) {
          await sim.sleep(sim.jitter("think", think[0], think[1]), "user.think");
          if (mine !== life || wantCrash || opsLeft <= 0) break;
          opsLeft--;
          const op = wr.weighted(mix);
          if (!sim.op()) continue;
          const reading = op === "mapGet" || op === "authGet" || op === "directGet" || op === "commit" || op === "commitSoft";
          if (!reading) writing++;
          const wait = wr.bool(0.6);
          const p = doOp(op).then((r) => {
            if (mine === life && r === "crash") wantCrash = true;
          }).finally(() => {
            if (mine === life && !reading) writing--;
          });
          if (wait) await p;
        }
        if (mine === life) lifeDone++;
      })();
    }
  }

  if (flood) {
    // more peers than the cache holds
    sim.probe("flood");
    const n = 20000 + wr.int(1, 60);
    const early = maps.usernames.keys;
    for (const k of early) mapSet("usernames", k, maps.usernames.value());
    for (let i = 0; i < n; i++) S.usernames.set(["flood" + i], [i, new Date(0)]);
    for (const k of early) await sim.until(mapGet("usernames", k));
    let committed = false;
    const p = commit(true).then(() => committed = true);
    await sim.run(() => false, sim.now + 0.2);
    for (const k of early) {
      const r = mapGet("usernames", k);
      void r;
    }
    await sim.run(() => committed, sim.now + 3600000);
    void p;
    for (const k of early) await sim.until(mapGet("usernames", k));
    opsLeft = 10;
  }

  startTasks();
  for (let round = 0; round < 12; round++) {
    const idleBefore = await sim.run(() => wantCrash || lifeDone === lifeTasks, sim.now + 600000);
    if (wantCrash && opsLeft > 0) {
      if (!sim.fault("op.crash", 1)) {
        wantCrash = false;
        await sim.run(() => lifeDone === lifeTasks, sim.now + 600000);
        startTasks();
        continue;
      }
      crash();
      wantCrash = false;
      writing = 0;
      if (volatile) {
        // an in-memory storage does not outlive its process: the client object is gone, a new one starts empty
        break;
      }
      await sim.runFor(wr.range(5, 3000));
      await sim.until(open());
      startTasks();
      continue;
    }
    void idleBefore;
    break;
  }
  if (volatile && life > 0) return;

  //// heal ////
  sim.faultsEnabled = false;
  disk.heal();
  sim.note("---- healed ----");
  wantCrash = true;
  await sim.run(() => writing === 0, sim.now + 600000);
  await sim.run(() => false, sim.now + 20000);
  sim.check(writing === 0, "C14", "hangs", () => `${writing} storage operation(s) never finish although the backend answers (${backend})`);

  async function readEverything() {
    for (const name of mapNames) for (const key of maps[name].keys) await mapGet(name, key);
    await authGet();
    const a = S.auth.mustGet();
    const id = S.auth.authKeyId;
    const expected = a.authKey && a.authKey.length ? nodeCrypto.createHash("sha1").update(a.authKey).digest().readBigInt64BE(12) : null;
    if (!(a.authKey && a.authKey.length === 0)) sim.check(BigInt.asUintN(64, id ?? 0n) === BigInt.asUintN(64, bswap(expected ?? 0n, expected !== null)) || BigInt.asUintN(64, id ?? 0n) === BigInt.asUintN(64, expected ?? 0n), "C14", "auth-key-id", () => `the identifier of the authorization key is ${id}, not that of the key which is stored`);
    for (const key of directKeys) await directGet(key);
    for (const key of counterKeys) {
      const c = counters.get(show(key));
      if (!c) continue;
      const v = Number(await S.get(key) ?? 0);
      const lateWrites = (sim.faultCounts["disk.writeFailLate"] ?? 0) > 0;
      sim.check(v >= c.ok && (lateWrites || v <= c.all), "C14", "lost-increment", () => `the counter ${show(key)} is ${v}; completed increments sum to ${c.ok}, all to ${c.all} (${backend})`);
    }
  }
  await sim.until(readEverything());

  // more work without faults, then the periodic commit or an explicit one, then a restart
  for (let i = 0; i < wr.int(0, 6); i++) {
    const name = wr.pick(mapNames);
    mapSet(name, wr.pick(maps[name].keys), maps[name].value());
  }
  if (wr.bool(0.3)) await sim.until(authSet(auth()));
  if (!volatile) {
    if (wr.bool()) {
      const ok = await sim.until(commit(true));
      sim.check(ok, "C14", "commit-fails-after-healing", () => `commit(true) fails although the backend works again (${backend})`);
    } else {
      await sim.until((async () => {
        for (let i = 0; i < 66; i++) {
          await sim.sleep(5000, "user.periodic");
          await commit(false);
        }
      })());
      for (const [, c] of cells) c.floor = c.last;
      sim.probe("commit.periodic");
    }
    crash();
    await sim.runFor(wr.range(5, 3000));
    await sim.until(open());
    for (const [k, c] of cells) {
      if (c.states[c.last].length > 1) sim.note(`uncertain ${k}: ${c.states[c.last].length}`);
    }
    await sim.until(readEverything());
    sim.probe("restart.checked");
  }
  if (otherWritten) {
    const v = await sim.until(checkOther());
    // resetting a parent erases its branches on databases that share one key space only if it says so: values of a
    // branch are those of another data centre and must survive anything but the sign-out of the whole client
    if ((sim.probes["reset.done"] ?? 0) + (sim.probes["reset.failed"] ?? 0) === 0) sim.check(v === "kept", "C14", "foreign-value", () => `a value stored by another user of the database reads ${show(v)} (${backend})`);
  }

  //// the queues, in order and complete ////
  await sim.until((async () => {
    for (const box of boxes) {
      const certain = queue.get(box)!.filter((e) => e.done).map((e) => e.n);
      const got: number[] = [];
      for (let i = 0; i < 400; i++) {
        const f = await S.getFirstUpdate(box);
        if (!f) break;
        got.push(updateNumber(f[1]));
        await S.set(f[0], null);
      }
      for (const n of certain) sim.check(got.includes(n), "C14", "update-lost", () => `update ${n}, stored in box ${box}, is not found at the end (${backend})`);
      for (let i = 1; i < got.length; i++) if ((sim.faultCounts["op.clock"] ?? 0) === 0) sim.check(got[i] > got[i - 1], "C14", "update-order", () => `update ${got[i - 1]} comes before update ${got[i]} in box ${box} (${backend})`);
      for (const n of got) sim.check(queue.get(box)!.some((e) => e.n === n), "C14", "update-resurrected", () => `update ${n} of box ${box} comes again after it had been deleted (${backend})`);
    }
    const left = await S.getUpdateBoxIds();
    sim.check(left.size === 0, "C14", "box-left", () => `boxes ${[...left]} are listed although they are empty (${backend})`);
    // wiping leaves nothing
    await S.reset();
    for await (const [k] of await (S.storage.getMany({ prefix: [] }) as any)) sim.violation("C14", "left-after-reset", `${show(k)} is left after reset() (${backend})`);
  })().catch((err) => bad("wipe", err)));
  info.backend = backend;
  sim.probe("backend." + backend);
  void synchronous;
  void readers;
}

function bswap(v: bigint, yes: boolean): bigint {
  if (!yes) return v;
  let out = 0n;
  let x = BigInt.asUintN(64, v);
  for (let i = 0; i < 8; i++) {
    out = (out << 8n) | (x & 255n);
    x >>= 8n;
  }
  return out;
}

const world: World = {
  unhandled: "C14",
  stuck: "C14",
  run,
  components: {
    real: ["client/0_storage_operations.ts", "storage/0_storage.ts", "storage/1_utilities.ts", "storage/1_storage_deno_kv.ts", "storage/2_storage_indexed_db.ts", "storage/2_storage_local_storage.ts", "storage/2_storage_session_storage.ts", "storage/2_storage_memory.ts", "tl/*"],
    stub: ["Deno.Kv, indexedDB, localStorage, sessionStorage and a custom Storage over a simulated disk (sim/stubs/disk.ts)", "clock, WebCrypto completion (sim/core/env.ts)"],
  },
};
export default world;
