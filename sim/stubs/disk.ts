// A simulated durable store: asynchronous, FIFO per key, slow, failing, and crashing between any two operations.
// Key-value databases (Deno KV, IndexedDB), synchronous web storages and the Storage interface itself sit on top.
import type { Sim } from "../core/sim.ts";

// deno-lint-ignore-file no-explicit-any

export type Part = string | number | bigint | Uint8Array;
export type Key = readonly Part[];

export interface DiskFaults {
  /** A write fails without effect. */
  writeFail: number;
  /** A write fails although it took effect. */
  writeFailLate: number;
  readFail: number;
  /** An operation takes very long. */
  slow: number;
  /** From one fault on, every write fails for a while (disk full). */
  full: number;
}
export const NO_DISK_FAULTS: DiskFaults = { writeFail: 0, writeFailLate: 0, readFail: 0, slow: 0, full: 0 };
export const DISK_RATES: Partial<DiskFaults> = { writeFail: 0.05, writeFailLate: 0.03, readFail: 0.03, slow: 0.05, full: 0.01 };

const typeRank = (v: Part) => v instanceof Uint8Array ? 0 : typeof v === "string" ? 1 : typeof v === "number" ? 2 : 3;
/** The order of Deno KV keys, which is also a total order on everything the client uses as keys. */
export function compareKey(a: Key, b: Key): number {
  const n = Math.min(a.length, b.length);
  for (let i = 0; i < n; i++) {
    const x = a[i], y = b[i];
    const t = typeRank(x) - typeRank(y);
    if (t) return t;
    if (x instanceof Uint8Array) continue;
    if (x < y) return -1;
    if (x > y) return 1;
  }
  return a.length - b.length;
}

export const keyId = (k: Key) => k.map((p) => `${typeRank(p)}:${p instanceof Uint8Array ? [...p].join(".") : String(p)}`).join("/");

/** The structured clone algorithm for what a client stores. */
function clone(v: any): any {
  if (v === null || typeof v !== "object") {
    if (typeof v === "function" || typeof v === "symbol") throw new DOMException("could not be cloned", "DataCloneError");
    return v;
  }
  if (v instanceof Date) return new Date(v.getTime());
  if (v instanceof Uint8Array) return Uint8Array.from(v);
  if (Array.isArray(v)) return v.map(clone);
  if (v instanceof Map) return new Map([...v].map(([k, x]) => [clone(k), clone(x)]));
  if (v instanceof Set) return new Set([...v].map(clone));
  const out: any = {};
  for (const k of Object.keys(v)) out[k] = clone(v[k]);
  return out;
}

export class DiskError extends Error {
  override name = "DiskError";
}

export class SimDisk {
  readonly sim: Sim;
  readonly name: string;
  faults: DiskFaults;
  delay: [number, number] = [0.02, 2];
  data = new Map<string, { key: Key; value: any }>();
  epoch = 0;
  #busy = new Map<string, number>();
  #inFlight = new Set<{ apply: (() => void) | null; epoch: number }>();
  #fullUntil = -1;
  ops = 0;
  onWrite: ((key: Key, value: any) => void) | null = null;

  constructor(sim: Sim, name: string, faults: DiskFaults) {
    this.sim = sim;
    this.name = name;
    this.faults = faults;
  }

  /** The process dies: what was in flight is durable or not, and nobody hears about it. */
  crash() {
    this.epoch++;
    for (const op of this.#inFlight) {
      if (op.apply && this.sim.rng("disk.torn").bool(0.5)) op.apply();
    }
    this.#inFlight.clear();
    this.#busy.clear();
  }

  schedule<T>(lane: string, write: boolean, apply: () => T): Promise<T> {
    const s = this.sim;
    this.ops++;
    let d = s.jitter("disk." + this.name, this.delay[0], this.delay[1]);
    if (s.fault("disk.slow", this.faults.slow)) d += s.rng("disk.slow").range(50, 8000);
    let fail: "" | "early" | "late" = "";
    if (write) {
      if (s.fault("disk.full", this.faults.full)) this.#fullUntil = s.now + s.rng("disk.full").range(500, 30000);
      if (s.now < this.#fullUntil) fail = "early";
      if (s.fault("disk.writeFail", this.faults.writeFail)) fail = "early";
      else if (s.fault("disk.writeFailLate", this.faults.writeFailLate)) fail = "late";
    } else if (s.fault("disk.readFail", this.faults.readFail)) fail = "early";
    const at = Math.max(s.now + d, (this.#busy.get(lane) ?? 0) + 0.001);
    this.#busy.set(lane, at);
    const epoch = this.epoch;
    const entry: { apply: (() => void) | null; epoch: number } = { apply: write && fail !== "early" ? () => apply() : null, epoch };
    this.#inFlight.add(entry);
    return new Promise((resolve, reject) => {
      s.at(at, write ? "disk.write" : "disk.read", () => {
        if (epoch !== this.epoch) return; // the process that asked is gone
        this.#inFlight.delete(entry);
        if (fail === "early") return reject(new DiskError(write ? "simulated write error" : "simulated read error"));
        let v: T;
        try {
          v = apply();
        } catch (err) {
          return reject(err);
        }
        if (fail === "late") return reject(new DiskError("simulated error after the write"));
        resolve(v);
      });
    });
  }

  heal() {
    this.#fullUntil = -1;
    this.faults = { ...NO_DISK_FAULTS };
  }

  get isFull() {
    return this.sim.now < this.#fullUntil;
  }

  putNow(key: Key, value: any) {
    this.onWrite?.(key, value);
    this.data.set(keyId(key), { key: [...key], value });
  }
  deleteNow(key: Key) {
    this.onWrite?.(key, null);
    this.data.delete(keyId(key));
  }
  getNow(key: Key): any {
    const e = this.data.get(keyId(key));
    return e === undefined ? undefined : e.value;
  }

  get(key: Key): Promise<any> {
    return this.schedule(keyId(key), false, () => clone(this.getNow(key)));
  }
  put(key: Key, value: any): Promise<void> {
    const v = clone(value);
    return this.schedule(keyId(key), true, () => this.putNow(key, v));
  }
  delete(key: Key): Promise<void> {
    return this.schedule(keyId(key), true, () => this.deleteNow(key));
  }
  incr(key: Key, by: number): Promise<void> {
    return this.schedule(keyId(key), true, () => this.putNow(key, (this.getNow(key) ?? 0) + by));
  }
  listNow(): { key: Key; value: any }[] {
    return [...this.data.values()].sort((a, b) => compareKey(a.key, b.key));
  }
}

const startsWith = (k: Key, prefix: Key) => prefix.length <= k.length && prefix.every((p, i) => compareKey([p], [k[i]]) === 0);

/** The Storage interface itself on a simulated disk, as a user could implement it. */
export class SimStorage {
  readonly disk: SimDisk;
  #id: string;
  supportsFiles: boolean;
  mustSerialize: boolean;
  isMemory = false;
  #options: { supportsFiles?: boolean; mustSerialize?: boolean; alive?: () => boolean };
  constructor(disk: SimDisk, id = "", options: { supportsFiles?: boolean; mustSerialize?: boolean; alive?: () => boolean } = {}) {
    this.disk = disk;
    this.#id = id;
    this.#options = options;
    this.supportsFiles = options.supportsFiles ?? true;
    this.mustSerialize = options.mustSerialize ?? true;
  }
  #k(key: Key): Key {
    return [this.#id, ...key];
  }
  /** A process that crashed does not get anything done any more. */
  #alive<T>(f: () => Promise<T>): Promise<T> {
    return this.#options.alive?.() ?? true ? f() : new Promise<T>(() => {});
  }
  initialize() {
    return this.#alive(() => this.disk.schedule("init", false, () => {}).catch(() => {}));
  }
  close() {}
  branch(id: string) {
    return new SimStorage(this.disk, this.#id + "|" + id, this.#options);
  }
  get(key: Key) {
    return this.#alive(() => this.disk.get(this.#k(key))).then((v) => v ?? null);
  }
  set(key: Key, value: any) {
    return this.#alive<any>(() => value === null ? this.disk.delete(this.#k(key)) : this.disk.put(this.#k(key), value));
  }
  incr(key: Key, by: number) {
    return this.#alive(() => this.disk.incr(this.#k(key), by));
  }
  async *getMany(filter: any, params?: any): AsyncGenerator<[Key, any]> {
    const all = await this.#alive(() => this.disk.schedule("list", false, () => this.disk.listNow()));
    let list = all.filter((e) => e.key[0] === this.#id).map((e) => ({ key: e.key.slice(1), value: e.value }));
    list = "prefix" in filter ? list.filter((e) => startsWith(e.key, filter.prefix)) : list.filter((e) => compareKey(e.key, filter.start) >= 0 && compareKey(e.key, filter.end) <= 0);
    if (params?.reverse) list.reverse();
    let n = 0;
    for (const e of list) {
      if (params?.limit !== undefined && n++ >= Math.max(1, params.limit)) return;
      yield [e.key, clone(e.value)];
    }
  }
}

/** Deno.openKv. */
export class SimKv {
  readonly disk: SimDisk;
  closed = false;
  #versions = new Map<string, number>();
  constructor(disk: SimDisk) {
    this.disk = disk;
  }
  #assert() {
    if (this.closed) throw new Deno.errors.BadResource("Bad resource ID");
  }
  #version(key: Key): string | null {
    return this.disk.data.has(keyId(key)) ? String(this.#versions.get(keyId(key)) ?? 0).padStart(20, "0") : null;
  }
  #bump(key: Key) {
    this.#versions.set(keyId(key), (this.#versions.get(keyId(key)) ?? 0) + 1);
  }
  async get(key: Key) {
    this.#assert();
    return await this.disk.schedule(keyId(key), false, () => ({ key, value: clone(this.disk.getNow(key) ?? null), versionstamp: this.#version(key) }));
  }
  async set(key: Key, value: any) {
    this.#assert();
    const v = clone(value);
    await this.disk.schedule(keyId(key), true, () => (this.disk.putNow(key, v), this.#bump(key)));
    return { ok: true, versionstamp: "1" };
  }
  async delete(key: Key) {
    this.#assert();
    await this.disk.schedule(keyId(key), true, () => (this.disk.deleteNow(key), this.#bump(key)));
  }
  async *list(selector: any, options: any = {}) {
    this.#assert();
    const all = await this.disk.schedule("list", false, () => this.disk.listNow());
    const list = "prefix" in selector && !("start" in selector)
      ? all.filter((e) => e.key.length > selector.prefix.length && startsWith(e.key, selector.prefix))
      : all.filter((e) => compareKey(e.key, selector.start) >= 0 && compareKey(e.key, selector.end) < 0);
    if (options.reverse) list.reverse();
    let n = 0;
    for (const e of list) {
      if (options.limit !== undefined && n++ >= options.limit) return;
      yield { key: e.key, value: clone(e.value), versionstamp: "1" };
    }
  }
  atomic() {
    const checks: any[] = [], sets: [Key, any][] = [];
    const op = {
      check: (c: any) => (checks.push(c), op),
      set: (k: Key, v: any) => (sets.push([k, clone(v)]), op),
      commit: async () => {
        this.#assert();
        return await this.disk.schedule(keyId(sets[0][0]), true, () => {
          for (const c of checks) if (this.#version(c.key) !== c.versionstamp) return { ok: false };
          for (const [k, v] of sets) this.disk.putNow(k, v), this.#bump(k);
          return { ok: true, versionstamp: "1" };
        });
      },
    };
    return op;
  }
  close() {
    this.#assert();
    this.closed = true;
  }
}

/** localStorage / sessionStorage on a simulated disk (synchronous). */
export function makeWebStorage(disk: SimDisk): any {
  const target: any = {};
  const methods: any = {
    getItem: (k: string) => disk.getNow([String(k)]) ?? null,
    setItem: (k: string, v: string) => {
      if (disk.isFull || disk.sim.fault("disk.quota", disk.faults.writeFail)) throw new DOMException("Exceeded the quota", "QuotaExceededError");
      disk.putNow([String(k)], String(v));
    },
    removeItem: (k: string) => disk.deleteNow([String(k)]),
    clear: () => disk.data.clear(),
    key: (i: number) => disk.listNow()[i]?.key[0] ?? null,
  };
  return new Proxy(target, {
    get: (_t, p) => p === "length" ? disk.data.size : p in methods ? methods[p] : typeof p === "string" ? methods.getItem(p) ?? undefined : undefined,
    ownKeys: () => disk.listNow().map((e) => e.key[0] as string),
    getOwnPropertyDescriptor: (_t, p) => {
      const v = typeof p === "string" ? disk.getNow([p]) : undefined;
      return v === undefined ? undefined : { value: v, enumerable: true, configurable: true, writable: true };
    },
  });
}

//// IndexedDB ////
function idbCmp(a: any, b: any): number {
  const rank = (v: any) => {
    if (typeof v === "number" && !Number.isNaN(v)) return 1;
    if (v instanceof Date) return 2;
    if (typeof v === "string") return 3;
    if (Array.isArray(v)) return 5;
    throw new DOMException("The parameter is not a valid key.", "DataError");
  };
  const t = rank(a) - rank(b);
  if (t) return t < 0 ? -1 : 1;
  if (Array.isArray(a)) {
    for (let i = 0; i < Math.min(a.length, b.length); i++) {
      const c = idbCmp(a[i], b[i]);
      if (c) return c;
    }
    return Math.sign(a.length - b.length);
  }
  return a < b ? -1 : a > b ? 1 : 0;
}

export function makeIndexedDB(disk: SimDisk) {
  class KeyRange {
    lower: any;
    upper: any;
    lowerOpen: boolean;
    upperOpen: boolean;
    constructor(lower: any, upper: any, lo: boolean, uo: boolean) {
      this.lower = lower, this.upper = upper, this.lowerOpen = lo, this.upperOpen = uo;
    }
    static bound(l: any, u: any, lo = false, uo = false) {
      if (idbCmp(l, u) > 0) throw new DOMException("The lower key is greater than the upper key.", "DataError");
      return new KeyRange(l, u, lo, uo);
    }
    static lowerBound(l: any, lo = false) {
      idbCmp(l, l);
      return new KeyRange(l, undefined, lo, false);
    }
    includes(k: any) {
      const c = idbCmp(k, this.lower);
      if (c < 0 || (c === 0 && this.lowerOpen)) return false;
      if (this.upper === undefined) return true;
      const d = idbCmp(k, this.upper);
      return d < 0 || (d === 0 && !this.upperOpen);
    }
  }
  const id = (k: any) => [JSON.stringify(k)];
  const keys = () => disk.listNow().map((e) => ({ k: JSON.parse(e.key[0] as string), e })).sort((a, b) => idbCmp(a.k, b.k));
  // readwrite transactions on the one store run one after another; read-only ones wait for earlier readwrite ones
  let writers: Promise<void> = Promise.resolve();
  const transaction = (mode: string) => {
    let pending = 0, done!: () => void, finished = false;
    const before = writers;
    if (mode === "readwrite") {
      const mine = new Promise<void>((r) => done = r);
      writers = writers.then(() => mine);
    } else done = () => {};
    const epoch = disk.epoch;
    const settle = () => {
      // a transaction ends when no request is outstanding and none was made in the callbacks of the last one
      disk.sim.after(0.001, "idb.tx", () => {
        if (pending === 0 && !finished) finished = true, done();
      });
    };
    settle();
    const request = (lane: string, write: boolean, apply: () => any) => {
      if (finished) throw new DOMException("The transaction is inactive or finished.", "TransactionInactiveError");
      pending++;
      const req: any = { onsuccess: null, onerror: null, result: undefined, readyState: "pending" };
      before.then(() => {
        if (disk.epoch !== epoch) return;
        return disk.schedule(mode === "readwrite" ? "tx" : lane, write, apply);
      }).then((v) => {
        req.readyState = "done";
        req.result = v;
        pending--;
        req.onsuccess?.({ target: req });
        settle();
      }, (err) => {
        req.error = err;
        pending--;
        req.onerror?.({ target: req });
        settle();
      });
      return req;
    };
    const store = {
      get: (k: any) => {
        idbCmp(k, k);
        return request("read", false, () => clone(disk.getNow(id(k))));
      },
      put: (v: any, k: any) => {
        idbCmp(k, k);
        const c = clone(v);
        return request("write", true, () => (disk.putNow(id(k), c), k));
      },
      delete: (k: any) => {
        idbCmp(k, k);
        return request("write", true, () => disk.deleteNow(id(k)));
      },
      openKeyCursor: (range: KeyRange, direction = "next") => {
        let position = -1;
        let list: any[] | null = null;
        const req: any = { onsuccess: null, onerror: null, result: undefined };
        const step = () => {
          const r = request("read", false, () => {
            list ??= (() => {
              const l = keys().map((x) => x.k).filter((k) => range.includes(k));
              return direction === "prev" ? l.reverse() : l;
            })();
            position++;
            return position < list.length ? list[position] : null;
          });
          r.onsuccess = () => {
            req.result = r.result === null ? null : { key: clone(r.result), primaryKey: r.result, continue: () => step() };
            req.onsuccess?.({ target: req });
          };
          r.onerror = (e: any) => req.onerror?.(e);
        };
        step();
        return req;
      },
    };
    return { objectStore: () => store };
  };
  const indexedDB = {
    cmp: idbCmp,
    open: (_name: string, _version: number) => {
      const db: any = { transaction: (_s: string, mode = "readonly") => transaction(mode), createObjectStore: () => ({}), close: () => {} };
      const req: any = { result: db, onsuccess: null, onerror: null, onupgradeneeded: null, onblocked: null };
      disk.sim.after(0.5, "idb.open", () => {
        if (disk.data.size === 0) req.onupgradeneeded?.({});
        req.onsuccess?.({});
      });
      return req;
    },
  };
  return { indexedDB, IDBKeyRange: KeyRange, reset: () => writers = Promise.resolve() };
}
