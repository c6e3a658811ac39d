// The discrete-event simulator: one seed is one exactly repeatable execution. Real promises run between
// events (the microtask queue is drained after each one); everything that would reach outside the process
// (timers, sockets, storage, crypto threads, clocks, randomness) is an event in this queue.
import { setImmediate } from "node:timers";
import { Rng } from "./rng.ts";

const realSetImmediate = setImmediate;

export interface SimOptions {
  seed: string;
  /** Exact list of fault keys that may fire; null means any. */
  allowFaults?: string[] | null;
  /** Indices of workload operations to keep; null means all. */
  keepOps?: number[] | null;
  /** All schedule jitter takes its minimum value. */
  calm?: boolean;
  /** Keep a readable log. */
  verbose?: boolean;
  maxEvents?: number;
}

export interface Violation {
  property: string;
  /** Stable identity of what failed, independent of incidental values; used by known findings and minimisation. */
  kind: string;
  message: string;
  time: number;
  event: number;
}

interface Ev {
  at: number;
  seq: number;
  label: string;
  fn: (() => void) | null;
}

export class SimLimit extends Error {}

export class Sim {
  static current: Sim | null = null;

  readonly options: SimOptions;
  readonly seed: string;
  now = 0;
  /** Wall-clock offset seen by the code under test, in ms. */
  /** Lets a world bias what the code under test gets from its random generator towards awkward values. */
  shapeRandom: ((bytes: Uint8Array) => void) | null = null;
  #skew = 0;
  /** Whether the client's clock was ever wrong. */
  skewed = false;
  get skew() {
    return this.#skew;
  }
  set skew(v: number) {
    this.#skew = v;
    if (v !== 0) this.skewed = true;
  }
  readonly epoch = 1767225600000; // 2026-01-01
  events = 0;
  readonly violations: Violation[] = [];
  readonly faultsFired: { key: string; t: number }[] = [];
  readonly faultCounts: Record<string, number> = {};
  readonly probes: Record<string, number> = {};
  faultsEnabled = true;
  opIndex = 0;
  log: string[] = [];
  #heap: Ev[] = [];
  #seq = 0;
  #rngs = new Map<string, Rng>();
  #faultIndex = new Map<string, number>();
  #allow: Set<string> | null;
  #keep: Set<number> | null;
  #d1 = 0x811c9dc5;
  #d2 = 0x1b873593;
  #labels = new Map<string, number>();
  #last = 0;
  /** Hashes of consecutive event-label pairs: which orders of which kinds of step occurred. */
  readonly pairs = new Set<number>();
  ended = false;

  constructor(options: SimOptions) {
    this.options = options;
    this.seed = options.seed;
    this.#allow = options.allowFaults ? new Set(options.allowFaults) : null;
    this.#keep = options.keepOps ? new Set(options.keepOps) : null;
  }

  //// RANDOMNESS ////
  rng(site: string): Rng {
    let rng = this.#rngs.get(site);
    if (!rng) this.#rngs.set(site, rng = new Rng(`${this.seed}/${site}`));
    return rng;
  }

  /** Schedule jitter: a delay in [min, max] ms. */
  jitter(site: string, min: number, max: number): number {
    const v = this.rng("j:" + site).range(min, max);
    return this.options.calm ? min : v;
  }

  /** Asks whether the fault at this site fires now, with probability p. */
  fault(site: string, p: number): boolean {
    const index = (this.#faultIndex.get(site) ?? 0) + 1;
    this.#faultIndex.set(site, index);
    const drawn = this.rng("f:" + site).float() < p;
    if (!this.faultsEnabled || !drawn) return false;
    const key = `${site}#${index}`;
    if (this.#allow && !this.#allow.has(key)) return false;
    this.faultsFired.push({ key, t: this.now });
    this.faultCounts[site] = (this.faultCounts[site] ?? 0) + 1;
    if (this.options.verbose) this.note("FAULT " + key);
    this.mix(this.#hash(key));
    return true;
  }

  /** Registers the next workload operation; false when minimisation removed it. */
  op(): boolean {
    const i = this.opIndex++;
    return this.#keep === null || this.#keep.has(i);
  }

  probe(name: string) {
    this.probes[name] = (this.probes[name] ?? 0) + 1;
  }

  //// TRACE ////
  #hash(s: string): number {
    let h = this.#labels.get(s);
    if (h === undefined) {
      h = 0x811c9dc5;
      for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193);
      h >>>= 0;
      if (this.#labels.size < 100000) this.#labels.set(s, h);
    }
    return h;
  }

  mix(n: number) {
    this.#d1 = Math.imul(this.#d1 ^ (n | 0), 0x01000193) >>> 0;
    this.#d2 = (Math.imul((this.#d2 << 13) | (this.#d2 >>> 19), 5) + (n | 0) + 0xe6546b64) >>> 0;
  }

  mixString(s: string) {
    this.mix(this.#hash(s));
  }

  get digest(): string {
    return this.#d1.toString(16).padStart(8, "0") + this.#d2.toString(16).padStart(8, "0");
  }

  note(line: string) {
    if (!this.options.verbose) return;
    this.log.push(`[${this.now.toFixed(3)}] ${line}`);
    if (this.log.length > 20000) this.log.splice(0, 5000);
  }

  violation(property: string, kind: string, message: string) {
    if (this.violations.length >= 50) return;
    this.violations.push({ property, kind, message, time: this.now, event: this.events });
    this.note(`VIOLATION ${property} ${kind}: ${message}`);
  }

  check(ok: boolean, property: string, kind: string, message: () => string) {
    if (!ok) this.violation(property, kind, message());
  }

  //// EVENTS ////
  at(time: number, label: string, fn: () => void): Ev {
    const ev: Ev = { at: time < this.now ? this.now : time, seq: this.#seq++, label, fn };
    this.#push(ev);
    return ev;
  }

  after(delay: number, label: string, fn: () => void): Ev {
    return this.at(this.now + (delay > 0 ? delay : 0), label, fn);
  }

  cancel(ev: Ev | undefined) {
    if (ev) ev.fn = null;
  }

  sleep(ms: number, label = "sleep"): Promise<void> {
    return new Promise((resolve) => this.after(ms, label, resolve));
  }

  #push(ev: Ev) {
    const h = this.#heap;
    let i = h.length;
    h.push(ev);
    while (i > 0) {
      const p = (i - 1) >> 1;
      const x = h[p];
      if (x.at < ev.at || (x.at === ev.at && x.seq < ev.seq)) break;
      h[i] = x;
      i = p;
    }
    h[i] = ev;
  }

  #pop(): Ev | undefined {
    const h = this.#heap;
    if (h.length === 0) return undefined;
    const top = h[0];
    const last = h.pop()!;
    const n = h.length;
    if (n > 0) {
      let i = 0;
      while (true) {
        let c = 2 * i + 1;
        if (c >= n) break;
        if (c + 1 < n && (h[c + 1].at < h[c].at || (h[c + 1].at === h[c].at && h[c + 1].seq < h[c].seq))) c++;
        if (h[c].at < last.at || (h[c].at === last.at && h[c].seq < last.seq)) {
          h[i] = h[c];
          i = c;
        } else break;
      }
      h[i] = last;
    }
    return top;
  }

  get pending(): number {
    return this.#heap.length;
  }

  /** Lets every runnable promise reaction run. */
  drain(): Promise<void> {
    return new Promise<void>((resolve) => realSetImmediate(resolve));
  }

  /** Runs events until `until()` holds, `maxTime` of simulated time is reached, or nothing is left to do. */
  async run(until: () => boolean, maxTime: number): Promise<"done" | "time" | "idle"> {
    const maxEvents = this.options.maxEvents ?? 400000;
    await this.drain();
    while (true) {
      if (until()) return "done";
      let ev = this.#pop();
      while (ev && ev.fn === null) ev = this.#pop();
      if (!ev) return "idle";
      if (ev.at > maxTime) {
        this.#push(ev);
        this.now = maxTime;
        return "time";
      }
      if (ev.at > this.now) this.now = ev.at;
      if (++this.events > maxEvents) throw new SimLimit(`more than ${maxEvents} events`);
      const fn = ev.fn!;
      ev.fn = null;
      const h = this.#hash(ev.label);
      this.mix(h);
      this.mix(Math.floor(this.now * 1000) | 0);
      this.pairs.add((Math.imul(this.#last, 31) ^ h) >>> 0);
      this.#last = h;
      fn();
      await this.drain();
    }
  }

  /** Runs until a promise settles; the simulation must not be running already. */
  async until<T>(promise: Promise<T>, maxTime = 3600000): Promise<T> {
    let settled = false;
    promise.then(() => settled = true, () => settled = true);
    const r = await this.run(() => settled, this.now + maxTime);
    if (!settled) throw new Error(`a promise did not settle (${r})`);
    return await promise;
  }

  /** Runs for a span of simulated time. */
  async runFor(ms: number): Promise<void> {
    const end = this.now + ms;
    await this.run(() => false, end);
    if (this.now < end) this.now = end;
  }

  /** The wall clock the code under test reads. */
  wall(): number {
    return this.epoch + this.now + this.skew;
  }

  /** The true time, as servers know it. */
  trueTime(): number {
    return this.epoch + this.now;
  }
}
