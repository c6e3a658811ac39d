// Puts every source of nondeterminism the code under test can reach behind the simulator.
import { Buffer } from "node:buffer";
import nodeCrypto from "node:crypto";
import zlib from "node:zlib";
import { Sim } from "./sim.ts";

// deno-lint-ignore-file no-explicit-any
const g = globalThis as any;
const RealDate = Date;
const real = {
  setTimeout: g.setTimeout,
  clearTimeout: g.clearTimeout,
  setInterval: g.setInterval,
  clearInterval: g.clearInterval,
  performanceNow: performance.now.bind(performance),
  getRandomValues: crypto.getRandomValues.bind(crypto),
  now: RealDate.now.bind(RealDate),
};
export const realNow = real.now;
export const realPerformanceNow = real.performanceNow;
export const realSetTimeout = real.setTimeout;

let timerId = 1000000000;
const timers = new Map<number, any>();

export interface Unhandled {
  reason: unknown;
  text: string;
}
export const unhandled: Unhandled[] = [];

export function describe(err: unknown): string {
  if (err instanceof Error) return `${err.name}: ${err.message}`;
  try {
    return String(err);
  } catch {
    return "?";
  }
}

function toBytes(data: any): Uint8Array {
  return data instanceof ArrayBuffer ? new Uint8Array(data) : new Uint8Array(data.buffer, data.byteOffset, data.byteLength);
}

/** A crypto or compression operation finishing on a thread pool: it completes at a simulator-chosen moment. */
function offload<T>(label: string, compute: () => T): Promise<T> {
  const sim = Sim.current;
  let value: T;
  try {
    value = compute();
  } catch (err) {
    return Promise.reject(err);
  }
  if (!sim) return Promise.resolve(value);
  if (!asyncCrypto) return Promise.resolve(value);
  return new Promise((resolve) => sim.after(sim.jitter("offload", 0.001, 0.05), label, () => resolve(value)));
}
let asyncCrypto = true;
/** Whether crypto completions are scheduled events (true) or complete at once (false). */
export function setAsyncCrypto(value: boolean) {
  asyncCrypto = value;
}

function algoName(a: any): string {
  return (typeof a === "string" ? a : a.name).toUpperCase();
}

let installed = false;
export function installEnv() {
  if (installed) return;
  installed = true;

  class SimDate extends RealDate {
    constructor(...args: any[]) {
      if (args.length === 0) super(Sim.current ? Math.floor(Sim.current.wall()) : RealDate.now());
      else super(...(args as [any]));
    }
    static override now() {
      return Sim.current ? Math.floor(Sim.current.wall()) : RealDate.now();
    }
  }
  g.Date = SimDate;

  g.setTimeout = (fn: (...args: any[]) => void, ms?: number, ...args: any[]) => {
    const sim = Sim.current;
    if (!sim) return real.setTimeout(fn, ms, ...args);
    const id = timerId++;
    let d = Number(ms ?? 0);
    if (!(d >= 1)) d = 1; // as runtimes do
    if (d > 2147483647) d = 1;
    timers.set(
      id,
      sim.after(d, "timer", () => {
        timers.delete(id);
        fn(...args);
      }),
    );
    return id;
  };
  g.clearTimeout = (id: any) => {
    const ev = timers.get(id);
    if (ev) {
      ev.fn = null;
      timers.delete(id);
    } else if (typeof id === "number" && id < 1000000000) {
      real.clearTimeout(id);
    }
  };
  g.setInterval = (fn: (...args: any[]) => void, ms?: number, ...args: any[]) => {
    const sim = Sim.current;
    if (!sim) return real.setInterval(fn, ms, ...args);
    const id = timerId++;
    const d = Math.max(1, Number(ms ?? 0));
    const arm = () => {
      timers.set(
        id,
        sim.after(d, "interval", () => {
          arm();
          fn(...args);
        }),
      );
    };
    arm();
    return id;
  };
  g.clearInterval = g.clearTimeout;
  const unref = Deno.unrefTimer.bind(Deno);
  try {
    (Deno as any).unrefTimer = (id: number) => {
      if (id < 1000000000) unref(id);
    };
  } catch {
    //
  }
  performance.now = () => Sim.current ? Sim.current.now : real.performanceNow();
  Math.random = () => Sim.current ? Sim.current.rng("math.random").float() : nodeCrypto.randomInt(1 << 30) / (1 << 30);

  const define = (target: any, name: string, value: any) => Object.defineProperty(target, name, { value, configurable: true, writable: true });

  define(crypto, "getRandomValues", (array: any) => {
    const sim = Sim.current;
    if (!sim) return real.getRandomValues(array);
    const view = new Uint8Array(array.buffer, array.byteOffset, array.byteLength);
    view.set(sim.rng("crypto.random").bytes(view.byteLength));
    sim.shapeRandom?.(view);
    return array;
  });
  define(crypto, "randomUUID", () => {
    const sim = Sim.current;
    const b = sim ? sim.rng("crypto.uuid").bytes(16) : real.getRandomValues(new Uint8Array(16));
    b[6] = (b[6] & 0x0f) | 0x40;
    b[8] = (b[8] & 0x3f) | 0x80;
    const h = Buffer.from(b).toString("hex");
    return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`;
  });

  const subtle = crypto.subtle as any;
  define(subtle, "digest", (algo: any, data: any) => {
    const bytes = Uint8Array.from(toBytes(data));
    return offload("crypto", () => {
      const name = algoName(algo).replace("-", "").toLowerCase();
      return Uint8Array.from(nodeCrypto.createHash(name).update(bytes).digest()).buffer;
    });
  });
  define(subtle, "importKey", (_format: string, key: any, algo: any, extractable: boolean, usages: string[]) => {
    const raw = Uint8Array.from(toBytes(key));
    return offload("crypto", () => ({ __raw: raw, algorithm: typeof algo === "string" ? { name: algo } : algo, extractable, usages, type: "secret" }));
  });
  const ctr = (algo: any, key: any, data: any) => {
    const bytes = Uint8Array.from(toBytes(data));
    const counter = Uint8Array.from(toBytes(algo.counter));
    return offload("crypto", () => {
      if (algoName(algo) !== "AES-CTR") throw new TypeError("unsupported algorithm " + algoName(algo));
      const c = nodeCrypto.createCipheriv(`aes-${key.__raw.length * 8}-ctr`, key.__raw, counter);
      const out = Buffer.concat([c.update(bytes), c.final()]);
      return Uint8Array.from(out).buffer;
    });
  };
  define(subtle, "encrypt", ctr);
  define(subtle, "decrypt", ctr);
  define(subtle, "sign", (_algo: any, key: any, data: any) => {
    const bytes = Uint8Array.from(toBytes(data));
    return offload("crypto", () => {
      const hash = (typeof key.algorithm.hash === "string" ? key.algorithm.hash : key.algorithm.hash.name).replace("-", "").toLowerCase();
      return Uint8Array.from(nodeCrypto.createHmac(hash, key.__raw).update(bytes).digest()).buffer;
    });
  });
  define(subtle, "deriveBits", (algo: any, key: any, length: number) => {
    return offload("crypto", () => {
      const hash = (typeof algo.hash === "string" ? algo.hash : algo.hash.name).replace("-", "").toLowerCase();
      // A simulation does not need the cost of a real password KDF.
      const iterations = Math.min(algo.iterations, 16);
      return Uint8Array.from(nodeCrypto.pbkdf2Sync(key.__raw, toBytes(algo.salt), iterations, length / 8, hash)).buffer;
    });
  });

  class SimTransform {
    readable: ReadableStream<Uint8Array>;
    writable: WritableStream<Uint8Array>;
    constructor(fn: (b: Uint8Array) => Uint8Array) {
      const chunks: Uint8Array[] = [];
      const t = new TransformStream<Uint8Array, Uint8Array>({
        transform(chunk) {
          chunks.push(Uint8Array.from(toBytes(chunk)));
        },
        async flush(controller) {
          const out = await offload("compress", () => fn(Buffer.concat(chunks)));
          controller.enqueue(Uint8Array.from(out));
        },
      });
      this.readable = t.readable;
      this.writable = t.writable;
    }
  }
  g.CompressionStream = class extends SimTransform {
    constructor(_format: string) {
      super((b) => zlib.gzipSync(b));
    }
  };
  g.DecompressionStream = class extends SimTransform {
    constructor(_format: string) {
      super((b) => zlib.gunzipSync(b));
    }
  };

  g.addEventListener("unhandledrejection", (e: any) => {
    e.preventDefault();
    if (e.reason?.expected) return; // the world's own, which its handlers throw on purpose
    Sim.current?.note("UNHANDLED " + describe(e.reason).slice(0, 100));
    unhandled.push({ reason: e.reason, text: describe(e.reason) + "\n" + (e.reason?.stack ?? "") });
  });
  g.addEventListener("error", (e: any) => {
    e.preventDefault();
    unhandled.push({ reason: e.error, text: "uncaught " + describe(e.error) + "\n" + (e.error?.stack ?? "") });
  });
}

export function resetEnv() {
  timers.clear();
  timerId = 1000000000;
  unhandled.length = 0;
}
