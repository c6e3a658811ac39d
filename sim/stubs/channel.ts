// A pair of message channels between two threads: messages are cloned when they are posted, and arrive later, in order.
import type { Sim } from "../core/sim.ts";

// deno-lint-ignore-file no-explicit-any

const fail = (what: string): never => {
  throw new DOMException(`${what} could not be cloned.`, "DataCloneError");
};

export class Channel {
  #last = { page: 0, worker: 0 };
  /** What an object that arrived was cloned from, at the time. */
  originals = new WeakMap<any, any>();
  onRequest: ((m: any) => void) | null = null;
  onUpdate: ((m: any) => void) | null = null;
  constructor(readonly sim: Sim, readonly delay: () => number, readonly atWorker: (data: any) => void, readonly atPage: (data: any) => void) {}

  toWorker(message: any, transfer?: any) {
    const data = this.#clone(message, transfer);
    this.onRequest?.(data);
    this.#send("worker", data, this.atWorker);
  }
  toPage(message: any, transfer?: any) {
    const data = this.#clone(message, transfer);
    if (data?.type === "response" && data.id === "") {
      this.originals.set(data.data, this.#clone(message.data, transfer));
      this.onUpdate?.(data);
    }
    this.#send("page", data, this.atPage);
  }
  #send(to: "page" | "worker", data: any, deliver: (data: any) => void) {
    const at = Math.max(this.sim.now + this.delay(), this.#last[to] + 0.001);
    this.#last[to] = at;
    this.sim.at(at, "message." + to, () => deliver(data));
  }

  #clone(value: any, transfer: any): any {
    const list: any[] = Array.isArray(transfer) ? transfer : transfer?.transfer ?? [];
    const memo = new Map<any, any>();
    const visit = (v: any): any => {
      if (v === null || typeof v !== "object") {
        if (typeof v === "function" || typeof v === "symbol") fail(typeof v === "function" ? "A function" : "A symbol");
        return v;
      }
      if (memo.has(v)) return memo.get(v);
      const put = (x: any) => {
        memo.set(v, x);
        return x;
      };
      if (v instanceof ReadableStream) {
        if (!list.includes(v)) fail("A ReadableStream");
        return put(this.#moved(v));
      }
      if (v instanceof Date) return put(new Date(v.getTime()));
      if (v instanceof ArrayBuffer) return put(v.slice(0));
      if (ArrayBuffer.isView(v)) return put(new (v.constructor as any)(visit(v.buffer), v.byteOffset, (v as any).length ?? v.byteLength));
      if (Array.isArray(v)) {
        const out: any[] = put([]);
        for (const x of v) out.push(visit(x));
        return out;
      }
      if (v instanceof Map) {
        const out = put(new Map());
        for (const [k, x] of v) out.set(visit(k), visit(x));
        return out;
      }
      if (v instanceof Set) {
        const out = put(new Set());
        for (const x of v) out.add(visit(x));
        return out;
      }
      if (v instanceof Error) {
        const out: any = put(new Error(v.message));
        const name = String(v.name);
        out.name = ["EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "URIError"].includes(name) ? name : "Error";
        return out;
      }
      if (v instanceof AbortSignal || v instanceof URL || v instanceof EventTarget || v instanceof WeakMap || v instanceof WeakSet || v instanceof Promise || typeof v[Symbol.asyncIterator] === "function") fail(v.constructor?.name ?? "An object");
      const out: any = put({});
      for (const k of Object.keys(v)) out[k] = visit(v[k]);
      return out;
    };
    return visit(value);
  }

  /** The other side's end of a stream that was transferred: its chunks are messages too. */
  #moved(stream: ReadableStream): ReadableStream {
    const reader = stream.getReader();
    return new ReadableStream({
      pull: async (controller) => {
        const r = await reader.read();
        await this.sim.sleep(this.delay(), "message.stream");
        if (r.done) controller.close();
        else controller.enqueue(this.#clone(r.value, []));
      },
      cancel: (reason) => reader.cancel(reason),
    });
  }
}
