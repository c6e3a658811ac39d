// A stand-in for node:net's Socket on top of the simulated network, with the event order of the real one:
// "connect" | "error"+"close"; "data"*; "end" then "close", or "error" then "close"; nothing after destroy() but "close".
import { Buffer } from "node:buffer";
import type { Conn } from "./net.ts";
import { currentNetwork } from "./net.ts";
import { Sim } from "./sim.ts";

// deno-lint-ignore-file no-explicit-any

type Listener = (...args: any[]) => void;

export class SimSocket {
  readyState: "closed" | "opening" | "open" | "readOnly" | "writeOnly" = "closed";
  destroyed = false;
  connecting = false;
  #listeners = new Map<string, { fn: Listener; once: boolean }[]>();
  #conn: Conn | null = null;
  #queue: { data: Uint8Array; cb?: Listener }[] = [];
  #writing = false;
  #closed = false;
  #ended = false;

  on(name: string, fn: Listener) {
    const l = this.#listeners.get(name) ?? [];
    l.push({ fn, once: false });
    this.#listeners.set(name, l);
    return this;
  }
  addListener(name: string, fn: Listener) {
    return this.on(name, fn);
  }
  once(name: string, fn: Listener) {
    const l = this.#listeners.get(name) ?? [];
    l.push({ fn, once: true });
    this.#listeners.set(name, l);
    return this;
  }
  off(name: string, fn: Listener) {
    const l = this.#listeners.get(name) ?? [];
    const i = l.findIndex((v) => v.fn === fn);
    if (i >= 0) l.splice(i, 1);
    return this;
  }
  removeListener(name: string, fn: Listener) {
    return this.off(name, fn);
  }
  removeAllListeners(name?: string) {
    if (name === undefined) this.#listeners.clear();
    else this.#listeners.delete(name);
    return this;
  }
  setNoDelay() {
    return this;
  }
  setKeepAlive() {
    return this;
  }
  setTimeout() {
    return this;
  }
  ref() {
    return this;
  }
  unref() {
    return this;
  }
  pause() {
    return this;
  }
  resume() {
    return this;
  }

  #emit(name: string, ...args: any[]) {
    const l = [...(this.#listeners.get(name) ?? [])];
    if (name === "error" && l.length === 0) throw args[0];
    for (const v of l) {
      if (v.once) this.off(name, v.fn);
      v.fn(...args);
    }
  }

  connect(a: any, b?: any, c?: any) {
    const { port, host } = typeof a === "object" ? a : { port: a, host: typeof b === "string" ? b : "localhost" };
    const cb = typeof b === "function" ? b : c;
    if (typeof cb === "function") this.once("connect", cb);
    const net = currentNetwork();
    if (!net) throw new Error("no simulated network");
    this.readyState = "opening";
    this.connecting = true;
    net.dial({ hostname: host, port }).then((conn) => {
      this.connecting = false;
      if (this.destroyed) {
        conn.closeQuietly();
        return;
      }
      this.#conn = conn;
      this.readyState = "open";
      conn.push = {
        data: (bytes) => {
          if (!this.destroyed) this.#emit("data", Buffer.from(bytes.slice().buffer));
        },
        close: (how) => {
          if (this.destroyed) return;
          if (how === "reset") {
            this.destroy(Object.assign(new Error("read ECONNRESET"), { code: "ECONNRESET" }));
          } else {
            this.#ended = true;
            this.readyState = "writeOnly";
            this.#emit("end");
            if (!this.destroyed && !this.#writing && this.#queue.length === 0) this.destroy();
          }
        },
      };
      this.#emit("connect");
      this.#pump();
    }, (err) => {
      this.connecting = false;
      if (!this.destroyed) this.destroy(Object.assign(new Error("connect " + err.message), { code: "ECONNREFUSED" }));
    });
    return this;
  }

  write(data: Uint8Array, a?: any, b?: any): boolean {
    const cb: Listener | undefined = typeof a === "function" ? a : b;
    if (this.destroyed || this.readyState === "closed" && !this.connecting) {
      const err = Object.assign(new Error(this.destroyed ? "Cannot call write after a stream was destroyed" : "This socket has been ended by the other party"), { code: this.destroyed ? "ERR_STREAM_DESTROYED" : "EPIPE" });
      if (cb) queueMicrotask(() => cb(err));
      return false;
    }
    this.#queue.push({ data: Uint8Array.from(data), cb });
    this.#pump();
    return true;
  }

  #pump() {
    if (this.#writing || this.destroyed || !this.#conn || this.#queue.length === 0) return;
    this.#writing = true;
    const item = this.#queue[0];
    this.#conn.writeFromPush(item.data).then(() => {
      this.#writing = false;
      if (this.destroyed) return;
      this.#queue.shift();
      item.cb?.(null);
      if (this.#ended && this.#queue.length === 0 && !this.destroyed) this.destroy();
      else this.#pump();
    }, (err) => {
      this.#writing = false;
      if (this.destroyed) return;
      this.destroy(Object.assign(new Error("write EPIPE"), { code: "EPIPE", cause: err }));
    });
  }

  end() {
    this.destroy();
    return this;
  }
  destroySoon() {
    this.destroy();
  }

  destroy(err?: Error) {
    if (this.destroyed) return this;
    this.destroyed = true;
    this.readyState = "closed";
    this.#conn?.closeQuietly();
    const waiting = this.#queue.splice(0);
    const sim = Sim.current!;
    sim.after(0.001, "socket.close", () => {
      for (const w of waiting) w.cb?.(err ?? Object.assign(new Error("Cannot call write after a stream was destroyed"), { code: "ERR_STREAM_DESTROYED" }));
      if (err) this.#emit("error", err);
      if (!this.#closed) {
        this.#closed = true;
        this.#emit("close", !!err);
      }
    });
    return this;
  }
}
