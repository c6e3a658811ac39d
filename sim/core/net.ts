// A simulated TCP network behind Deno.connect (and a simulated WebSocket behind globalThis.WebSocket).
// Bytes keep TCP's guarantees (in order, no loss, no duplication while the connection lives); everything else is up
// to the seed: segmentation, delays, short reads, partial writes, refusals, resets and half-closes at any byte,
// stalls and partitions.
import { Sim } from "./sim.ts";

// deno-lint-ignore-file no-explicit-any

export interface NetFaults {
  refuse: number;
  connectTimeout: number;
  /** Per transmitted segment. */
  reset: number;
  fin: number;
  stall: number;
  partition: number;
  /** Probability that a read returns fewer bytes than available. */
  shortRead: number;
  /** Probability that a write accepts fewer bytes than offered. */
  partialWrite: number;
  /** Probability that a write blocks for a while before being accepted. */
  backpressure: number;
}

export const NO_NET_FAULTS: NetFaults = { refuse: 0, connectTimeout: 0, reset: 0, fin: 0, stall: 0, partition: 0, shortRead: 0, partialWrite: 0, backpressure: 0 };

export interface ServerSide {
  onData(bytes: Uint8Array): void;
  onClose(reason: "fin" | "reset"): void;
}

export interface Dial {
  hostname: string;
  port: number;
  /** For web sockets. */
  url?: string;
}

export type Listener = (conn: Conn, dial: Dial) => ServerSide;

class SimNetError extends Error {
  constructor(name: string, message: string) {
    super(message);
    this.name = name;
  }
}

let connId = 0;
export function resetNet() {
  connId = 0;
}

/** One TCP connection, client and server ends. */
export class Conn {
  readonly id = ++connId;
  readonly sim: Sim;
  readonly net: SimNet;
  readonly dial: Dial;
  readonly latency: number;
  server!: ServerSide;
  openedAt = 0;

  // client end
  #rx: Uint8Array[] = [];
  #rxLength = 0;
  #rxEnd: "open" | "fin" | "reset" = "open";
  #pendingRead: { p: Uint8Array; resolve: (n: number | null) => void; reject: (err: unknown) => void } | null = null;
  clientClosed = false;
  #writeDead = false;
  #pendingWrites = new Set<(err: unknown) => void>();
  /** Push-mode receiver, used by web sockets. */
  push: { data: (b: Uint8Array) => void; close: (how: "fin" | "reset") => void } | null = null;

  // server end
  serverClosed = false;
  #serverNotified = false;
  #toServerAt = 0;
  #toClientAt = 0;
  /** Until when nothing gets through (partition or stall), per direction. */
  #heldUntil = 0;
  bytesToServer = 0;
  bytesToClient = 0;
  /** Bytes handed to the reading code. */
  bytesRead = 0;
  bytesWritten = 0;
  /** Whether any fault touched this connection. */
  harmed = false;

  constructor(net: SimNet, dial: Dial) {
    this.net = net;
    this.sim = net.sim;
    this.dial = dial;
    this.latency = this.sim.jitter("net.latency", 1, net.maxLatency);
  }

  get alive() {
    return !this.clientClosed && this.#rxEnd === "open" && !this.serverClosed;
  }

  //// CLIENT END (Deno.Conn) ////
  setNoDelay() {}
  setKeepAlive() {}

  read(p: Uint8Array): Promise<number | null> {
    if (this.clientClosed) return Promise.reject(new SimNetError("BadResource", "Bad resource ID"));
    if (this.#pendingRead) return Promise.reject(new SimNetError("Busy", "Resource is unavailable because it is in use"));
    if (p.byteLength === 0) return Promise.resolve(0);
    return new Promise((resolve, reject) => {
      this.#pendingRead = { p, resolve, reject };
      if (this.#rxLength > 0 || this.#rxEnd !== "open") this.sim.after(this.sim.jitter("net.read", 0, 0.05), "net.read", () => this.#serveRead());
    });
  }

  #serveRead() {
    const r = this.#pendingRead;
    if (!r) return;
    if (this.#rxLength > 0) {
      let n = Math.min(r.p.byteLength, this.#rxLength);
      if (n > 1 && this.sim.rng("net.short").bool(this.net.faults.shortRead) && !this.sim.options.calm) n = this.sim.rng("net.short").int(1, n);
      let o = 0;
      while (o < n) {
        const c = this.#rx[0];
        const k = Math.min(c.byteLength, n - o);
        r.p.set(c.subarray(0, k), o);
        o += k;
        if (k === c.byteLength) this.#rx.shift();
        else this.#rx[0] = c.subarray(k);
      }
      this.#rxLength -= n;
      this.bytesRead += n;
      this.#pendingRead = null;
      r.resolve(n);
    } else if (this.#rxEnd === "fin") {
      this.#pendingRead = null;
      r.resolve(null);
    } else if (this.#rxEnd === "reset") {
      this.#pendingRead = null;
      r.reject(new SimNetError("ConnectionReset", "Connection reset by peer (os error 104)"));
    }
  }

  write(p: Uint8Array): Promise<number> {
    if (this.clientClosed) return Promise.reject(new SimNetError("BadResource", "Bad resource ID"));
    if (this.#writeDead) return Promise.reject(new SimNetError("BrokenPipe", "Broken pipe (os error 32)"));
    if (p.byteLength === 0) return Promise.resolve(0);
    let n = p.byteLength;
    if (n > 1 && this.sim.rng("net.partial").bool(this.net.faults.partialWrite) && !this.sim.options.calm) n = this.sim.rng("net.partial").int(1, n);
    const bytes = p.slice(0, n);
    let delay = this.sim.jitter("net.write", 0, 0.2);
    if (this.sim.rng("net.bp").bool(this.net.faults.backpressure) && !this.sim.options.calm) delay += this.sim.rng("net.bp").range(1, 2000);
    return new Promise((resolve, reject) => {
      this.#pendingWrites.add(reject);
      this.sim.after(delay, "net.write", () => {
        if (!this.#pendingWrites.delete(reject)) return;
        this.bytesWritten += n;
        resolve(n);
        this.#transmitToServer(bytes);
      });
    });
  }

  close() {
    if (this.clientClosed) throw new SimNetError("BadResource", "Bad resource ID");
    this.clientClosed = true;
    this.net.breaks.push(this.sim.now);
    this.#failClient(new SimNetError("Interrupted", "operation canceled"));
    this.#transmitEndToServer("fin");
  }

  /** Used by web sockets: the bytes are queued at once and written in order. */
  sendFromPush(bytes: Uint8Array) {
    if (this.clientClosed || this.#writeDead) return;
    this.bytesWritten += bytes.byteLength;
    this.#transmitToServer(bytes);
  }

  /** Used by node sockets: resolves once the bytes were accepted. */
  async writeFromPush(bytes: Uint8Array): Promise<void> {
    let o = 0;
    while (o < bytes.byteLength) o += await this.write(bytes.subarray(o));
  }

  closeQuietly() {
    if (this.clientClosed) return;
    this.clientClosed = true;
    this.net.breaks.push(this.sim.now);
    this.#transmitEndToServer("fin");
  }

  #failClient(err: unknown) {
    const r = this.#pendingRead;
    this.#pendingRead = null;
    if (r) this.sim.after(0.001, "net.cancel", () => r.reject(err));
    for (const reject of this.#pendingWrites) this.sim.after(0.001, "net.cancel", () => reject(err));
    this.#pendingWrites.clear();
  }

  //// WIRE ////
  /** The stream to the server was cut: nothing written later arrives. */
  #cut = false;
  #arrival(previous: number): number {
    const s = this.sim;
    let at = s.now + this.latency + s.jitter("net.segment", 0, this.net.jitter);
    if (this.net.partitionedUntil > s.now) at = Math.max(at, this.net.partitionedUntil + s.jitter("net.heal", 0, 50));
    if (at < this.#heldUntil) at = this.#heldUntil;
    return at > previous ? at : previous;
  }

  /** Decides what befalls one segment; returns the number of bytes that still get through (or -1 for all). */
  #fate(n: number, dir: string): { deliver: number; then: "" | "reset" | "fin" } {
    const s = this.sim, f = this.net.faults;
    if (s.fault(`net.${dir}.reset`, f.reset)) {
      this.harmed = true;
      return { deliver: s.rng("net.cut").int(0, n), then: "reset" };
    }
    if (s.fault(`net.${dir}.fin`, f.fin)) {
      this.harmed = true;
      return { deliver: s.rng("net.cut").int(0, n), then: "fin" };
    }
    if (s.fault(`net.${dir}.stall`, f.stall)) {
      this.#heldUntil = s.now + s.rng("net.stall").range(100, 20000);
    }
    if (s.fault("net.partition", f.partition)) {
      this.net.partition(s.rng("net.partition").range(500, 40000));
    }
    return { deliver: n, then: "" };
  }

  #transmitToServer(bytes: Uint8Array) {
    if (this.serverClosed) {
      // the peer is gone: an RST comes back
      this.sim.after(this.latency, "net.rst", () => this.#endClient("reset"));
      return;
    }
    if (this.#cut) return;
    const fate = this.#fate(bytes.byteLength, "c2s");
    if (fate.then) {
      this.#cut = true;
      bytes = bytes.subarray(0, fate.deliver);
    }
    for (const segment of this.#segments(bytes)) {
      const at = this.#toServerAt = this.#arrival(this.#toServerAt);
      this.sim.at(at, "net.c2s", () => {
        if (this.serverClosed) return;
        this.bytesToServer += segment.byteLength;
        this.server.onData(segment);
      });
    }
    if (fate.then) this.#breakAt(this.#arrival(this.#toServerAt), fate.then === "fin" ? "fin" : "reset");
  }

  #breakAt(at: number, how: "fin" | "reset") {
    this.sim.at(at, "net.break", () => {
      this.#endServer(how);
      this.#endClient(how);
    });
  }

  #segments(bytes: Uint8Array): Uint8Array[] {
    const n = bytes.byteLength;
    if (n === 0) return [];
    const r = this.sim.rng("net.seg");
    if (this.sim.options.calm || n < 2 || !r.bool(this.net.segmentation)) return [bytes];
    const k = r.int(2, Math.min(6, n));
    const cuts = new Set<number>();
    for (let i = 0; i < k - 1; i++) cuts.add(r.int(1, n - 1));
    const out: Uint8Array[] = [];
    let o = 0;
    for (const c of [...cuts].sort((a, b) => a - b)) {
      out.push(bytes.subarray(o, c));
      o = c;
    }
    out.push(bytes.subarray(o));
    return out;
  }

  #transmitEndToServer(how: "fin" | "reset") {
    this.#toServerAt = this.#arrival(this.#toServerAt);
    this.sim.at(this.#toServerAt, "net.fin", () => this.#endServer(how));
  }

  #endServer(how: "fin" | "reset") {
    if (this.#serverNotified) return;
    this.#serverNotified = true;
    this.serverClosed = true;
    this.net.open.delete(this);
    this.net.breaks.push(this.sim.now);
    this.server.onClose(how);
  }

  #endClient(how: "fin" | "reset") {
    if (this.clientClosed || this.#rxEnd !== "open") return;
    this.#rxEnd = how;
    this.net.breaks.push(this.sim.now);
    if (how === "reset") {
      this.#writeDead = true;
      this.#rx = [];
      this.#rxLength = 0;
      const err = new SimNetError("ConnectionReset", "Connection reset by peer (os error 104)");
      for (const reject of this.#pendingWrites) this.sim.after(0.001, "net.cancel", () => reject(err));
      this.#pendingWrites.clear();
    }
    if (this.push) {
      this.push.close(how);
    } else this.#serveRead();
  }

  //// SERVER END ////
  /** Set by proxies: what is sent goes through this first. */
  encodeOut: ((bytes: Uint8Array) => Uint8Array) | null = null;

  send(bytes: Uint8Array) {
    this.sendRaw(this.encodeOut && bytes.byteLength ? this.encodeOut(bytes) : bytes);
  }

  sendRaw(bytes: Uint8Array) {
    if (this.serverClosed || bytes.byteLength === 0) return;
    bytes = bytes.slice();
    const fate = this.#fate(bytes.byteLength, "s2c");
    if (fate.then) bytes = bytes.subarray(0, fate.deliver);
    for (const segment of this.#segments(bytes)) {
      const at = this.#toClientAt = this.#arrival(this.#toClientAt);
      this.sim.at(at, "net.s2c", () => {
        if (this.clientClosed || this.#rxEnd !== "open") return;
        this.bytesToClient += segment.byteLength;
        if (this.push) {
          this.bytesRead += segment.byteLength;
          this.push.data(segment);
        }
        else {
          this.#rx.push(segment);
          this.#rxLength += segment.byteLength;
          this.#serveRead();
        }
      });
    }
    if (fate.then) {
      this.serverClosed = true;
      this.net.open.delete(this);
      this.net.breaks.push(this.sim.now);
      const at = this.#arrival(this.#toClientAt);
      this.sim.at(at, "net.break", () => {
        this.#endClient(fate.then as "fin" | "reset");
        if (!this.#serverNotified) {
          this.#serverNotified = true;
          this.server.onClose("reset");
        }
      });
    }
  }

  /** The server ends the connection; bytes already sent still arrive first (fin) or may be lost (reset). */
  serverEnd(how: "fin" | "reset") {
    if (this.serverClosed) return;
    this.serverClosed = true;
    this.#serverNotified = true;
    this.net.open.delete(this);
    this.net.breaks.push(this.sim.now);
    const at = how === "fin" ? this.#arrival(this.#toClientAt) : this.sim.now + this.latency;
    this.sim.at(at, "net.end", () => this.#endClient(how));
  }

  /** Both ends break now. */
  kill() {
    this.harmed = true;
    this.#endServer("reset");
    this.#endClient("reset");
  }
}

export class SimNet {
  readonly sim: Sim;
  faults: NetFaults;
  maxLatency = 120;
  jitter = 30;
  segmentation = 0.3;
  partitionedUntil = 0;
  readonly open = new Set<Conn>();
  #listeners: { match: (d: Dial) => boolean; listener: Listener }[] = [];
  connects = 0;
  conns: Conn[] = [];
  /** Times at which a connection ended or was broken, or could not be opened. */
  breaks: number[] = [];
  /** Told of each connection attempt, synchronously. */
  onDial?: (conn: Conn) => void;
  /** Dials that have neither succeeded nor failed. */
  dialing = 0;

  constructor(sim: Sim, faults: NetFaults) {
    this.sim = sim;
    this.faults = faults;
  }

  listen(match: (d: Dial) => boolean, listener: Listener) {
    this.#listeners.push({ match, listener });
  }

  partition(ms: number) {
    this.partitionedUntil = Math.max(this.partitionedUntil, this.sim.now + ms);
    // connections caught in a long partition time out
    if (ms > 15000) {
      for (const c of [...this.open]) {
        if (this.sim.rng("net.partition").bool(0.5)) {
          this.sim.after(ms * 0.9, "net.timeout", () => c.kill());
        }
      }
    }
  }

  #failDial(reject: (err: unknown) => void, err: unknown) {
    this.dialing--;
    this.breaks.push(this.sim.now);
    reject(err);
  }

  /** Connections whose client end is still open. */
  get clientOpen(): Conn[] {
    return this.conns.filter((c) => !c.clientClosed);
  }

  /** Opens a connection to whatever listens there. */
  dial(dial: Dial): Promise<Conn> {
    const s = this.sim;
    this.connects++;
    this.dialing++;
    const dialedAt = s.now;
    const l = this.#listeners.find((v) => v.match(dial));
    return new Promise((resolve, reject) => {
      const conn = new Conn(this, dial);
      this.onDial?.(conn);
      let d = conn.latency * 2 + s.jitter("net.connect", 0, 20);
      if (this.partitionedUntil > s.now) d += this.partitionedUntil - s.now;
      if (!l || s.fault("net.refuse", this.faults.refuse)) {
        s.after(d, "net.refused", () => this.#failDial(reject, new SimNetError("ConnectionRefused", "Connection refused (os error 111)")));
      } else if (s.fault("net.connectTimeout", this.faults.connectTimeout)) {
        s.after(s.rng("net.ct").range(5000, 60000), "net.timedout", () => this.#failDial(reject, new SimNetError("TimedOut", "Connection timed out (os error 110)")));
      } else {
        s.after(d, "net.connected", () => {
          this.dialing--;
          conn.openedAt = dialedAt;
          conn.server = l.listener(conn, dial);
          this.open.add(conn);
          this.conns.push(conn);
          resolve(conn);
        });
      }
    });
  }
}

let currentNet: SimNet | null = null;
export function setNet(net: SimNet | null) {
  currentNet = net;
}

export function currentNetwork(): SimNet | null {
  return currentNet;
}

export function installNet() {
  (Deno as any).connect = (o: { hostname: string; port: number }) => {
    if (!currentNet) return Promise.reject(new Error("no simulated network"));
    return currentNet.dial({ hostname: o.hostname, port: o.port });
  };

  class SimWebSocket extends EventTarget {
    static CONNECTING = 0;
    static OPEN = 1;
    static CLOSING = 2;
    static CLOSED = 3;
    readyState = 0;
    binaryType = "blob";
    #conn: Conn | null = null;
    readonly url: string;
    #closedEmitted = false;
    constructor(url: string, _protocols?: string | string[]) {
      super();
      this.url = url;
      if (!currentNet) throw new Error("no simulated network");
      const net = currentNet;
      const u = new URL(url);
      net.dial({ hostname: u.hostname, port: Number(u.port || (u.protocol === "wss:" ? 443 : 80)), url }).then((conn) => {
        if (this.readyState !== 0) {
          conn.close();
          return;
        }
        this.#conn = conn;
        conn.push = {
          data: (b) => this.dispatchEvent(new MessageEvent("message", { data: b.slice().buffer })),
          close: (how) => {
            if (this.readyState === 3) return;
            // the closing handshake takes a while
            if (how === "fin" && this.readyState === 1) {
              this.readyState = 2;
              net.sim.after(net.sim.jitter("ws.closing", 0, 60), "ws.closing", () => this.#end());
            } else this.#end();
          },
        };
        this.readyState = 1;
        this.dispatchEvent(new Event("open"));
      }, (err) => {
        if (this.readyState === 3) return;
        this.readyState = 3;
        const e: any = new Event("error");
        e.message = String(err);
        this.dispatchEvent(e);
        this.#emitClose();
      });
    }
    #emitClose() {
      if (this.#closedEmitted) return;
      this.#closedEmitted = true;
      this.dispatchEvent(new CloseEvent("close", { code: 1006 }));
    }
    #end() {
      if (this.readyState === 3) return;
      this.readyState = 3;
      this.#emitClose();
    }
    send(data: Uint8Array | ArrayBuffer) {
      if (this.readyState === 0) throw new DOMException("'readyState' not OPEN", "InvalidStateError");
      if (this.readyState !== 1) return;
      const b = data instanceof ArrayBuffer ? new Uint8Array(data) : data;
      const copy = b.slice();
      this.#conn!.sendFromPush(copy);
    }
    close(_code?: number, _reason?: string) {
      if (this.readyState >= 2) return;
      const wasOpen = this.readyState === 1;
      this.readyState = 2;
      const sim = currentNet!.sim;
      if (wasOpen) this.#conn!.closeQuietly();
      sim.after(sim.jitter("ws.close", 0.1, 40), "ws.close", () => {
        this.readyState = 3;
        this.#emitClose();
      });
    }
  }
  (globalThis as any).WebSocket = SimWebSocket;
}
