// World: pages whose clients live behind a worker. The worker is the repository's own worker.ts with real clients in it;
// the message channels between it and the pages are simulated: every message is cloned, and arrives later, in order.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import { captureLogs, makeNet, MT_RATES, MtServer, NET_RATES, NO_MT_FAULTS, NO_NET_FAULTS, publicKeys, swarm } from "./common.ts";
import { W } from "../server/wire.ts";
import { type AuthKey, boolTrue, ok, type RpcContext, type RpcReply, type MtSession } from "../server/mt.ts";
import { API_ID, userOf } from "./client_common.ts";
import { pattern } from "./cloud.ts";
import { Channel } from "../stubs/channel.ts";
import { Api } from "/repo/2_tl.ts";
import { Client } from "/repo/5_client.ts";
import { ClientDispatcher } from "/repo/client/6_client_dispatcher.ts";
import { ClientWorker } from "/repo/client/7_client_worker.ts";
import { serializeWorkerError } from "/repo/client/0_worker_error.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { StorageMemory } from "/repo/2_storage.ts";
import { Composer } from "/repo/client/5_composer.ts";
import * as errors from "/repo/4_errors.ts";
import { FileType, serializeFileId } from "/repo/3_types.ts";

// deno-lint-ignore-file no-explicit-any

type Bytes = Uint8Array<ArrayBuffer>;
const DCS = ["1", "2", "3", "4", "5"];
const KB = 1024;
let instances = 0;

/** What a settled call came to, comparable. */
export function describeError(err: any): string {
  if (!(err instanceof Error)) return "not an error: " + String(err);
  if (err instanceof errors.TelegramError) return `TelegramError ${err.errorCode} ${err.errorMessage}`;
  return `${err.name}: ${err.message}`;
}
const same = (a: Uint8Array, b: Uint8Array) => a.byteLength === b.byteLength && a.every((v, i) => v === b[i]);
export function equal(a: any, b: any): boolean {
  if (Object.is(a, b)) return true;
  if (typeof a !== "object" || typeof b !== "object" || a === null || b === null) return false;
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && same(a, b);
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && a.getTime() === b.getTime();
  if (a instanceof Map || b instanceof Map) return a instanceof Map && b instanceof Map && equal([...a], [...b]);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => k in b && equal(a[k], b[k]));
}

/** The worker's global scope, as seen by the pages connected to it. */
class SimWorker {
  listeners = new Map<string, ((e: any) => void)[]>();
  pages: { page: PagePort; channel: Channel }[] = [];
  constructor(readonly sim: Sim, readonly shared: boolean, readonly delay: () => number) {}

  /** Loads the worker's script. */
  async load() {
    const g = globalThis as any;
    const add = g.addEventListener;
    const put = (name: string, value: any) => Object.defineProperty(g, name, { value, configurable: true, writable: true });
    put("addEventListener", (type: string, fn: any) => {
      const l = this.listeners.get(type) ?? [];
      l.push(fn);
      this.listeners.set(type, l);
    });
    try {
      await import("/repo/worker.ts?" + instances++);
    } finally {
      put("addEventListener", add);
    }
    // only dedicated workers have it
    if (this.shared) delete g.postMessage;
    else put("postMessage", (message: any, transfer?: any) => this.pages[0].channel.toPage(message, transfer));
  }

  fire(type: string, event: any) {
    for (const fn of this.listeners.get(type) ?? []) fn(event);
  }

  /** What the page gets from `new Worker()` or from the port of `new SharedWorker()`. */
  connect(): PagePort {
    const page = new PagePort();
    if (!this.shared) {
      const channel = new Channel(this.sim, this.delay, (data) => this.fire("message", { data }), (data) => page.fire("message", { data }));
      this.pages.push({ page, channel });
      page.channel = channel;
    } else {
      const inner: any = { listeners: [] as any[], started: false, queue: [] as any[] };
      const port = {
        addEventListener: (type: string, fn: any) => type === "message" && inner.listeners.push(fn),
        start: () => {
          inner.started = true;
          for (const e of inner.queue.splice(0)) for (const fn of inner.listeners) fn(e);
        },
        postMessage: (message: any, transfer?: any) => channel.toPage(message, transfer),
      };
      const channel = new Channel(this.sim, this.delay, (data) => {
        if (!inner.started) inner.queue.push({ data });
        else for (const fn of inner.listeners) fn({ data });
      }, (data) => page.fire("message", { data }));
      this.pages.push({ page, channel });
      page.channel = channel;
      this.sim.after(this.delay(), "worker.connect", () => this.fire("connect", { ports: [port] }));
    }
    return page;
  }
}

/** The page's end. */
class PagePort {
  channel!: Channel;
  #listeners = new Map<string, ((e: any) => void)[]>();
  onFire: ((type: string, e: any) => void) | null = null;
  addEventListener(type: string, fn: any) {
    const l = this.#listeners.get(type) ?? [];
    l.push(fn);
    this.#listeners.set(type, l);
  }
  postMessage(message: any, transfer?: any) {
    this.channel.toWorker(message, transfer);
  }
  start() {}
  fire(type: string, e: any) {
    this.onFire?.(type, e);
    for (const fn of this.#listeners.get(type) ?? []) fn(e);
  }
}

export const PARITY: string[] = (() => {
  const own = (c: any) => new Set(Object.getOwnPropertyNames(c.prototype));
  const real = own(Client);
  // these are made of other methods
  const composed = ["constructor", "start", "signIn", "download", ...own(Composer)];
  return [...own(ClientDispatcher)].filter((m) => real.has(m) && !composed.includes(m) && typeof (Object.getOwnPropertyDescriptor(ClientDispatcher.prototype, m)!.value) === "function").sort();
})();

async function run(sim: Sim, focus: string, tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  if (cfg.bool(0.15)) return await parity(sim, info);
  const faulty = cfg.bool(0.4);
  const shared = cfg.bool(0.3);
  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, { ...NET_RATES, reset: 0.004, fin: 0.004 }, 0.3) : { ...NO_NET_FAULTS });
  const mtFaults = faulty ? swarm(sim, "mt", NO_MT_FAULTS, { ...MT_RATES, rpcInternal: 0 }, 0.3) : { ...NO_MT_FAULTS };
  mtFaults.rotateSalt = Math.min(mtFaults.rotateSalt, 0.02);
  const server = new MtServer(sim, net, { properties: {} }, mtFaults, handler);
  server.listenDirect();
  server.replyDelay = cfg.pick([[0, 5], [1, 60], [1, 400], [1, 3000]]);
  const hop = cfg.pick<[number, number]>([[0.01, 0.05], [0.01, 2], [0.01, 30], [1, 300]]);
  const pushEvery = cfg.pick([0, 40, 400, 3000]);
  const events = cfg.bool(0.2) ? cfg.int(1, 2) : 0;
  const pauses = cfg.bool(0.35) ? cfg.int(1, 3) : 0;
  const floods = cfg.bool(0.3);
  const slowHandlers = cfg.bool(0.4);
  info.config = { faulty, shared, hop, pushEvery, events, pauses, floods, slowHandlers, net: net.faults, mt: mtFaults };
  sim.probe(shared ? "worker.shared" : "worker.dedicated");

  //// ACCOUNTS AND SERVER ////
  interface Account {
    id: number;
    bot: boolean;
    dc: string;
    authString: string;
    base: number;
    log: any[];
  }
  const date = () => Math.floor(sim.trueTime() / 1000);
  const accounts: Account[] = [];
  /** Who the clients become in the end. */
  const spares: Account[] = [];
  const total = cfg.weighted([[1, 3], [2, 4], [3, 2]]);
  for (let i = 0; i < 2 * total; i++) {
    const a: Account = { id: 1000 * (i + 1), bot: cfg.bool(0.5), dc: cfg.pick(DCS), authString: "", base: 10000 * (i + 1), log: [] };
    const key = pattern(31 + i, 256);
    server.addKey(a.dc, key, { user: a.id } as any);
    const ops = new StorageOperations(new StorageMemory());
    await sim.until((async () => {
      await ops.initialize();
      await ops.auth.set({ apiId: API_ID, authKey: key as any, dc: a.dc as any, isBot: a.bot, userId: a.id });
      a.authString = await ops.exportAuthString(API_ID);
    })());
    (i < total ? accounts : spares).push(a);
  }
  const userTl = (a: Account) => userOf(a.id, { self: true, first_name: "A" + a.id, ...(a.bot ? { bot: true, bot_info_version: 1 } : {}) });
  const friend = (a: Account) => userOf(a.id + 5, { first_name: "F" + a.id });

  interface Call {
    token: string;
    client: PageClient;
    what: string;
    answers: string[];
    /** What the server answered so far. */
    given: string[];
    consults: { which: number; n: number; error: string; decision: string }[];
    startedAt: number;
    state: "pending" | "ok" | "error";
    settledAt: number;
    value?: any;
    error?: any;
    bytes?: Bytes;
    /** Something happened meanwhile that calls may fail from. */
    disturbed: string;
    /** Judged by whoever made it. */
    local?: boolean;
  }
  const calls = new Map<string, Call>();
  const files = new Map<string, Bytes>();
  const parts = new Map<string, Map<number, Bytes>>();
  const rng = sim.rng("srv.bridge");

  function handler(ctx: RpcContext): RpcReply {
    const fn = ctx.fn;
    const key = ctx.permKey as AuthKey & { user?: number };
    const a = [...accounts, ...spares].find((v) => v.id === key.user);
    sim.note(`RPC ${fn._} for ${a?.id} at ${ctx.dc}`);
    if (!a) return { error: [401, "AUTH_KEY_UNREGISTERED"] };
    if (fn._ === "auth.logOut") {
      delete key.user;
      return ok({ _: "auth.loggedOut" });
    }
    const known = (token: string): Call | null => {
      const c = calls.get(token);
      if (!c) {
        sim.violation("C21", "unknown-call", `${fn._} was executed with ${token}, which nobody called`);
        return null;
      }
      sim.check(c.client.account === a, "C21", "other-client", () => `${token} was called by the client of ${c.client.account.id} and executed for ${a.id}`);
      return c;
    };
    const answer = (c: Call): string => {
      const v = c.answers[c.given.length] ?? "ok";
      if (c.state !== "pending" && !c.disturbed && !faulty) sim.violation("C21", "after-settled", `${c.token} was executed again after its caller had got the outcome`);
      c.given.push(v);
      sim.note(`EXECUTED ${c.token} #${c.given.length}: ${v}`);
      return v;
    };
    const failed = (v: string): RpcReply => {
      const i = v.indexOf(" ");
      return { error: [Number(v.slice(0, i)), v.slice(i + 1)] };
    };
    switch (fn._) {
      case "updates.getState":
        return ok({ _: "updates.state", pts: a.base + a.log.length, qts: 5, date: date(), seq: 0, unread_count: 0 });
      case "updates.getDifference": {
        const missing = a.log.slice(Math.max(0, fn.pts - a.base));
        if (!missing.length) return ok({ _: "updates.differenceEmpty", date: date(), seq: 0 });
        return ok({ _: "updates.difference", new_messages: missing, new_encrypted_messages: [], other_updates: [], chats: [], users: [userTl(a), friend(a)], state: { _: "updates.state", pts: a.base + a.log.length, qts: 5, date: date(), seq: 0, unread_count: 0 } });
      }
      case "users.getUsers":
        return { result: new W().u32(0x1cb5c415).u32(1).raw(Api.serializeObject(userTl(a) as any)).done() };
      case "help.getDeepLinkInfo": {
        const c = known(fn.path);
        if (!c) return { error: [400, "METHOD_INVALID"] };
        const v = answer(c);
        return v === "ok" ? ok({ _: "help.deepLinkInfo", message: c.token + "!" }) : failed(v);
      }
      case "bots.getBotInfo": {
        const c = known(fn.lang_code);
        if (!c) return { error: [400, "METHOD_INVALID"] };
        const v = answer(c);
        return v === "ok" ? ok({ _: "bots.botInfo", name: c.token + " name", about: c.token + " about", description: c.token + " description" }) : failed(v);
      }
      case "upload.getFile": {
        const l = fn.location;
        const f = files.get(`${l.id}/${a.id}`);
        if (!f) {
          sim.violation("C21", "unknown-file", `${a.id} was made to request a part of a file that its page did not ask for`);
          return { error: [400, "LOCATION_INVALID"] };
        }
        return ok({ _: "upload.file", type: { _: "storage.filePartial" }, mtime: 1700000000, bytes: f.slice(Number(fn.offset), Number(fn.offset) + fn.limit) });
      }
      case "upload.saveFilePart":
      case "upload.saveBigFilePart": {
        const id = `${fn.file_id}/${a.id}`;
        let m = parts.get(id);
        if (!m) parts.set(id, m = new Map());
        m.set(fn.file_part, Uint8Array.from(fn.bytes));
        return { result: boolTrue() };
      }
      case "photos.uploadProfilePhoto": {
        const c = known(String(fn.file.name).replace(/\..*$/, ""));
        if (!c) return { error: [400, "METHOD_INVALID"] };
        const m = parts.get(`${fn.file.id}/${a.id}`) ?? new Map<number, Bytes>();
        const all = [...m].sort((x, y) => x[0] - y[0]).flatMap((v) => [...v[1]]);
        if (!same(Uint8Array.from(all), c.bytes!)) sim.violation("C21", "bytes", `${c.token} gave ${c.bytes!.byteLength} bytes to upload and ${all.length} other bytes arrived`);
        answer(c);
        return ok({ _: "photos.photo", photo: { _: "photoEmpty", id: 1n }, users: [] });
      }
    }
    return { error: [400, "METHOD_INVALID"] };
  }
  function happen(a: Account) {
    const id = a.log.length + 1;
    const message = { _: "message", id, peer_id: { _: "peerUser", user_id: BigInt(a.id + 5) }, date: date(), message: `for ${a.id}: ${id}` };
    a.log.push(message);
    const body = Api.serializeObject({ _: "updates", updates: [{ _: "updateNewMessage", message, pts: a.base + a.log.length, pts_count: 1 }], users: [userTl(a), friend(a)], chats: [], date: date(), seq: 0 } as any);
    for (const s of server.liveSessions((s: MtSession) => s.inited && !s.authKey.temp && s.withUpdates && (s.authKey as any).user === a.id && s.authKey.dc === a.dc)) server.push(s, body);
  }

  //// THE WORKER AND ITS PAGES ////
  const hops = sim.rng("hops");
  const worker = new SimWorker(sim, shared, () => hops.range(hop[0], hop[1]));
  const g = globalThis as any;
  const originalPost = Object.getOwnPropertyDescriptor(g, "postMessage");
  let over = false;
  try {
    await worker.load();
    await go();
  } finally {
    over = true;
    delete g.postMessage;
    if (originalPost) Object.defineProperty(g, "postMessage", originalPost);
  }

  interface Page {
    port: PagePort;
    worker: ClientWorker;
    clients: PageClient[];
  }
  interface PageClient {
    id: string;
    account: Account;
    page: Page;
    d: ClientDispatcher<any>;
    /** Updates as they arrived at the page, and how far handlers got. */
    arrived: any[];
    index: Map<any, number>;
    handled: number[];
    /** Errors of getMe(), without which updates can't be handled. */
    meFailures: number;
    getMes: Set<string>;
    up: boolean;
    changing: boolean;
    handlers: number;
    calls: Call[];
  }

  async function go() {
    const w = sim.rng("workload");
    const h = sim.rng("handlers");
    const pages: Page[] = [];
    const pageCount = shared ? cfg.int(1, 2) : 1;
    const all: PageClient[] = [];
    const byId = new Map<string, PageClient>();
    for (let i = 0; i < pageCount; i++) {
      const port = worker.connect();
      const p: Page = { port, worker: new ClientWorker(port as any), clients: [] };
      pages.push(p);
      // before the client sees it
      port.onFire = (type, e) => {
        if (type !== "message" || e.data?.type !== "response") return;
        const c = p.clients.find((v) => v.id === e.data.clientId);
        if (!c) return;
        if (e.data.id === "") {
          c.index.set(e.data.data, c.arrived.length);
          c.arrived.push(e.data.data);
        } else if (c.getMes.delete(e.data.id) && e.data.isError) c.meFailures++;
      };
      port.channel.onRequest = (m: any) => {
        if (m?.method === "getMe") p.clients.find((v) => v.id === m.clientId)?.getMes.add(m.id);
      };
      port.channel.onUpdate = (m: any) => {
        const c = p.clients.find((v) => v.id === m.clientId);
        const text = m.data?.message?.text;
        if (c && typeof text === "string" && text.startsWith("for ")) sim.check(text.startsWith(`for ${c.account.id}:`), "C21", "foreign-update", () => `the client of ${c.account.id} got "${text}"`);
      };
    }
    const params = (a: Account, r = w) => ({ authString: a.authString, publicKeys, appVersion: "1", deviceModel: "sim", systemVersion: "1", language: "en", systemLangCode: "en", ...(r.bool(0.5) ? { storage: "memory" } : {}), ...(r.bool(0.2) ? { guaranteeUpdateDelivery: true } : {}) } as any);

    //// calls ////
    let tokens = 0;
    const make = (client: PageClient, what: string, answers: string[] = []): Call => {
      const c: Call = { token: `t${++tokens}c${client.id}`, client, what, answers, given: [], consults: [], startedAt: sim.now, state: "pending", settledAt: -1, disturbed: !client.up || client.changing ? "not connected" : "" };
      calls.set(c.token, c);
      client.calls.push(c);
      return c;
    };
    const disturb = (client: PageClient, why: string) => {
      for (const c of client.calls) if (c.state === "pending") c.disturbed ||= why;
    };
    /** Follows a call to its end and judges what its caller got. */
    async function follow(c: Call, p: Promise<any>, expected: (v: any) => string) {
      let settled = 0;
      try {
        const v = await p;
        settled++;
        c.state = "ok";
        c.value = v;
      } catch (err) {
        settled++;
        c.state = "error";
        c.error = err;
      }
      c.settledAt = sim.now;
      if (over) return;
      sim.note(`${c.what} ${c.token}: ${c.state}${c.error ? " " + describeError(c.error) : ""}`);
      if (c.state === "ok") {
        const wrong = expected(c.value);
        if (wrong) sim.violation("C21", "wrong-result", `${c.what} ${c.token}: ${wrong}`);
        else if (c.answers.length && c.given.length) sim.check(c.given.includes("ok"), "C21", "wrong-result", () => `${c.what} ${c.token} came back although the server only answered ${c.given.join(", ")}`);
        sim.probe("ok." + c.what);
        return;
      }
      sim.probe("error." + c.what);
      judgeError(c);
    }
    function judgeError(c: Call) {
      const err = c.error;
      const text = describeError(err);
      if (c.disturbed || c.local) return;
      if (err instanceof errors.TelegramError) {
        const m = `${err.errorCode} ${err.errorMessage}`;
        if (!c.given.includes(m)) sim.violation("C21", "wrong-error", `${c.what} ${c.token} failed with ${m}, the server answered ${c.given.join(", ") || "nothing"}`);
        if (/^FLOOD_WAIT_/.test(err.errorMessage)) sim.check(err instanceof errors.FloodWait && err.seconds === Number(err.errorMessage.slice(11)), "C21", "wrong-error", () => `${m} isn't a FloodWait with its number of seconds`);
        const call: any = err.cause;
        if (c.what === "invoke") sim.check(call?._ === "help.getDeepLinkInfo" && call.path === c.token, "C21", "wrong-error", () => `the error of ${c.token} is that of ${call?._} ${call?.path}`);
        const last = c.consults.at(-1);
        if (last?.decision === "throw") sim.violation("C21", "wrong-error", `${c.token} failed with ${m} although a handler threw`);
      } else if (faulty && (err instanceof errors.ConnectionError || err instanceof errors.RetryError || err instanceof errors.TransportError)) {
        // what the network did to it
      } else if (c.consults.at(-1)?.decision === "throw") {
        sim.check(err instanceof errors.AccessError && err.message === "no: " + c.token, "C21", "wrong-error", () => `a handler threw an AccessError and ${c.token} failed with ${text}`);
      } else sim.violation("C21", "wrong-error", `${c.what} ${c.token} failed with ${text}, the server answered ${c.given.join(", ") || "nothing"}`);
    }
    const plan = (): string[] => {
      const out: string[] = [];
      while (w.bool(0.35) && out.length < 4) out.push(w.pick(["400 PEER_ID_INVALID", "500 SOMETHING_FAILED", "403 CHAT_WRITE_FORBIDDEN", "400 A_NEW_ERROR", ...(floods ? ["420 FLOOD_WAIT_2", "420 FLOOD_WAIT_30"] : [])]));
      return out;
    };
    const nothing = () => "";
    const ops: Record<string, (c: PageClient) => Promise<void>> = {
      async invoke(client) {
        const c = make(client, "invoke", plan());
        await follow(c, client.d.invoke({ _: "help.getDeepLinkInfo", path: c.token }) as any, (v) => v?.message === c.token + "!" ? "" : `got ${v?.message}`);
      },
      async info(client) {
        const [method, field] = w.pick([["getMyName", "name"], ["getMyDescription", "description"], ["getMyShortDescription", "about"]]);
        const c = make(client, method, client.account.bot ? plan() : []);
        const p = (client.d as any)[method]({ languageCode: c.token });
        if (client.account.bot) return await follow(c, p, (v) => v === `${c.token} ${field}` ? "" : `got ${v}`);
        c.local = true;
        await follow(c, p, (v) => `got ${v}, it is for bots only`);
        if (!c.disturbed) sim.check(c.error instanceof errors.InputError && c.error.message.startsWith(method), "C21", "wrong-error", () => `${method} of a user failed with ${describeError(c.error)}`);
      },
      async me(client) {
        const c = make(client, "getMe");
        await follow(c, client.d.getMe(), (v) => v?.id === client.account.id ? "" : `got ${v?.id}, this is the client of ${client.account.id}`);
      },
      async uncloneable(client) {
        const c = make(client, "uncloneable");
        const before = client.calls.length;
        c.local = true;
        await follow(c, client.d.getMyName({ languageCode: c.token, extra: () => 1 } as any), (v) => `got ${v}`);
        void before;
      },
      async raw(client) {
        // bytes within a larger buffer
        const big = pattern(tokens + 7, 900);
        const from = w.int(0, 300), n = w.int(0, 512);
        const bytes = big.subarray(from, from + n);
        const id = BigInt(++tokens + 50000);
        const c = make(client, "raw");
        await follow(c, client.d.invoke({ _: "upload.saveFilePart", file_id: id, file_part: 0, bytes } as any) as any, (v) => v === true ? "" : `got ${v}`);
        sim.check(bytes.byteLength === n && same(bytes, pattern(tokensOf(id) + 7, 900).subarray(from, from + n)), "C21", "taken", () => `the page's bytes were taken away from it`);
        const got = parts.get(`${id}/${client.account.id}`)?.get(0);
        if (c.state === "ok" && !(got && same(got, bytes))) sim.violation("C21", "bytes", `${n} bytes were passed and ${got?.byteLength} other bytes arrived`);
      },
      async download(client) {
        const size = w.pick([0, 1, w.int(1, 3000), 4 * KB, 8 * KB, w.int(1, 40000)]);
        const id = BigInt(++tokens + 90000);
        const f = pattern(tokens, size);
        files.set(`${id}/${client.account.id}`, f);
        const fileId = serializeFileId({ dcId: Number(client.account.dc), type: FileType.Document, fileReference: new Uint8Array([1]), location: { type: "common", id, accessHash: 5n } } as any);
        const chunkSize = w.pick([4 * KB, 8 * KB, 64 * KB]);
        const c = make(client, "download");
        const abort = w.bool(0.15) ? new AbortController() : null;
        const offset = w.bool(0.2) ? 4 * KB : 0;
        if (abort) sim.after(w.range(0, 3000), "user.abort", () => abort.abort());
        let abortedAt = -1, chunksAfter = 0;
        abort?.signal.addEventListener("abort", () => abortedAt = sim.now);
        if (abort) c.local = true;
        await follow(c, (async () => {
          const got: number[] = [];
          for await (const chunk of client.d.download(fileId, { chunkSize, offset, ...(abort ? { signal: abort.signal } : {}) })) {
            if (abortedAt >= 0) chunksAfter++;
            got.push(...chunk);
          }
          return Uint8Array.from(got);
        })(), (v) => same(v, f.subarray(offset)) ? "" : `${v.byteLength} other bytes than the file's ${f.byteLength} from ${offset}`);
        if (chunksAfter > 1) sim.violation("C21", "not-aborted", `${chunksAfter} chunks came after the download was aborted`);
        if (abort && !c.disturbed && !faulty && c.state === "error") sim.check(c.error?.name === "AbortError", "C21", "wrong-error", () => `an aborted download failed with ${describeError(c.error)}`);
      },
      async upload(client) {
        const c = make(client, "upload");
        const n = w.pick([1, w.int(1, 3000), w.int(1, 30000)]);
        c.bytes = pattern(tokens * 3, n);
        let file: any = Uint8Array.from(c.bytes);
        const stream = w.bool(0.6);
        if (stream) {
          const size = w.int(1, 5000);
          let at = 0;
          const bytes = c.bytes;
          const pace = w.pick([0, 5, 100]);
          file = new ReadableStream({
            async pull(controller) {
              if (pace) await sim.sleep(pace, "page.stream");
              if (at >= bytes.byteLength) return controller.close();
              controller.enqueue(bytes.slice(at, at + size));
              at += size;
            },
          });
        }
        await follow(c, client.d.updateProfilePhoto(file, { fileName: c.token + ".jpg" } as any), nothing);
        if (!stream) sim.check(same(file, c.bytes), "C21", "taken", () => `the page's bytes were taken away from it`);
        if (c.state === "ok") sim.check(c.given.length > 0, "C21", "wrong-result", () => `an upload came back that did not happen`);
      },
      async again(client) {
        // a client of that name exists
        let err: any;
        try {
          await client.page.worker.createClient(client.id, params(client.account));
        } catch (e) {
          err = e;
        }
        sim.check(err instanceof errors.InputError, "C21", "created-twice", () => `creating ${client.id} again came to ${err ? describeError(err) : "a second client"}`);
      },
    };
    const tokensOf = (id: bigint) => Number(id) - 50000 - 1;

    //// handlers ////
    function attach(client: PageClient) {
      const stages = w.int(1, 2);
      for (let s = 0; s < stages; s++) {
        client.d.use(async (ctx: any, next: any) => {
          if (over) return;
          if (s === 0) {
            const i = client.index.get(ctx.update);
            if (i === undefined) sim.violation("C21", "unknown-update", `${client.id} was shown an update that did not arrive for it`);
            else {
              const last = client.handled.at(-1) ?? -1;
              if (client.handled.includes(i)) sim.violation("C21", "update-twice", `update ${i} of ${client.id} was handled twice`);
              else if (i < last) sim.violation("C21", "update-order", `update ${i} of ${client.id} (${ctx.update.type ?? ""}) reached its handler after update ${last}`);
              client.handled.push(i);
              sim.probe("update." + ctx.update.type);
            }
            if (ctx.me) sim.check(ctx.me.id === client.account.id, "C21", "wrong-me", () => `a handler of the client of ${client.account.id} was told that it is ${ctx.me.id}`);
          }
          if (slowHandlers && h.bool(0.3)) await sim.sleep(h.range(0, 2000), "page.handler");
          if (h.bool(0.05)) throw Object.assign(new Error("a handler failed"), { expected: true });
          await next();
          if (over) return;
          if (ctx.update.type === "message" && h.bool(0.03)) sim.check(ctx.client === client.d, "C21", "wrong-client", () => `a handler got the wrong client`);
        });
      }
      const n = w.pick([0, 0, 1, 1, 2, 3]);
      for (let i = 0; i < n; i++) {
        client.handlers++;
        client.d.invoke.use(async ({ error, function: fn, n, client: on }: any, next: any) => {
          const c = calls.get(fn.path ?? fn.lang_code ?? "");
          if (!c || over) return next();
          sim.check(c.client === client && on === client.d, "C21", "other-client", () => `a handler of ${client.id} was asked about a call of ${c.client.id}`);
          const text = error instanceof errors.TelegramError ? `${error.errorCode} ${error.errorMessage}` : describeError(error);
          const decision = h.weighted([["next", 4], ["next twice", 0.5], ["retry", 2], ["refuse", 1], ["wait", 1.5], ["throw", 0.4]]);
          if (i > 0 && !c.consults.some((v) => v.which === i - 1 && v.n === n && v.decision.startsWith("next"))) sim.violation("C21", "asked-unasked", `handler ${i} was asked about failure ${n} of ${c.token}, and the one before it had not passed it on`);
          const before = c.consults.filter((v) => v.which === i);
          sim.note(`HANDLER ${i} of ${client.id} asked about ${c.token} n=${n} (${text}): ${decision}`);
          if (before.some((v) => v.n === n)) sim.violation("C21", "asked-twice", `handler ${i} was asked twice about failure ${n} of ${c.token} (${text})`);
          else if (before.length && before.at(-1)!.n > n) sim.violation("C21", "asked-back", `handler ${i} was asked about failure ${n} of ${c.token} after failure ${before.at(-1)!.n}`);
          if (error instanceof errors.TelegramError && !c.given.includes(text) && !faulty) sim.violation("C21", "wrong-error", `a handler was asked about ${text} of ${c.token}, the server answered ${c.given.join(", ")}`);
          c.consults.push({ which: i, n, error: text, decision });
          switch (decision) {
            case "retry":
              return true;
            case "wait":
              await sim.sleep(h.range(0, 6000), "page.wait");
              return true;
            case "refuse":
              return false;
            case "throw":
              throw new errors.AccessError("no: " + c.token);
            case "next twice": {
              const first = await next();
              const again = await next();
              sim.check(first === again, "C21", "asked-twice", () => `handler ${i} passed failure ${n} of ${c.token} on twice and was told ${first} and ${again}`);
              return again;
            }
            default:
              return next();
          }
        });
      }
    }

    //// lives of the clients ////
    async function create(i: number) {
      const a = accounts[i];
      const page = pages[i % pages.length];
      const id = "k" + i;
      const client: PageClient = { id, account: a, page, d: undefined as any, arrived: [], index: new Map(), handled: [], meFailures: 0, getMes: new Set(), up: false, changing: true, handlers: 0, calls: [] };
      page.clients.push(client);
      byId.set(id, client);
      if (w.bool(0.3)) {
        client.d = page.worker.getClient(id);
        // it isn't known to the worker yet
        let err: any;
        try {
          await client.d.getMe();
        } catch (e) {
          err = e;
        }
        sim.check(err instanceof errors.InputError || errorEvents > 0, "C21", "not-created", () => `a call to a client that was not created came to ${err ? describeError(err) : "a result"}`);
        attach(client);
        for (;;) {
          try {
            await client.d.init(params(a));
            break;
          } catch (e) {
            if (!errorEvents) sim.violation("C21", "not-created", `creating ${id} failed: ${describeError(e)}`);
            if (describeError(e) === "InputError: Client already initialized.") break;
            await sim.sleep(1000, "page.retry");
          }
        }
      } else {
        for (;;) {
          try {
            client.d = await page.worker.createClient(id, params(a));
            break;
          } catch (e) {
            if (!errorEvents) sim.violation("C21", "not-created", `creating ${id} failed: ${describeError(e)}`);
            if (describeError(e) === "InputError: Client already initialized.") {
              client.d = page.worker.getClient(id);
              break;
            }
            await sim.sleep(1000, "page.retry");
          }
        }
        attach(client);
      }
      await bringUp(client);
      all.push(client);
    }
    async function bringUp(client: PageClient) {
      while (!over) {
        try {
          await (w.bool(0.5) ? client.d.start() : client.d.connect());
          break;
        } catch (e) {
          sim.note(`connecting ${client.id} failed: ${describeError(e)}`);
          if (!faulty && !errorEvents) sim.violation("C21", "not-connected", `connecting ${client.id} failed: ${describeError(e)}`);
          await sim.sleep(2000, "page.retry");
          // a disconnect() whose outcome the page didn't learn about, because of an error of the worker, took effect; the client can't be used any more
          if (errorEvents && describeError(e) === "InputError: Client not initialized.") {
            sim.probe("page.gave.up");
            return;
          }
        }
      }
      client.up = true;
      client.changing = false;
    }
    async function pause(client: PageClient) {
      client.changing = true;
      client.up = false;
      disturb(client, "disconnected");
      sim.note(`${client.id} disconnects`);
      const twice = w.bool(0.2);
      const both = [client.d.disconnect(), ...(twice ? [client.d.disconnect()] : [])];
      const results = await Promise.allSettled(twice && w.bool(0.5) ? [both[0]] : both);
      both.forEach((p) => p.catch(() => {}));
      for (const r of results) if (r.status === "rejected") sim.note(`disconnecting failed: ${describeError(r.reason)}`);
      const at = sim.now;
      if (w.bool(0.5)) {
        await sim.sleep(w.range(0, 200), "page.pause");
      } else {
        await sim.sleep(w.range(20000, 40000), "page.pause");
        for (const c of client.calls) {
          // files are tried for longer
          if (c.state === "pending" && c.what !== "download" && c.what !== "upload" && c.startedAt < at - 1 && results[0].status === "fulfilled" && !c.disturbed.startsWith("worker")) sim.violation("C21", "not-released", `${c.what} ${c.token} has not ended ${((sim.now - at) / 1000).toFixed(0)} s after disconnect()`);
        }
      }
      while (!over) {
        try {
          await client.d.init(params(client.account));
          break;
        } catch (e) {
          if (describeError(e) === "InputError: Client already initialized.") {
            // disconnecting had failed
            await client.d.disconnect().catch(() => {});
          } else if (!errorEvents) sim.violation("C21", "not-created", `initializing ${client.id} again failed: ${describeError(e)}`);
          await sim.sleep(1000, "page.retry");
        }
      }
      await bringUp(client);
      if (client.up) sim.note(`${client.id} is back`);
    }

    //// the run ////
    let errorEvents = 0;
    let busy = 0;
    const spawn = (p: Promise<void>) => {
      busy++;
      p.catch((err) => {
        if (!over) {
          sim.note("harness: " + (err?.stack ?? err));
          throw err;
        }
      }).finally(() => busy--);
    };
    for (let i = 0; i < accounts.length; i++) spawn(create(i));
    const count = w.int(6, tier === "thorough" ? 50 : 30);
    const span = w.pick([200, 3000, 30000]);
    let started = 0;
    spawn((async () => {
      while (started < count && !over) {
        started++;
        const keep = sim.op();
        if (all.length) {
          const client = w.pick(all);
          const what = w.weighted([["invoke", 9], ["info", 4], ["me", 1], ["raw", 2], ["download", 2], ["upload", 2], ["uncloneable", 0.5], ["again", 0.3]]);
          if (keep) spawn(ops[what](client));
        } else started -= w.bool(0.5) ? 1 : 0;
        await sim.sleep(w.pick([0.01, w.range(0, 20), w.range(0, span / 5), w.range(0, span / 2)]), "page.pause");
      }
    })());
    if (pushEvery) {
      (async () => {
        let n = 0;
        while (!over && n++ < 200) {
          await sim.sleep(rng.range(0, pushEvery * 2), "srv.happen");
          happen(rng.pick(accounts));
        }
      })();
    }
    for (let i = 0; i < pauses; i++) {
      spawn((async () => {
        await sim.sleep(w.range(100, span * 2), "page.pause");
        const client = all.length ? w.pick(all) : null;
        if (!client || client.changing || !sim.fault("page.disconnect", 1)) return;
        await pause(client);
      })());
    }
    for (let i = 0; i < events; i++) {
      spawn((async () => {
        await sim.sleep(w.range(100, span * 2), "worker.error");
        if (!sim.fault("worker.error", 1)) return;
        errorEvents++;
        const page = w.pick(pages);
        const message = w.bool(0.4);
        const error = message ? null : new RangeError("out of something");
        const pending = page.clients.flatMap((v) => v.calls.filter((c) => c.state === "pending"));
        for (const v of page.clients) {
          disturb(v, "worker error");
          if (v.getMes.size) v.meFailures++;
        }
        sim.note(`the worker reports ${message ? "a message that can't be read" : "an error"}`);
        page.port.fire(message ? "messageerror" : "error", message ? new Event("messageerror") : new ErrorEvent("error", { error, message: "out of something" }));
        await sim.sleep(1, "worker.error");
        for (const c of pending) {
          // these go on by themselves
          if (c.what === "invoke" && c.client.handlers) continue;
          if (c.state === "pending") sim.violation("C21", "not-told", `${c.what} ${c.token} was pending when the worker failed, and its caller was not told`);
          else if (error && c.settledAt >= sim.now - 1 && c.state === "error" && c.error === error) sim.probe("told");
        }
      })());
    }
    await sim.run(() => busy === 0, 900000);

    //// heal ////
    sim.faultsEnabled = false;
    net.faults = { ...NO_NET_FAULTS, shortRead: net.faults.shortRead, partialWrite: net.faults.partialWrite };
    net.partitionedUntil = 0;
    server.faults = { ...NO_MT_FAULTS };
    sim.note("---- healed ----");
    await sim.run(() => busy === 0, sim.now + 600000);
    if (busy) {
      for (const c of calls.values()) if (c.state === "pending") sim.violation("C21", "never-settled", `${c.what} ${c.token} has not ended 10 minutes after the last fault (${c.given.length} answers, ${c.consults.length} questions to handlers)`);
      sim.check([...calls.values()].some((c) => c.state === "pending"), "C21", "never-settled", () => `a client has not come back 10 minutes after the last fault`);
      over = true;
      return;
    }
    await sim.run(() => false, sim.now + (faulty ? 100000 : 3000));
    // everything works, and what the clients show now is complete
    for (const client of all) if (client.up) spawn(ops.invoke(client));
    await sim.run(() => busy === 0, sim.now + 200000);
    if (busy) sim.violation("C21", "never-settled", `a call has not ended within 200 s on a healthy network`);
    // updates wait for what is known about the account
    await sim.run(() => all.every((v) => !v.getMes.size), sim.now + 100000);
    await sim.run(() => false, sim.now + 1000);
    for (const client of all) {
      if (!client.up || client.meFailures || client.getMes.size) continue;
      const missing = client.arrived.findIndex((_, i) => !client.handled.includes(i));
      if (missing >= 0) sim.violation("C21", "update-lost", `update ${missing} of ${client.id} arrived and was not handled`);
      for (let i = 0; i < client.arrived.length; i++) {
        const original = client.page.port.channel.originals.get(client.arrived[i]);
        if (original && !equal(original, client.arrived[i])) sim.violation("C21", "update-changed", `update ${i} of ${client.id} was changed on the way`);
      }
    }
    for (const c of calls.values()) {
      if (faulty || c.disturbed || c.client.handlers === 0 || c.what !== "invoke" || c.state === "pending") continue;
      const failures = c.given.filter((v) => v !== "ok" && v !== "420 FLOOD_WAIT_2").length;
      const asked = c.consults.filter((v) => v.which === 0).length;
      if (asked !== failures) sim.violation("C21", "not-asked", `${c.token} failed ${failures} time(s) and the first handler was asked ${asked} time(s)`);
      for (const v of c.consults) {
        if (v.decision.startsWith("next") && v.which + 1 < c.client.handlers && !c.consults.some((u) => u.which === v.which + 1 && u.n === v.n)) sim.violation("C21", "not-asked", `handler ${v.which} passed failure ${v.n} of ${c.token} on, and the next one was not asked`);
      }
    }
    // a client becomes somebody else
    const turning = all.find((v) => v.up);
    if (!faulty && !errorEvents && turning && sim.rng("turn").bool(0.5)) {
      const spare = spares[accounts.indexOf(turning.account)], how = sim.rng("turn").pick(["init", "import", "sign-out", "sign-out import"]);
      sim.note(`${turning.id} becomes ${spare.id}: ${how}`);
      let done = false;
      spawn((async () => {
        disturb(turning, "becomes somebody else");
        turning.changing = true;
        if (how.startsWith("sign-out")) await turning.d.signOut();
        await turning.d.disconnect();
        // what is still being shown is about the former one
        await sim.sleep(20000, "page.pause");
        turning.account = spare;
        const p = params(spare);
        if (how.endsWith("import")) {
          delete p.authString;
          await turning.d.init(p);
          await turning.d.importAuthString(spare.authString);
        } else await turning.d.init(p);
        await turning.d.start();
        turning.changing = false;
        await sim.sleep(2000, "page.pause");
        const before = turning.handled.length;
        happen(spare);
        await sim.sleep(15000, "page.pause");
        sim.check(turning.handled.length > before, "C21", "update-lost", () => `${turning.id} became ${spare.id} and was not shown an update of it`);
        sim.probe("turned." + how);
        done = true;
      })());
      await sim.run(() => busy === 0, sim.now + 300000);
      sim.check(done, "C21", "never-settled", () => `${turning.id} has not become ${spare.id} (${how})`);
    }
    // nothing more is asked or executed
    over = true;
    for (const client of all) client.d.disconnect().catch(() => {});
    await sim.run(() => false, sim.now + 5000);
    void focus;
  }
}

/** The page's half alone, against a worker that only records what it is asked and answers in any order: every method. */
async function parity(sim: Sim, info: Record<string, unknown>) {
  const w = sim.rng("workload");
  info.config = { parity: true };
  sim.probe("worker.recorder");
  const hops = sim.rng("hops");
  const page = new PagePort();
  interface Asked {
    method: string;
    args: any[];
    answered: boolean;
  }
  const asked: Asked[] = [];
  const delay = w.pick([1, 50, 2000]);
  let answers = 0;
  const results = new Map<string, { value?: any; error?: Error }>();
  const inits: { id: string; params: any }[] = [];
  let refuse = 0;
  const channel: Channel = new Channel(sim, () => hops.range(0.01, 5), (m) => {
    if (m.type !== "request") return;
    if (m.method === "initClient") {
      inits.push({ id: m.clientId, params: m.args[0] });
      if (refuse-- > 0) return channel.toPage({ type: "response", clientId: m.clientId, id: m.id, isError: true, data: serializeWorkerError(new errors.InputError("Could not initialize client.")) });
      return channel.toPage({ type: "response", clientId: m.clientId, id: m.id, isError: false, data: null });
    }
    const a = { method: m.method, args: m.args, answered: false };
    asked.push(a);
    const r = results.get(m.args.find((v: any) => v?.token)?.token ?? m.method);
    sim.after(w.range(0, delay), "worker.answer", () => {
      answers++;
      if (!r) {
        sim.violation("C21", "wrong-arguments", `${m.method} was asked for with arguments nobody passed: ${JSON.stringify(m.args, (_, v) => typeof v === "bigint" ? String(v) : v)?.slice(0, 200)}`);
        return;
      }
      channel.toPage(r.error ? { type: "response", clientId: m.clientId, id: m.id, isError: true, data: serializeWorkerError(r.error) } : { type: "response", clientId: m.clientId, id: m.id, isError: false, data: r.value });
    });
  }, (data) => page.fire("message", { data }));
  page.channel = channel;
  const workerClient = new ClientWorker(page as any);
  const ids = ["a", "b"];
  const clients: any[] = [];
  for (const id of ids) {
    refuse = w.pick([0, 0, 1, 2]);
    const separately = w.bool(0.5);
    if (separately) clients.push(workerClient.getClient(id));
    for (let attempt = refuse; attempt >= 0; attempt--) {
      const p = { apiId: attempt + 1, appVersion: id };
      let err: any;
      try {
        if (separately) await sim.until(clients.at(-1).init(p));
        else clients.push(await sim.until(workerClient.createClient(id, p)));
      } catch (e) {
        err = e;
      }
      sim.check(attempt ? err instanceof errors.InputError && err.message === "Could not initialize client." : !err, "C21", "not-created", () => `creating ${id} came to ${err ? describeError(err) : "a client"}, the worker ${attempt ? "refused" : "accepted"}`);
      sim.check(inits.at(-1)?.id === id && equal(inits.at(-1)!.params, p), "C21", "not-created", () => `the worker was not asked to create ${id} as requested`);
    }
  }
  let pending = 0;
  const failures: (() => Error)[] = [
    () => new errors.InputError("i" + answers),
    () => new errors.AccessError("a" + answers),
    () => new errors.ConnectionError("c" + answers),
    () => new errors.TransportError(404),
    () => new errors.TLError("t", ["x", "y"]),
    () => new errors.RetryError("r" + answers),
    () => new errors.PublicKeyError("k" + answers),
    () => errors.constructTelegramError({ _: "rpc_error", error_code: 420, error_message: "FLOOD_WAIT_77" } as any, { _: "ping", ping_id: 5n }),
    () => errors.constructTelegramError({ _: "rpc_error", error_code: 303, error_message: "FILE_MIGRATE_3" } as any, { _: "ping", ping_id: 5n }),
    () => errors.constructTelegramError({ _: "rpc_error", error_code: 400, error_message: "PEER_ID_INVALID" } as any, { _: "ping", ping_id: 5n }),
    () => errors.constructTelegramError({ _: "rpc_error", error_code: 400, error_message: "BRAND_NEW" } as any, undefined),
  ];
  const values = [() => undefined, () => null, () => true, () => 0, () => "x", () => [1, { a: 2n }], () => ({ b: new Uint8Array([1, 2, 3]), at: new Date(5000) }), () => []];
  const argument = (token: string, i: number): any => {
    const extra = w.pick([() => ({}), () => ({ list: [1, null, "x"], n: { deep: [new Uint8Array([4, 5])] } }), () => ({ big: 12345678901234567890n, u: undefined }), () => ({ at: new Date(1000) })])();
    return { token: `${token}/${i}`, ...extra };
  };
  const names = PARITY.filter((m) => m !== "disconnect");
  const count = w.int(10, 60);
  for (let k = 0; k < count; k++) {
    const client = w.pick(clients);
    const method = w.pick(names);
    if (!sim.op()) continue;
    const token = `${method}-${k}`;
    const arity = (ClientDispatcher.prototype as any)[method].length;
    const args = Array.from({ length: w.bool(0.7) ? arity : w.int(0, arity) }, (_, i) => w.bool(0.15) ? w.pick([i * 7, "s" + i, false]) : argument(token, i));
    // something tells the calls apart
    if (args.length && !args.some((v) => v?.token)) args[0] = argument(token, 0);
    const outcome = w.bool(0.3) ? { error: w.pick(failures)() } : { value: w.pick(values)() };
    const key = args.find((v) => v?.token)?.token ?? method;
    if (!results.has(key)) results.set(key, outcome);
    const expect = results.get(key)!;
    pending++;
    (async () => {
      let got: any;
      try {
        got = { value: await client[method](...args) };
      } catch (err) {
        got = { error: err };
      }
      pending--;
      const q = asked.find((v) => (v.args.find((x: any) => x?.token)?.token ?? v.method) === key && !v.answered && v.method === method);
      if (!q) {
        sim.violation("C21", "wrong-method", `${method} was called and the worker was asked for ${asked.find((v) => (v.args.find((x: any) => x?.token)?.token ?? "") === key)?.method ?? "nothing like it"}`);
        return;
      }
      q.answered = true;
      const trimmed = (a: any[]) => {
        const out = [...a];
        while (out.length && out.at(-1) === undefined) out.pop();
        return out;
      };
      sim.check(equal(trimmed(q.args), trimmed(args)), "C21", "wrong-arguments", () => `${method} arrived with other arguments than it was called with`);
      if ("error" in got !== "error" in expect) sim.violation("C21", "wrong-result", `${method}: the worker answered with ${"error" in expect ? "an error" : "a result"} and the caller got ${"error" in got ? describeError(got.error) : "a result"}`);
      else if ("error" in got) {
        const e: any = expect.error, f: any = got.error;
        sim.check(e.constructor === f?.constructor && e.message === f.message && e.name === f.name && equal({ ...e, cause: undefined }, { ...f, cause: undefined }) && equal(e.cause, f.cause) && (!(e instanceof errors.TLError) || equal(e.path, f.path)), "C21", "wrong-error", () => `${method} failed with ${e.constructor.name} ${describeError(e)}, and the caller got ${f?.constructor?.name} ${describeError(f)}`);
      } else {
        const empty = got.value === undefined; // what returns nothing
        sim.check(empty || equal(got.value, expect.value), "C21", "wrong-result", () => `${method} came to something else than the worker answered`);
      }
      sim.probe("parity");
    })();
    await sim.until(sim.sleep(w.pick([0.01, 3, 100]), "page.pause"));
  }
  await sim.run(() => pending === 0, sim.now + 600000);
  sim.check(pending === 0, "C21", "never-settled", () => `${pending} calls were never settled`);
}

export default {
  unhandled: () => "-",
  stuck: (focus) => focus,
  components: {
    real: ["worker.ts", "ClientReceiver", "ClientWorker, ClientDispatcher, Composer", "Client and everything below it, in the worker"],
    stub: ["message channels between page and worker (structured clone, transfer, delays)", "Telegram's data centres", "network sockets", "clock, timers, randomness"],
  },
  run,
} as World;
