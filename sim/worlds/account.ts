// World: a program that signs in, restarts, moves between data centres, signs out and signs in as somebody else, and
// crashes anywhere in between. Five data centres know which account belongs where and which key belongs to whom.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import { captureLogs, makeNet, makeTransport, MT_RATES, MtServer, NET_RATES, NO_MT_FAULTS, NO_NET_FAULTS, publicKeys, swarm, type TransportKind } from "./common.ts";
import { authKeyId, W } from "../server/wire.ts";
import { type AuthKey, type MtConn, type MtSession, ok, type RpcContext, type RpcReply } from "../server/mt.ts";
import { NO_DISK_FAULTS, SimDisk } from "../stubs/disk.ts";
import { Process, userOf } from "./client_common.ts";
import { Api } from "/repo/2_tl.ts";
import { TLReader } from "/repo/tl/1_tl_reader.ts";
import { base64DecodeUrlSafe, rleDecode } from "/repo/1_utilities.ts";

// deno-lint-ignore-file no-explicit-any

type Bytes = Uint8Array<ArrayBuffer>;
const DCS = ["1", "2", "3", "4", "5"];
const CODE = "12345";

interface Account {
  id: number;
  name: string;
  dc: string;
  phone?: string;
  token?: string;
  /** Not registered yet. */
  fresh: boolean;
  base: number;
  log: { id: number; message: any }[];
}
type Key = AuthKey & { user?: number; origin?: Key };
interface Exported {
  dc: string;
  key: string;
  userId: number;
  isBot: boolean;
}

const hex = (b: Uint8Array) => Array.from(b).map((v) => v.toString(16).padStart(2, "0")).join("");

function readAuthString(s: string): Exported {
  const r = new TLReader(rleDecode(base64DecodeUrlSafe(s)));
  const dc = r.readString();
  const key = r.readBytes();
  r.readInt32();
  const isBot = !!r.read(1)[0];
  return { dc, key: hex(key), userId: Number(r.readInt64()), isBot };
}

/** Every byte sequence of a length of keys in a stored value. */
function keysIn(v: any, out: Set<string> = new Set()): Set<string> {
  if (v instanceof Uint8Array) {
    if (v.byteLength === 256) out.add(hex(v));
  } else if (v && typeof v === "object") {
    for (const x of v instanceof Map ? v.values() : Object.values(v)) keysIn(x, out);
  }
  return out;
}

async function run(sim: Sim, focus: string, tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const faulty = cfg.bool(0.6);
  const kind = cfg.weighted<TransportKind>([["tcp", 6], ["tcp-obf", 2], ["ws", 2]]);
  const pfs = cfg.bool(0.1);
  const options = { mustSerialize: cfg.bool(0.7), supportsFiles: cfg.bool(0.6) };
  const persistCache = cfg.bool(0.5);
  const guarantee = cfg.bool(0.4);
  const initialDc = cfg.bool(0.7) ? undefined : cfg.pick(DCS);
  const crashes = cfg.bool(0.8) ? cfg.int(1, 4) : 0;
  const diskFaults = faulty && cfg.bool(0.25);
  const rates = { ...NET_RATES, reset: 0.006, fin: 0.005 };
  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, rates, 0.3) : { ...NO_NET_FAULTS });
  const tr = makeTransport(kind, cfg.bytes(16), sim);
  const mtFaults = faulty ? swarm(sim, "mt", NO_MT_FAULTS, MT_RATES, 0.3) : { ...NO_MT_FAULTS };
  const server = new MtServer(sim, net, { ...tr.options, properties: {} }, mtFaults, handler);
  server.listenDirect();
  server.replyDelay = cfg.pick([[0, 5], [1, 60], [1, 60], [1, 400]]);
  const disk = new SimDisk(sim, "disk", { ...NO_DISK_FAULTS, ...(diskFaults ? swarm(sim, "disk", NO_DISK_FAULTS, { writeFail: 0.03, writeFailLate: 0.02, readFail: 0.01, slow: 0.03, full: 0.004 }, 0.4) : {}) });
  disk.delay = cfg.pick<[number, number]>([[0.02, 0.1], [0.02, 2], [0.02, 20]]);
  const pushEvery = cfg.pick([0, 300, 3000]);
  info.config = { faulty, kind, pfs, options, persistCache, guarantee, initialDc, crashes, disk: disk.faults, pushEvery, net: net.faults, mt: mtFaults };
  sim.probe("transport." + kind);

  //// ACCOUNTS ////
  const names = ["alice", "bob", "carol"];
  const accounts: Account[] = names.map((name, i) => {
    const bot = cfg.bool(0.4);
    return { id: 1000 + i * 1111, name, dc: cfg.pick(DCS), ...(bot ? { token: `${1000 + i * 1111}:secret` } : { phone: "99966" + (1000 + i) }), fresh: !bot && cfg.bool(0.15), base: 100000 * (i + 1), log: [] };
  });
  const byId = (id: number | undefined) => accounts.find((a) => a.id === id);
  const date = () => Math.floor(sim.trueTime() / 1000);
  const userTl = (a: Account) => userOf(a.id, { self: true, first_name: a.name, ...(a.token ? { bot: true, bot_info_version: 1 } : {}) });
  const friend = (a: Account) => userOf(a.id + 500, { first_name: a.name + "'s friend" });

  //// SERVER ////
  const rng = sim.rng("srv.account");
  const codes = new Map<string, { phone: string; dc: string; verified: boolean }>();
  const exported = new Map<string, { dc: string; user: number; origin: Key }>();
  /** Calls that establish an authorization. */
  const signIns: { at: number; name: string; process: number }[] = [];
  const executed: { token: string; user: number | undefined; at: number }[] = [];
  const lifeOf = new Map<MtConn, number>();
  let lives = 0;
  server.onConn = (c) => lifeOf.set(c, lives);
  const onRpc = new Map<string, () => void>();

  server.onUnknownKey = (c: MtConn, id: bigint) => {
    const elsewhere = [...server.keys.values()].find((k) => k.id === id);
    // a temporary key may have been dropped
    if (elsewhere && elsewhere.dc !== c.dc) sim.violation("C15", "key-elsewhere", `a packet encrypted with a key of DC ${elsewhere.dc} was sent to DC ${c.dc}`);
    else if (!elsewhere) sim.violation("C15", "key-unknown", `a packet encrypted with a key that never existed was sent to DC ${c.dc}`);
  };

  const authorization = (a: Account) => ok({ _: "auth.authorization", user: userTl(a) });

  function handler(ctx: RpcContext): RpcReply {
    const reply = handle(ctx);
    sim.note(`RPC ${ctx.fn._} at DC ${ctx.dc} by ${(ctx.permKey as Key).user ?? "nobody"}: ${"error" in reply ? reply.error[1] : "ok"}`);
    onRpc.get(ctx.fn._)?.();
    return reply;
  }
  function handle(ctx: RpcContext): RpcReply {
    const fn = ctx.fn;
    const key = ctx.permKey as Key;
    const life = lifeOf.get(ctx.conn) ?? -1;
    if (buried.has(key) && (ctx.conn.conn.openedAt > buried.get(key)!)) sim.violation("C15", "old-key-used", `${fn._} was sent over a connection opened after signing out, with the key of before`);
    switch (fn._) {
      case "auth.sendCode": {
        signIns.push({ at: sim.now, name: fn._, process: life });
        const a = accounts.find((v) => v.phone === fn.phone_number);
        if (!a) return { error: [400, "PHONE_NUMBER_INVALID"] };
        if (a.dc !== ctx.dc) {
          sim.probe("migrate.phone");
          return { error: [303, `PHONE_MIGRATE_${a.dc}`] };
        }
        const hash = "h" + rng.u32();
        codes.set(hash, { phone: a.phone!, dc: ctx.dc, verified: false });
        return ok({ _: "auth.sentCode", type: { _: "auth.sentCodeTypeApp", length: 5 }, phone_code_hash: hash });
      }
      case "auth.signIn":
      case "auth.signUp": {
        signIns.push({ at: sim.now, name: fn._, process: life });
        const code = codes.get(fn.phone_code_hash);
        const a = accounts.find((v) => v.phone === fn.phone_number);
        if (!a || !code || code.phone !== a.phone || code.dc !== ctx.dc) return { error: [400, "PHONE_CODE_EXPIRED"] };
        if (fn._ === "auth.signIn") {
          if (fn.phone_code !== CODE) return { error: [400, "PHONE_CODE_INVALID"] };
          code.verified = true;
          if (a.fresh) return ok({ _: "auth.authorizationSignUpRequired" });
        } else {
          if (!code.verified) return { error: [400, "PHONE_CODE_EMPTY"] };
          a.fresh = false;
        }
        bind(key, a);
        return authorization(a);
      }
      case "auth.importBotAuthorization": {
        signIns.push({ at: sim.now, name: fn._, process: life });
        const a = accounts.find((v) => v.token === fn.bot_auth_token);
        if (!a) return { error: [400, "ACCESS_TOKEN_INVALID"] };
        if (a.dc !== ctx.dc) {
          sim.probe("migrate.user");
          return { error: [303, `USER_MIGRATE_${a.dc}`] };
        }
        bind(key, a);
        return authorization(a);
      }
      case "auth.importAuthorization": {
        const t = exported.get(`${fn.id}/${hex(fn.bytes as Bytes)}`);
        if (!t || t.dc !== ctx.dc || t.origin.user !== t.user) return { error: [400, "AUTH_BYTES_INVALID"] };
        key.user = t.user;
        key.origin = t.origin;
        return authorization(byId(t.user)!);
      }
    }
    const a = byId(key.user);
    if (!a) return { error: [401, "AUTH_KEY_UNREGISTERED"] };
    switch (fn._) {
      case "auth.logOut":
        revoke(key);
        sim.probe("loggedOut");
        return ok({ _: "auth.loggedOut" });
      case "auth.exportAuthorization": {
        const dc = String(fn.dc_id);
        if (dc === ctx.dc || !DCS.includes(dc)) return { error: [400, "DC_ID_INVALID"] };
        const bytes = rng.bytes(16);
        const id = rng.big64() & 0x7fffffffffffffffn;
        exported.set(`${id}/${hex(bytes)}`, { dc, user: a.id, origin: key });
        return ok({ _: "auth.exportedAuthorization", id, bytes });
      }
      case "updates.getState":
        return ok({ _: "updates.state", pts: a.base + a.log.length, qts: 5, date: date(), seq: 0, unread_count: 0 });
      case "updates.getDifference": {
        if (fn.pts < a.base || fn.pts > a.base + a.log.length) {
          if (!tainted) sim.violation("C15", "foreign-state", `the position ${fn.pts}, which isn't one of ${a.name}'s (${a.base} to ${a.base + a.log.length}), was used for ${a.name}`);
          return { error: [400, "PERSISTENT_TIMESTAMP_EMPTY"] };
        }
        const missing = a.log.slice(fn.pts - a.base);
        if (!missing.length) return ok({ _: "updates.differenceEmpty", date: date(), seq: 0 });
        return ok({ _: "updates.difference", new_messages: missing.map((v) => v.message), new_encrypted_messages: [], other_updates: [], chats: [], users: [userTl(a), friend(a)], state: { _: "updates.state", pts: a.base + a.log.length, qts: 5, date: date(), seq: 0, unread_count: 0 } });
      }
      case "users.getUsers":
        return { result: new W().u32(0x1cb5c415).u32(1).raw(Api.serializeObject(userTl(a) as any)).done() };
      case "help.getDeepLinkInfo":
        executed.push({ token: fn.path, user: key.user, at: sim.now });
        return ok({ _: "help.deepLinkInfo", message: `${fn.path} for ${a.name}` });
    }
    return { error: [400, "METHOD_INVALID"] };
  }
  function bind(key: Key, a: Account) {
    key.user = a.id;
    key.origin = key;
    erased = false; // signed in by a program that may not know it yet
    sim.probe("bound");
  }
  function revoke(origin: Key) {
    for (const k of server.keys.values() as Iterable<Key>) if (k.origin === origin || k === origin) k.user = undefined;
  }
  /** Keys that were erased, and when. */
  const buried = new Map<Key, number>();

  function happen(a: Account) {
    const id = a.log.length + 1;
    const message = { _: "message", id, peer_id: { _: "peerUser", user_id: BigInt(a.id + 500) }, date: date(), message: `${a.name} ${id}` };
    a.log.push({ id, message });
    const body = Api.serializeObject({ _: "updates", updates: [{ _: "updateNewMessage", message, pts: a.base + a.log.length, pts_count: 1 }], users: [userTl(a), friend(a)], chats: [], date: date(), seq: 0 } as any);
    for (const s of server.liveSessions((s: MtSession) => s.inited && !s.authKey.temp && s.withUpdates && (s.authKey as Key).user === a.id && s.authKey.dc === a.dc)) server.push(s, body);
  }

  //// THE PROGRAM ////
  const w = sim.rng("workload");
  interface Life {
    p: Process;
    n: number;
    /** The account it was told, by start() returning, that it is signed in to. */
    signedIn: Account | null;
    signedInAt: number;
  }
  let life!: Life;
  /** The account the program wants. */
  let target = w.pick(accounts);
  /** What the program was told it is authorized as. Nothing if it never was, or if signing out began. */
  let confirmed: Exported | null = null;
  /** Whether signing out was interrupted, so that something may be left. */
  let tainted = false;
  /** Whether the last sign-out was complete and nothing began since. */
  let erased = true;
  let dead = new Set<string>();

  function attach(l: Life) {
    l.p.client.on("message", (ctx: any) => {
      if (!l.p.alive) return;
      const text: string = ctx.message?.text ?? ctx.text ?? "";
      const owner = accounts.find((a) => text.startsWith(a.name + " "));
      sim.probe("shown");
      if (owner && l.signedIn && l.signedIn !== owner && !tainted && sim.now - l.signedInAt > 1000) sim.violation("C15", "foreign-update", `a message of ${owner.name} was shown to the program ${((sim.now - l.signedInAt) / 1000).toFixed(1)} s after it had signed in as ${l.signedIn.name}`);
    });
  }

  function credentials(a: Account): any {
    if (a.token) return { botToken: a.token };
    let wrong = w.bool(0.15);
    return {
      phone: w.bool(0.5) ? a.phone : () => a.phone,
      code: wrong || w.bool(0.7)
        ? () => {
          if (wrong) {
            wrong = false;
            return "00000";
          }
          return CODE;
        }
        : CODE,
      password: "",
      firstName: a.name,
      lastName: "X",
    };
  }

  const describe = (e: Exported) => `${byId(e.userId)?.name ?? e.userId} at DC ${e.dc}${e.isBot ? " as a bot" : ""}, key ${e.key.slice(0, 8)}`;
  const serverKey = (e: { dc: string; key: string }): Key | undefined => [...server.keys.values()].find((k) => k.dc === e.dc && hex(k.key) === e.key) as Key | undefined;
  const calm = () => !sim.faultsEnabled || !faulty;

  /** What the program does after start() came back: it finds out who it is. */
  async function verify(l: Life, asked: Account, signInsBefore: number) {
    const p = l.p;
    if (confirmed) {
      const again = signIns.slice(signInsBefore).filter((v) => v.process === l.n);
      if (again.length) sim.violation("C15", "signed-in-again", `the program was authorized (${describe(confirmed)}), and after a restart it called ${again[0].name}`);
    }
    let e: Exported;
    try {
      e = readAuthString(await p.client.exportAuthString());
    } catch (err) {
      if (p.alive) sim.violation("C15", "not-exportable", `start() came back, and the authorization can't be exported: ${err}`);
      return;
    }
    if (!p.alive) return;
    const key = serverKey(e);
    sim.note(`AUTHORIZED ${describe(e)}`);
    if (!key) sim.violation("C15", "mixture", `start() came back, and the program has a key that DC ${e.dc} doesn't know`);
    else {
      sim.check(key.user === e.userId, "C15", "mixture", () => `start() came back, and the program believes to be ${describe(e)}; the key belongs to ${byId(key.user)?.name ?? "nobody"}`);
      sim.check(e.isBot === !!byId(e.userId)?.token, "C15", "mixture", () => `start() came back, and the program believes to be ${describe(e)}`);
      sim.check(e.dc === byId(e.userId)?.dc, "C15", "mixture", () => `start() came back, and the program believes to be ${describe(e)}`);
    }
    if (confirmed) {
      sim.check(e.dc === confirmed.dc && e.key === confirmed.key && e.userId === confirmed.userId && e.isBot === confirmed.isBot, "C15", "changed", () => `the program was authorized as ${describe(confirmed!)}, and is now ${describe(e)}`);
    } else if (erased && !tainted) {
      sim.check(e.userId === asked.id, "C15", "other-account", () => `nothing was stored, ${asked.name} was to sign in, and the program is ${describe(e)}`);
    }
    l.signedIn = byId(e.userId) ?? null;
    l.signedInAt = sim.now;
    confirmed = e;
    erased = false;
    try {
      const me: any = await p.client.getMe();
      if (!p.alive) return;
      sim.check(me.id === e.userId, "C15", "mixture", () => `the program is ${describe(e)}, and getMe() says ${me.firstName} (${me.id})`);
    } catch (err) {
      if (p.alive && calm() && !diskFaults) sim.violation("C15", "failed", `getMe() failed although nothing was wrong: ${(err as any)?.stack}`);
    }
  }

  async function startUp(l: Life) {
    const p = l.p;
    for (let tries = 0; p.alive; tries++) {
      const before = signIns.length;
      const asked = target;
      try {
        sim.note(`START as ${asked.name}`);
        await p.client.start(credentials(asked));
        if (!p.alive) return;
        await verify(l, asked, before);
        return;
      } catch (err) {
        if (!p.alive) return;
        sim.note("start() failed: " + ((err as any)?.stack ?? err));
        if (confirmed) {
          const again = signIns.slice(before).filter((v) => v.process === l.n);
          if (again.length) sim.violation("C15", "signed-in-again", `the program was authorized (${describe(confirmed)}), and after a restart it called ${again[0].name}`);
        }
        if (!faulty && !diskFaults) sim.violation("C15", "failed", `start() failed although nothing was wrong: ${(err as any)?.stack}`);
        if (tries > 60) return;
        await sim.sleep(w.pick([50, 1000, 3000]), "user.retry");
      }
    }
  }

  let calls = 0;
  async function call(l: Life, must = false) {
    const token = `call-${++calls}`;
    const who = l.signedIn, since = l.signedInAt;
    const dc = w.bool(0.5) ? w.pick(DCS) : undefined;
    const params = dc ? { dc, ...(w.bool(0.4) ? { type: "download" } : {}) } : undefined;
    sim.note(`CALL ${token} for DC ${dc ?? "?"} ${(params as any)?.type ?? ""}`);
    try {
      const r: any = await l.p.client.invoke({ _: "help.getDeepLinkInfo", path: token }, params as any);
      if (!l.p.alive) return;
      sim.probe("call.ok");
      if (who && l.signedIn === who && l.signedInAt === since) sim.check(r.message === `${token} for ${who.name}`, "C15", "mixture", () => `the program is signed in as ${who.name}, and the result of ${token} is ${JSON.stringify(r.message)}`);
    } catch (err) {
      sim.note(`${token} failed: ${err}`);
      if (must && l.p.alive) sim.violation("C15", "failed", `${token} failed on a healthy network: ${(err as any)?.stack}`);
    }
  }

  /** Everything stored that could be of an account. */
  const stored = () => [...disk.data.values()].filter((e) => {
    const parts = e.key.map(String);
    return !/^(session\.serverSalt|netstat.*|auth)$/.test(parts[1]) || parts[0] !== "";
  });
  async function signOut(l: Life) {
    const who = l.signedIn;
    const keys = [...server.keys.values()].filter((k) => !k.temp) as Key[];
    const before = new Map([...disk.data].map(([k, v]) => [k, JSON.stringify(v.value, (_, x) => typeof x === "bigint" ? String(x) : x instanceof Uint8Array ? hex(x) : x)]));
    const loggedOut = sim.probes["loggedOut"] ?? 0;
    confirmed = null;
    tainted = true;
    erased = false;
    l.signedIn = null;
    sim.note(`SIGN OUT ${who?.name}`);
    try {
      await l.p.client.signOut();
    } catch (err) {
      if (!l.p.alive) return;
      sim.note("signOut() failed: " + ((err as any)?.stack ?? err));
      if (!faulty && !diskFaults) sim.violation("C15", "failed", `signOut() failed although nothing was wrong: ${(err as any)?.stack}`);
      return false;
    }
    if (!l.p.alive) return false;
    sim.probe("signedOut");
    sim.note("SIGNED OUT");
    if (who) sim.check((sim.probes["loggedOut"] ?? 0) > loggedOut, "C15", "not-logged-out", () => `signOut() came back, and the server wasn't told to log ${who.name} out`);
    tainted = false;
    erased = true;
    for (const k of keys) if (!buried.has(k)) buried.set(k, sim.now);
    for (const k of keys) dead.add(hex(k.key));
    inspect("signOut() came back", before);
    sim.after(20000, "inspect", () => {
      if (l.p.alive && erased && !tainted) inspect("20 s ago signOut() came back", before);
    });
    if (w.bool(0.5)) target = w.pick(accounts);
    return true;
  }
  function inspect(when: string, before?: Map<string, string>) {
    for (const e of disk.data.values()) {
      for (const k of keysIn(e.value)) if (dead.has(k)) sim.violation("C15", "key-left", `${when}, and the old key ${k.slice(0, 8)} is still stored under ${JSON.stringify(e.key.map(String))}`);
    }
    for (const e of stored()) {
      const old = before?.get([...disk.data].find(([, v]) => v === e)![0]);
      sim.violation("C15", "data-left", `${when}, and there is still something stored under ${JSON.stringify(e.key.map(String))}${old ? " as before" : ""}`);
      break;
    }
  }

  const budget = { actions: w.int(3, tier === "thorough" ? 16 : 10) };
  async function live(l: Life) {
    await startUp(l);
    while (l.p.alive && budget.actions > 0) {
      budget.actions--;
      const keep = sim.op();
      const action = w.weighted([["call", 4], ["burst", 2], ["sleep", 2], ["reconnect", 1.5], ["signOut", 3], ["elsewhere", 0.7], ["start", 1]]);
      if (!keep) continue;
      switch (action) {
        case "call":
          await call(l);
          break;
        case "burst":
          for (let i = w.int(1, 4); i > 0; i--) void call(l);
          break;
        case "sleep":
          await sim.sleep(w.pick([10, 500, 6000, 60000]), "user.sleep");
          break;
        case "reconnect":
          try {
            await l.p.client.disconnect();
            await sim.sleep(w.pick([0, 50, 4000]), "user.sleep");
          } catch (err) {
            sim.note("disconnect() failed: " + err);
          }
          if (l.p.alive) await startUp(l);
          break;
        case "signOut":
          await signOut(l);
          if (!l.p.alive) return;
          if (w.bool(0.25)) { // the program ends here
            await sim.sleep(w.pick([0, 10, 1000]), "user.sleep");
            if (!l.p.alive) return;
            sim.note("the program ends");
            crash();
            return;
          }
          await startUp(l);
          break;
        case "start":
          await startUp(l);
          break;
        case "elsewhere":
          await elsewhere(l);
          break;
      }
      await sim.sleep(w.pick([0, 20, 700]), "user.sleep");
    }
    if (l.p.alive) finished = true;
  }
  let finished = false;
  let over = false;

  /** The authorization moves to another disk. */
  async function elsewhere(l: Life) {
    let s: string;
    try {
      s = await l.p.client.exportAuthString();
    } catch {
      return;
    }
    if (!l.p.alive || !confirmed) return;
    const e = readAuthString(s);
    sim.note("ELSEWHERE");
    const asParameter = w.bool(0.5);
    const other = new Process(sim, 1000 + l.n, new SimDisk(sim, "other", { ...NO_DISK_FAULTS }), tr, { publicKeys, ...(asParameter ? { authString: s } : {}) }, options);
    const n = ++lives;
    try {
      const before = signIns.length;
      if (!asParameter) await other.client.importAuthString(s);
      await other.client.start({ botToken: "none" });
      const again = signIns.slice(before).filter((v) => v.process === n);
      if (confirmed && l.p.alive) {
        sim.check(again.length === 0, "C15", "import-signed-in", () => `the program imported an authorization, and called ${again[0].name}`);
        const f = readAuthString(await other.client.exportAuthString());
        sim.check(f.key === e.key && f.dc === e.dc && f.userId === e.userId && f.isBot === e.isBot, "C15", "import-differs", () => `${describe(e)} was imported, and ${describe(f)} was exported`);
        const me: any = await other.client.getMe();
        if (confirmed) sim.check(me.id === e.userId, "C15", "import-differs", () => `${describe(e)} was imported, and getMe() says ${me.firstName}`);
      }
      sim.probe("elsewhere");
    } catch (err) {
      sim.note("elsewhere failed: " + ((err as any)?.stack ?? err));
      if (!faulty && confirmed && l.p.alive) sim.violation("C15", "failed", `an exported authorization could not be used elsewhere although nothing was wrong: ${(err as any)?.stack}`);
    }
    other.crash();
  }

  function crash() {
    if (!life.p.alive) return;
    life.p.crash();
    sim.note(`process ${life.n} is gone`);
    boot();
  }
  function boot() {
    sim.after(w.range(5, 5000), "world.boot", () => {
      // who restarts the program may have another account in mind only if none is signed in
      if (!confirmed && w.bool(0.2)) target = w.pick(accounts);
      const p = new Process(sim, ++lives, disk, tr, { publicKeys, persistCache, guaranteeUpdateDelivery: guarantee, initialDc, isPerfectForwardSecrecyEnabled: pfs }, options);
      life = { p, n: lives, signedIn: null, signedInAt: -1 };
      attach(life);
      sim.note(`process ${life.n} begins`);
      void live(life);
    });
  }

  //// CRASHES ////
  let left = crashes;
  let writes = 0, nextWrite = -1;
  disk.onWrite = () => {
    if (++writes === nextWrite) sim.after(0, "crash.write", crashNow);
  };
  function crashNow() {
    if (!sim.faultsEnabled || left <= 0 || !life?.p.alive) return;
    left--;
    if (sim.fault("proc.crash", 1)) crash();
    arm();
  }
  function arm() {
    onRpc.clear();
    nextWrite = -1;
    if (left <= 0) return;
    switch (w.weighted([["time", 2], ["rpc", 4], ["write", 3]])) {
      case "time":
        sim.after(w.pick([w.range(0, 3000), w.range(0, 20000)]), "crash.time", crashNow);
        break;
      case "rpc": {
        const name = w.pick(["auth.sendCode", "auth.signIn", "auth.importBotAuthorization", "auth.logOut", "auth.logOut", "updates.getState", "updates.getDifference", "auth.exportAuthorization", "auth.importAuthorization", "users.getUsers"]);
        let nth = w.int(1, 3);
        const delay = w.pick([0, w.range(0, 200), w.range(0, 200), w.range(0, 1500)]);
        onRpc.set(name, () => {
          if (--nth === 0) sim.after(delay, "crash.rpc", crashNow);
        });
        break;
      }
      case "write":
        nextWrite = writes + w.pick([w.int(1, 6), w.int(1, 30), w.int(1, 100)]);
        break;
    }
  }

  //// THE RUN ////
  arm();
  life = { p: { alive: false } as any, n: 0, signedIn: null, signedInAt: -1 };
  boot();
  if (pushEvery) {
    (async () => {
      while (!over) {
        await sim.sleep(rng.range(0, pushEvery * 2), "srv.happen");
        happen(w.pick(accounts));
      }
    })();
  }

  await sim.run(() => finished, 1200000);

  //// heal ////
  sim.faultsEnabled = false;
  net.faults = { ...NO_NET_FAULTS, shortRead: net.faults.shortRead, partialWrite: net.faults.partialWrite };
  net.partitionedUntil = 0;
  server.faults = { ...NO_MT_FAULTS };
  disk.heal();
  sim.note("---- healed ----");
  budget.actions = 0;
  await sim.run(() => finished, sim.now + 900000);
  if (!finished) {
    sim.violation("C15", "stalled", `the program has not come back to work 15 minutes after the last fault`);
    over = true;
    return;
  }
  // connections that were stalled are noticed
  await sim.run(() => false, sim.now + (faulty ? 100000 : 3000));

  async function finale() {
    let l = life;
    await startUp(l);
    if (!confirmed || !l.p.alive) return;
    await call(l, true);
    // a restart changes nothing
    finished = false;
    crash();
  }
  let done = false;
  const step = (p: Promise<void>) => {
    done = false;
    p.then(() => done = true, (err) => {
      sim.note("finale: " + (err?.stack ?? err));
      done = true;
    });
  };
  step(finale());
  await sim.run(() => done && finished, sim.now + 300000);
  if (!done || !finished) {
    sim.violation("C15", "stalled", `restarting did not work within 5 minutes on a healthy network`);
    over = true;
    return;
  }
  // and signing out erases it
  step((async () => {
    const l = life;
    if (!l.p.alive || !confirmed) return;
    if (!await signOut(l)) sim.violation("C15", "failed", "signOut() failed on a healthy network");
    await sim.sleep(w.pick([0, 30000]), "world.end");
    finished = false;
    const before = signIns.length;
    crash();
    while (!finished) await sim.sleep(100, "world.wait");
    if (life.signedIn) sim.check(signIns.length > before, "C15", "still-authorized", () => `after signing out and a restart the program is ${life.signedIn!.name} without having signed in`);
    else sim.violation("C15", "failed", "signing in failed on a healthy network");
  })());
  await sim.run(() => done, sim.now + 300000);
  if (!done) sim.violation("C15", "stalled", `signing out and in again did not work within 5 minutes on a healthy network`);
  over = true;
  void authKeyId;
}

export default {
  unhandled: () => "-",
  stuck: (focus) => focus,
  components: {
    real: ["Client (6_client.ts) with sign-in, migration, sign-out and its storages", "AccountManager", "UpdateManager", "ClientEncrypted, ClientPlain, sessions, transports, connections", "StorageOperations"],
    stub: ["Telegram's data centres (accounts, codes, keys, authorization transfer)", "network sockets", "storage backend", "clock, timers, randomness"],
  },
  run,
} as World;
