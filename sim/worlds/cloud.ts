// World: a whole Client that uploads, downloads and calls across data centres, on connections that break, with answers
// that demand waiting, while the program aborts, disconnects, crashes and restarts.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import type { Rng } from "../core/rng.ts";
import { captureLogs, makeNet, makeTransport, MT_RATES, MtServer, NET_RATES, NO_MT_FAULTS, NO_NET_FAULTS, publicKeys, swarm, type TransportKind } from "./common.ts";
import { cat, igeD as igeDecrypt, igeE as igeEncrypt, W } from "../server/wire.ts";
import { type AuthKey, boolTrue, type MtConn, ok, type RpcContext, type RpcReply } from "../server/mt.ts";
import type { Conn } from "../core/net.ts";
import { NO_DISK_FAULTS, SimDisk, SimStorage } from "../stubs/disk.ts";
import { authorize, Process, Snapshot, userOf } from "./client_common.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { Api } from "/repo/2_tl.ts";
import { FileType, PhotoSourceType, serializeFileId } from "/repo/3_types.ts";
import { createHash } from "node:crypto";

// deno-lint-ignore-file no-explicit-any

type Bytes = Uint8Array<ArrayBuffer>;
const SELF = 1000;
const DCS = ["1", "2", "3", "4", "5"];
const KB = 1024;

/** A file on the server. */
interface Stored {
  key: string;
  dc: string;
  bytes: Bytes;
  fileId: string;
  /** What a reader gets, after decryption. */
  plain: Bytes;
  fileInformation?: string;
  /** Every part of it fails from this offset on. */
  brokenFrom: number;
}

/** Parts of a file being uploaded. */
interface Uploading {
  parts: Map<number, Bytes>;
  total: number;
  big: boolean;
  small: boolean;
  totals: Set<number>;
}

/** A call whose answers were decided in advance. */
interface Planned {
  token: string;
  dc?: string;
  type?: "download" | "upload";
  answers: string[];
  /** Executions so far. */
  runs: { at: number; answer: string; dc: string; user?: number; answeredAt: number }[];
  consults: { which: string; n: number; error: string; decision: string; at: number }[];
  settled: boolean;
  rec: any;
  startedAt: number;
}

export function pattern(seed: number, n: number): Bytes {
  const out = new Uint8Array(n);
  let x = (seed * 2654435761 + 12345) >>> 0;
  for (let i = 0; i < n; i++) {
    x ^= x << 13;
    x >>>= 0;
    x ^= x >>> 17;
    x ^= x << 5;
    x >>>= 0;
    out[i] = x & 255;
  }
  return out;
}
const same = (a: Uint8Array, b: Uint8Array) => {
  if (a.byteLength !== b.byteLength) return false;
  for (let i = 0; i < a.byteLength; i++) if (a[i] !== b[i]) return false;
  return true;
};

async function run(sim: Sim, focus: string, tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const faulty = cfg.bool(0.65);
  const kind = cfg.weighted<TransportKind>([["tcp", 6], ["tcp-obf", 2], ["ws", 2]]);
  const home = cfg.pick(DCS);
  const pfs = cfg.bool(0.08);
  const preauthorized = cfg.bool(0.75);
  const options = { mustSerialize: cfg.bool(0.7), supportsFiles: cfg.bool(0.6) };
  const persistCache = focus === "C20" ? cfg.bool(0.7) : cfg.bool(0.3);
  const crashes = faulty ? cfg.pick(focus === "C20" ? [0, 1, 2] : [0, 0, 0, 1]) : 0;

  const rates = { ...NET_RATES, reset: 0.003, fin: 0.003 };
  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, rates, 0.3) : { ...NO_NET_FAULTS });
  const tr = makeTransport(kind, cfg.bytes(16), sim);
  const mtFaults = faulty ? swarm(sim, "mt", NO_MT_FAULTS, { ...MT_RATES, rpcInternal: focus === "C22" ? 0 : 0.02 }, 0.3) : { ...NO_MT_FAULTS };
  // with many calls at once, salts that change all the time make a storm
  mtFaults.rotateSalt = Math.min(mtFaults.rotateSalt, 0.02);
  const server = new MtServer(sim, net, { ...tr.options, properties: {} }, mtFaults, handler);
  server.listenDirect();
  server.replyDelay = cfg.pick([[0, 5], [1, 60], [1, 60], [1, 400]]);
  const disk = new SimDisk(sim, "disk", { ...NO_DISK_FAULTS, slow: faulty && cfg.bool(0.2) ? 0.01 : 0 });
  disk.delay = cfg.pick<[number, number]>([[0.02, 0.1], [0.02, 2], [0.02, 20]]);
  /** How often file parts and calls are answered with a demand to wait, and other failures. */
  const floods = cfg.bool(0.4) ? cfg.pick([0.02, 0.08]) : 0;
  const partErrors = cfg.bool(0.35) ? cfg.pick([0.02, 0.08]) : 0;
  const forgets = focus === "C23" && cfg.bool(0.5) ? cfg.pick([0.03, 0.1]) : 0;
  const drops = cfg.bool(0.3) ? 0.02 : 0;
  /** Whether connections may be lost, and calls thus be sent again. */
  const connFaults = faulty || drops > 0;
  info.config = { faulty, kind, home, pfs, preauthorized, options, persistCache, crashes, floods, partErrors, forgets, drops, net: net.faults, mt: mtFaults };
  sim.probe("transport." + kind);

  //// SERVER ////
  const files = new Map<string, Stored>();
  const uploads = new Map<string, Uploading>();
  const exported = new Map<string, { dc: string; user: number; imports: number }>();
  const planned = new Map<string, Planned>();
  /** Answers of 401 and imports per key. */
  const keyLog = new Map<AuthKey, { unregistered: number; imports: number; exports: number }>();
  const logOf = (k: AuthKey) => {
    let v = keyLog.get(k);
    if (!v) keyLog.set(k, v = { unregistered: 0, imports: 0, exports: 0 });
    return v;
  };
  const rng = sim.rng("srv.cloud");
  /** When the program last crashed or disconnected. */
  let lastDisturbance = -1;
  /** Keys the client has from before, without knowing that they are not authorized. */
  const strangers = new Set<AuthKey>();
  const conns: { conn: Conn; mt: MtConn; plain: boolean; media: boolean | null }[] = [];
  server.onConn = (c) => conns.push({ conn: c.conn, mt: c, plain: false, media: null });
  // only web sockets tell: their addresses differ, and the others connect to the same address
  const mediaOf = (c: MtConn): boolean | null => kind === "ws" ? c.media : null;

  function handler(ctx: RpcContext): RpcReply {
    const fn = ctx.fn;
    const key = ctx.permKey as AuthKey & { user?: number };
    const foreign = ctx.dc !== home;
    if (forgets && foreign && key.user !== undefined && sim.fault("srv.forgetUser", forgets)) {
      key.user = undefined;
      strangers.add(key);
      sim.note(`DC ${ctx.dc} forgot who key ${key.id} belongs to`);
    }
    if (drops && sim.faultsEnabled && (foreign || mediaOf(ctx.conn) === true) && sim.fault("srv.dropIdle", drops)) sim.after(rng.range(0, 400), "srv.drop", () => ctx.conn.hangUp(rng.bool() ? "fin" : "reset"));
    if (fn._ === "auth.importAuthorization") {
      const token = exported.get(`${fn.id}/${Array.from(fn.bytes as Bytes).join(",")}`);
      if (!token) {
        sim.violation("C23", "import-unknown", `an authorization that was never exported was imported at DC ${ctx.dc}`);
        return { error: [400, "AUTH_BYTES_INVALID"] };
      }
      if (token.dc !== ctx.dc) {
        sim.violation("C23", "import-elsewhere", `an authorization exported for DC ${token.dc} was imported at DC ${ctx.dc}`);
        return { error: [400, "AUTH_BYTES_INVALID"] };
      }
      const log = logOf(key);
      log.imports++;
      token.imports++;
      if (!connFaults && lastDisturbance < 0) {
        sim.check(token.imports === 1, "C23", "import-twice", () => `the same exported authorization was imported ${token.imports} times at DC ${ctx.dc}`);
        sim.check(log.imports <= 1 + log.unregistered, "C23", "import-needless", () => `the authorization was transferred ${log.imports} times to one key of DC ${ctx.dc}, which had only been answered ${log.unregistered} time(s) that it has none`);
      }
      key.user = token.user;
      sim.probe("auth.import");
      return ok({ _: "auth.authorization", user: userOf(SELF, { self: true }) });
    }
    if (key.user === undefined) {
      if (!connFaults && lastDisturbance < 0 && !strangers.has(key) && foreign) sim.violation("C23", "unauthorized", `${fn._} was sent to DC ${ctx.dc} before the authorization was transferred there`);
      logOf(key).unregistered++;
      sim.probe("auth.unregistered");
      return { error: [401, "AUTH_KEY_UNREGISTERED"] };
    }
    switch (fn._) {
      case "auth.exportAuthorization": {
        const dc = String(fn.dc_id);
        if (ctx.dc !== home) sim.violation("C23", "export-elsewhere", `the authorization was exported at DC ${ctx.dc} instead of the account's`);
        if (dc === ctx.dc || !DCS.includes(dc)) return { error: [400, "DC_ID_INVALID"] };
        const bytes = rng.bytes(24);
        const id = rng.big64() & 0x7fffffffffffffffn;
        exported.set(`${id}/${Array.from(bytes).join(",")}`, { dc, user: key.user, imports: 0 });
        sim.probe("auth.export");
        return ok({ _: "auth.exportedAuthorization", id, bytes });
      }
      case "updates.getState":
        return ok({ _: "updates.state", pts: 10, qts: 5, date: date(), seq: 3, unread_count: 0 });
      case "updates.getDifference":
        return ok({ _: "updates.differenceEmpty", date: date(), seq: 3 });
      case "users.getUsers":
        return { result: new W().u32(0x1cb5c415).u32(1).raw(Api.serializeObject(userOf(SELF, { self: true }) as any)).done() };
      case "help.getDeepLinkInfo":
        return onPlanned(ctx, fn);
      case "upload.getFile":
        return onGetFile(ctx, fn);
      case "upload.saveFilePart":
      case "upload.saveBigFilePart":
        return onSavePart(ctx, fn);
    }
    return { error: [400, "METHOD_INVALID"] };
  }
  const date = () => Math.floor(sim.trueTime() / 1000);
  const checkMedia = (ctx: RpcContext, what: string) => {
    const media = mediaOf(ctx.conn);
    if (media !== null) sim.check(media, "C23", "not-media", () => `${what} was sent over a connection that isn't for media`);
  };

  const partFailure = (): RpcReply | null => {
    if (floods && sim.fault("srv.flood", floods)) return { error: [420, `FLOOD_WAIT_${rng.pick([1, 3, 9, 14, 40])}`] };
    if (partErrors && sim.fault("srv.partError", partErrors)) return { error: rng.pick<[number, string]>([[500, "TIMEOUT"], [400, "FILE_PART_TEMPORARILY_UNAVAILABLE"], [500, "RPC_CALL_FAIL"]]) };
    return null;
  };

  function keyOfLocation(l: any): string {
    switch (l._) {
      case "inputDocumentFileLocation":
        return `doc/${l.id}/${l.access_hash}/${l.thumb_size}`;
      case "inputPhotoFileLocation":
        return `photo/${l.id}/${l.access_hash}/${l.thumb_size}`;
      case "inputPeerPhotoFileLocation":
        return `peer/${l.photo_id}/${l.peer.user_id ?? l.peer.channel_id}/${l.big ? "big" : "small"}`;
      case "inputEncryptedFileLocation":
        return `enc/${l.id}/${l.access_hash}`;
    }
    return l._;
  }

  function onGetFile(ctx: RpcContext, fn: any): RpcReply {
    const f = files.get(keyOfLocation(fn.location));
    if (!f) {
      sim.violation("C17", "wrong-location", `a part of ${keyOfLocation(fn.location)} was requested, which nobody asked for`);
      return { error: [400, "LOCATION_INVALID"] };
    }
    checkMedia(ctx, "upload.getFile");
    if (f.dc !== ctx.dc) {
      sim.violation("C23", "wrong-dc", `a part of a file at DC ${f.dc} was requested from DC ${ctx.dc}`);
      return { error: [303, `FILE_MIGRATE_${f.dc}`] };
    }
    const offset = Number(fn.offset), limit = fn.limit;
    if (limit % KB !== 0 || limit <= 0 || limit > KB * KB || offset % KB !== 0 || offset < 0) return { error: [400, "LIMIT_INVALID"] };
    if (offset + limit > f.brokenFrom) return { error: [400, "FILE_REFERENCE_EXPIRED"] };
    const failure = partFailure();
    if (failure) return failure;
    sim.probe("part.served");
    return ok({ _: "upload.file", type: { _: "storage.filePartial" }, mtime: 1700000000, bytes: f.bytes.slice(offset, offset + limit) });
  }

  function onSavePart(ctx: RpcContext, fn: any): RpcReply {
    checkMedia(ctx, fn._);
    if (ctx.dc !== home) sim.violation("C23", "upload-elsewhere", `a part was uploaded to DC ${ctx.dc}, the account is at DC ${home}`);
    const failure = partFailure();
    const big = fn._ === "upload.saveBigFilePart";
    const id = String(fn.file_id);
    let u = uploads.get(id);
    if (!u) uploads.set(id, u = { parts: new Map(), total: -1, big: false, small: false, totals: new Set() });
    if (brokenUploads.has(id) || failingUploads && rng.bool(0.5)) return { error: [400, "FILE_PART_SIZE_INVALID"] };
    const part = `${id}/${fn.file_part}`;
    const flood = partFloods.get(part);
    if (flood && !connFaults && lastDisturbance < 0 && sim.now < flood) sim.violation("C22", "too-early", `part ${fn.file_part} of ${id} was uploaded again ${((flood - sim.now) / 1000).toFixed(2)} s before the demanded wait was over`);
    partFloods.delete(part);
    if (failure) {
      const m = /^FLOOD_WAIT_(\d+)$/.exec((failure as any).error[1]);
      if (m) partFloods.set(part, sim.now + Number(m[1]) * 1000 - 1);
      return failure;
    }
    if (big) u.big = true, u.totals.add(fn.file_total_parts);
    else u.small = true;
    const before = u.parts.get(fn.file_part);
    if (before && !same(before, fn.bytes)) sim.violation("C16", "part-changed", `part ${fn.file_part} of ${id} was uploaded again with other bytes`);
    u.parts.set(fn.file_part, Uint8Array.from(fn.bytes));
    sim.probe("part.saved");
    return { result: boolTrue() };
  }
  const partFloods = new Map<string, number>();
  const brokenUploads = new Set<string>();
  const failingUploads = focus === "C16" && cfg.bool(0.06);

  function onPlanned(ctx: RpcContext, fn: any): RpcReply {
    const token = fn.path;
    const p = planned.get(token);
    if (!p) {
      sim.violation("C22", "unknown-call", `a call nobody made was executed: ${token}`);
      return { error: [400, "METHOD_INVALID"] };
    }
    const at = p.dc ?? home;
    sim.check(ctx.dc === at, "C23", "wrong-dc", () => `${token} was for DC ${at} and was executed at DC ${ctx.dc}`);
    sim.check(ctx.permKey.user === SELF, "C23", "wrong-user", () => `${token} was executed for user ${ctx.permKey.user}`);
    const i = p.runs.length;
    const answer = i < p.answers.length ? p.answers[i] : "ok";
    const last = p.runs.at(-1);
    p.runs.push({ at: sim.now, answer, dc: ctx.dc, user: ctx.permKey.user, answeredAt: sim.now });
    if (!connFaults && !forgets && !disturbed(p.rec, p.startedAt)) {
      if (p.settled) sim.violation("C22", "after-settled", `${token} was executed again after its caller had got the outcome`);
      if (last) {
        sim.check(last.answer !== "ok", "C22", "repeated-success", () => `${token} was executed again after it had succeeded`);
        const m = /^FLOOD_WAIT_(\d+)$/.exec(last.answer);
        const decided = p.consults.some((v) => v.n === i && ["retry", "wait", "next-retry"].includes(v.decision));
        if (!decided) {
          sim.check(defaultHandlers && m !== null && Number(m[1]) <= 10, "C22", "repeated-unasked", () => `${token} was repeated after ${last.answer} though nobody decided so`);
        }
        if (m && !decided) sim.check(sim.now - last.at >= Number(m[1]) * 1000 - 1, "C22", "too-early", () => `${token} was repeated after ${((sim.now - last.at) / 1000).toFixed(2)} s although the server had demanded ${m[1]} s`);
      }
    }
    sim.note(`EXECUTED ${token} #${i + 1} at DC ${ctx.dc}: ${answer}`);
    if (answer === "ok") return ok({ _: "help.deepLinkInfo", message: token + "!" });
    if (answer.startsWith("FLOOD")) return { error: [420, answer] };
    const [code, text] = answer.split(" ");
    return { error: [Number(code), text] };
  }

  //// FILES ////
  const fr = sim.rng("files");
  let fileCount = 0;
  const addFile = () => {
    const i = ++fileCount;
    const dc = fr.bool(focus === "C23" ? 0.25 : 0.5) ? home : fr.pick(DCS);
    const unit = fr.pick([1, 2, 4, 8]) * KB;
    const size = fr.weighted([[0, 0.3], [1, 0.5], [fr.int(1, 3000), 2], [unit * fr.int(1, 12), 3], [unit * fr.int(1, 12) + fr.pick([-1, 1, 7, 512]), 3], [fr.int(1000, 60000), 2]]);
    const id = BigInt(5000 + i), hash = BigInt(900 + i);
    const base = { dc, brokenFrom: fr.bool(0.04) ? fr.int(0, size) : Infinity };
    const dcId = Number(dc);
    const put = (key: string, fileId: any, extra: Partial<Stored> = {}) => {
      const bytes = extra.bytes ?? pattern(fileCount * 131 + files.size, size);
      files.set(key, { key, bytes, plain: bytes, ...base, fileId: serializeFileId({ dcId, ...fileId }), ...extra });
    };
    switch (fr.weighted([["doc", 5], ["thumb", 1], ["peer", 1.5], ["photo", 1], ["enc", 1.5]])) {
      case "doc":
        put(`doc/${id}/${hash}/`, { type: FileType.Document, fileReference: new Uint8Array([1, 2, i]), location: { type: "common", id, accessHash: hash } });
        break;
      case "thumb": // of a document that can be downloaded as well
        put(`doc/${id}/${hash}/`, { type: FileType.Video, fileReference: new Uint8Array([1, 2, i]), location: { type: "common", id, accessHash: hash } });
        put(`doc/${id}/${hash}/m`, { type: FileType.Thumbnail, fileReference: new Uint8Array([1, 2, i]), location: { type: "photo", id, accessHash: hash, source: { type: PhotoSourceType.Thumbnail, fileType: FileType.Thumbnail, thumbnailType: "m".charCodeAt(0) } } });
        break;
      case "peer":
        put(`peer/${id}/2001/big`, { type: FileType.ProfilePhoto, location: { type: "photo", id, accessHash: 0n, source: { type: PhotoSourceType.ChatPhotoBig, chatId: 2001n, chatAccessHash: 77n } } });
        put(`peer/${id}/2001/small`, { type: FileType.ProfilePhoto, location: { type: "photo", id, accessHash: 0n, source: { type: PhotoSourceType.ChatPhotoSmall, chatId: 2001n, chatAccessHash: 77n } } }, { bytes: pattern(i * 7, fr.int(1, 9000)) });
        break;
      case "photo":
        for (const t of ["y", "x"]) put(`photo/${id}/${hash}/${t}`, { type: FileType.Photo, fileReference: new Uint8Array([1, 2, i]), location: { type: "photo", id, accessHash: hash, source: { type: PhotoSourceType.Thumbnail, fileType: FileType.Photo, thumbnailType: t.charCodeAt(0) } } });
        break;
      case "enc": {
        const n = Math.max(1, size);
        const plain = pattern(i * 17, n);
        const key = pattern(i * 19, 32), iv = pattern(i * 23, 32);
        const padded = new Uint8Array(Math.ceil(n / 16) * 16);
        padded.set(plain);
        const hex = (b: Uint8Array) => Array.from(b).map((v) => v.toString(16).padStart(2, "0")).join("");
        let bytes: Bytes = igeEncrypt(padded, key, iv);
        // a few have less on the server than they should
        const short = fr.bool(0.1) && bytes.byteLength > 16;
        if (short) bytes = bytes.slice(0, fr.bool(0.3) ? 0 : Math.floor(fr.int(0, bytes.byteLength - 16) / 16) * 16);
        put(`enc/${id}/${hash}`, { type: FileType.Encrypted, location: { type: "common", id, accessHash: hash } }, { bytes, plain, fileInformation: "0" + hex(key) + hex(iv) + n, ...(short ? { brokenFrom: -1 } : {}) });
        if (short) files.get(`enc/${id}/${hash}`)!.brokenFrom = Infinity, truncated.add(`enc/${id}/${hash}`);
        break;
      }
    }
  };
  const truncated = new Set<string>();
  for (let i = fr.int(1, focus === "C16" ? 1 : 4); i > 0; i--) addFile();

  //// THE PROGRAM ////
  const keyBytes = new Uint8Array(256).map((_, i) => (i * 37 + 11) & 255);
  await authorize(sim, server, disk, options, { dc: home, userId: SELF, isBot: false, key: keyBytes });
  if (preauthorized) {
    for (const dc of DCS) {
      if (dc === home) continue;
      for (const suffix of ["", "_media"]) {
        if (!cfg.bool(0.9)) continue;
        const key = pattern(Number(dc) * 7 + suffix.length, 256);
        const known = server.addKey(dc, key, { user: cfg.bool(0.9) ? SELF : undefined } as any) as AuthKey & { user?: number };
        if (known.user === undefined) strangers.add(known);
        const delay = disk.delay;
        disk.delay = [0, 0];
        await sim.until((async () => {
          const ops = new StorageOperations(new SimStorage(disk, "", options).branch(dc + suffix) as any);
          await ops.initialize();
          await ops.auth.update((v: any) => v.authKey = key);
          await ops.commit(true);
        })());
        disk.delay = delay;
      }
    }
  }

  interface Rec {
    p: Process;
    /** Bytes read and written per connection object of the client. */
    since: number;
    base: { messages: { sent: number; received: number }; media: { sent: number; received: number } };
    disconnected: boolean;
    disconnecting: boolean;
    handlers: ((ctx: any, next: any) => any)[];
    registered: number;
  }
  const zero = () => ({ messages: { sent: 0, received: 0 }, media: { sent: 0, received: 0 } });
  const recs: Rec[] = [];
  const h = sim.rng("handlers");

  /** Asks a handler of the program what to do about an error; every decision is written down. */
  function register(rec: Rec, which: string) {
    rec.registered++;
    rec.p.client.invoke.use(async ({ error, function: fn, n }: any, next: any) => {
      const p = fn?._ === "help.getDeepLinkInfo" ? planned.get(fn.path) : undefined;
      if (!p) return next();
      const text = String(error?.message ?? error);
      const decision = h.weighted([["next", 5], ["retry", 2], ["refuse", 1], ["wait", 1], ["next-retry", 0.7], ["next-twice", 0.7]]);
      const previous = p.consults.at(-1);
      p.consults.push({ which, n, error: text, decision, at: sim.now });
      if (!connFaults && !forgets && !disturbed(rec, p.startedAt)) checkConsult(rec, p, which, n, previous);
      sim.note(`HANDLER ${which} asked about ${p.token} n=${n} (${text}): ${decision}`);
      switch (decision) {
        case "retry":
          return true;
        case "wait":
          await sim.sleep(h.range(0, 3000), "handler.wait");
          return true;
        case "refuse":
          return false;
        case "next-retry":
          return (await next()) || true;
        case "next-twice": {
          const a = await next();
          const b = await next();
          sim.check(a === b, "C22", "next-differs", () => `asking the next handler twice about ${p.token} got ${a} and ${b}`);
          return a;
        }
        default:
          return next();
      }
    });
  }

  function checkConsult(rec: Rec, p: Planned, which: string, n: number, previous?: Planned["consults"][number]) {
    const last = p.runs.at(-1);
    sim.check(last !== undefined && last.answer !== "ok", "C22", "consulted-without-error", () => `handler ${which} was asked about ${p.token}, which had not failed`);
    const m = /^FLOOD_WAIT_(\d+)$/.exec(last?.answer ?? "");
    if (m && Number(m[1]) <= 10 && defaultHandlers) sim.violation("C22", "flood-not-waited", `handler ${which} was asked about ${p.token}, whose wait of ${m[1]} s is within the threshold`);
    sim.check(n === p.runs.length, "C22", "count", () => `handler ${which} was told that ${p.token} had failed ${n} times, it had ${p.runs.length} times`);
    // within one failure, in order of registration, each once and only if the one before passed on
    const order = Number(which.slice(1));
    if (previous && previous.n === n) {
      sim.check(Number(previous.which.slice(1)) === order - 1, "C22", "handler-order", () => `handler ${which} was asked about failure ${n} of ${p.token} after ${previous.which}`);
      sim.check(previous.decision.startsWith("next"), "C22", "handler-after-decision", () => `handler ${which} was asked about failure ${n} of ${p.token} although ${previous.which} had decided (${previous.decision})`);
    } else sim.check(order === 1, "C22", "handler-skipped", () => `handler ${which} was the first to be asked about failure ${n} of ${p.token}`);
  }

  const defaultHandlers = cfg.bool(0.85);
  const handlerCount = focus === "C22" ? cfg.pick([0, 1, 2, 3]) : 0;

  async function boot(): Promise<Rec> {
    const p = new Process(sim, recs.length, disk, tr, { persistCache, defaultHandlers, publicKeys, isPerfectForwardSecrecyEnabled: pfs }, options);
    const rec: Rec = { p, since: sim.now, base: zero(), disconnected: true, disconnecting: false, handlers: [], registered: 0 };
    if (persistCache) rec.base = await durableStats();
    recs.push(rec);
    for (let i = 1; i <= handlerCount; i++) register(rec, "h" + i);
    while (p.alive) {
      try {
        await p.start();
        break;
      } catch (err) {
        sim.note("start() failed: " + String(err).slice(0, 200));
        sim.probe("start.failed");
        await sim.sleep(2000, "user.retry");
      }
    }
    rec.disconnected = false;
    return rec;
  }
  async function durableStats() {
    const ops = new Snapshot(disk, options).ops;
    const get = async (k: string) => Number(await ops.get([k]) ?? 0);
    return { messages: { sent: await get("netstat_messages_write"), received: await get("netstat_messages_read") }, media: { sent: await get("netstat_media_write"), received: await get("netstat_media_read") } };
  }

  //// WORKLOAD ////
  /** Whether anything may have gone wrong for what started at this time. */
  const mayFail = connFaults || failingUploads;
  const w = sim.rng("work");
  const disturbed = (rec: Rec, at: number) => !rec.p.alive || rec.disconnecting || rec.disconnected || lastDisturbance >= at;

  async function download(rec: Rec, must = false, one?: Stored) {
    const f = one ?? w.pick([...files.values()]);
    const chunkSize = w.pick([1, 1, 2, 4, 8, 16]) * KB;
    const offset = w.bool(0.35) ? KB * w.int(0, Math.ceil(f.plain.byteLength / KB) + 1) : 0;
    const abortAt = !must && w.bool(0.12) ? w.range(0, 3000) : -1;
    const controller = new AbortController();
    const stopAfter = !must && w.bool(0.08) ? w.int(1, 5) : -1;
    const slow = w.bool(0.25) ? w.pick([1, 50, 800]) : 0;
    const chunkOnly = !must && w.bool(0.1);
    const name = `download #${++opCount} of ${f.key} (${f.plain.byteLength} bytes, DC ${f.dc}) by ${chunkSize} from ${offset}`;
    const params: any = { chunkSize, ...(w.bool(0.5) || offset ? { offset } : {}), ...(abortAt >= 0 || w.bool(0.3) ? { signal: controller.signal } : {}), ...(f.fileInformation ? { fileInformation: f.fileInformation } : {}) };
    const at = sim.now;
    const expected = f.plain.subarray(Math.min(offset, f.plain.byteLength));
    let abortedAt = -1;
    if (abortAt >= 0) {
      sim.after(abortAt, "user.abort", () => {
        abortedAt = sim.now;
        controller.abort();
      });
    }
    sim.note("START " + name);
    let got = 0;
    const impossible = truncated.has(f.key) || f.brokenFrom !== Infinity;
    const check = (chunk: Uint8Array) => {
      const want = expected.subarray(got, got + chunk.byteLength);
      if (!same(chunk, want)) sim.violation("C17", "bytes", `${name}: bytes ${got} to ${got + chunk.byteLength} are not the file's (which has ${expected.byteLength})`);
      got += chunk.byteLength;
    };
    let outcome = "";
    try {
      if (chunkOnly) {
        const b = await rec.p.client.downloadChunk(f.fileId, params);
        check(b);
        const want = Math.min(chunkSize, expected.byteLength);
        if (rec.p.alive && b.byteLength !== want) sim.violation("C17", "chunk-length", `${name}: the chunk has ${b.byteLength} bytes instead of ${want}`);
        outcome = "chunk";
      } else {
        let n = 0;
        for await (const chunk of rec.p.client.download(f.fileId, params)) {
          if (!rec.p.alive) return;
          check(chunk);
          if (slow) await sim.sleep(w.range(0, slow), "user.slow");
          if (++n === stopAfter) {
            outcome = "stopped";
            break;
          }
        }
        if (!rec.p.alive) return;
        if (outcome === "") {
          outcome = "done";
          if (got !== expected.byteLength) sim.violation("C17", "incomplete", `${name} ended normally after ${got} of ${expected.byteLength} bytes`);
          if (abortedAt >= 0 && got !== expected.byteLength) sim.violation("C17", "aborted-normally", `${name} was aborted and ended normally`);
        }
      }
    } catch (err) {
      if (!rec.p.alive) return;
      outcome = "error " + String((err as any)?.message ?? err).slice(0, 120);
      if (abortedAt < 0 && !mayFail && !impossible && !disturbed(rec, at)) sim.violation("C17", "failed", `${name} failed although nothing was wrong: ${outcome}`);
      if (must && !impossible && !disturbed(rec, at)) sim.violation("C17", "failed-after-heal", `${name} failed on a healthy network: ${(err as any)?.stack}`);
    }
    if (abortedAt >= 0 && !connFaults && sim.now - abortedAt > 25000 + slow && !disturbed(rec, at)) sim.violation("C17", "abort-late", `${name} ended ${((sim.now - abortedAt) / 1000).toFixed(0)} s after it was aborted`);
    sim.probe("download." + outcome.split(" ")[0]);
    sim.note(`END ${name}: ${outcome}`);
    return outcome;
  }

  async function upload(rec: Rec, must = false) {
    const big = !must && tier !== "none" && w.bool(0.01);
    const chunkSize = big ? 512 * KB : w.pick([1, 1, 2, 4, 16]) * KB;
    const size = big ? 10 * KB * KB + w.pick([-1, 0, 1, 5000]) : w.weighted([[0, 0.3], [1, 0.4], [w.int(1, 3000), 2], [chunkSize * w.int(1, 20), 3], [chunkSize * w.int(1, 20) + w.pick([-1, 1, 15]), 3]]);
    const content = pattern(opCount + 1000, size);
    const source = w.weighted([["buffer", 3], ["stream", 2], ["iterable", 1], ["generator", 1]]);
    const encrypted = w.bool(0.25);
    const information = encrypted ? { key: pattern(opCount * 3, 32), iv: pattern(opCount * 5, 32) } : undefined;
    const abortAt = !must && w.bool(0.12) ? w.range(0, 3000) : -1;
    const failAt = !must && source !== "buffer" && w.bool(0.12) ? w.int(0, size) : -1;
    const controller = new AbortController();
    const fileName = w.bool(0.5) ? w.pick(["a.bin", " b c.txt ", "ф.jpg", "   "]) : undefined;
    const name = `upload #${++opCount} of ${size} bytes (${source}${encrypted ? ", encrypted" : ""}) by ${chunkSize}`;
    const params: any = { chunkSize, ...(fileName !== undefined ? { fileName } : {}), ...(abortAt >= 0 ? { signal: controller.signal } : {}), ...(w.bool(0.3) ? { fileSize: size || undefined } : {}) };
    const at = sim.now;
    let abortedAt = -1;
    if (abortAt >= 0) {
      sim.after(abortAt, "user.abort", () => {
        abortedAt = sim.now;
        controller.abort();
      });
    }
    const pieces: Uint8Array[] = [];
    for (let o = 0; o < size;) {
      const n = Math.min(size - o, big ? w.int(100000, 3000000) : w.pick([w.int(1, 300), w.int(1, 5000), chunkSize]));
      pieces.push(content.slice(o, o + n));
      o += n;
    }
    const gap = w.bool(0.3) ? w.pick([1, 100, 3000]) : 0;
    const src = sim.rng("source");
    let failed = false;
    async function* generate() {
      let o = 0;
      for (const p of pieces) {
        if (failAt >= 0 && o + p.byteLength > failAt) {
          failed = true;
          throw Object.assign(new Error("simulated failure of the source"), { expected: true });
        }
        if (gap) await sim.sleep(src.range(0, gap / Math.sqrt(pieces.length)), "source");
        yield p;
        o += p.byteLength;
      }
      if (failAt >= 0) {
        failed = true;
        throw Object.assign(new Error("simulated failure of the source"), { expected: true });
      }
    }
    let file: any;
    switch (source) {
      case "buffer":
        file = content.slice();
        break;
      case "stream": {
        const it = generate();
        file = new ReadableStream({
          async pull(c) {
            const { value, done } = await it.next();
            done ? c.close() : c.enqueue(value);
          },
        });
        break;
      }
      case "iterable":
        file = { [Symbol.asyncIterator]: () => generate() };
        break;
      case "generator":
        file = generate();
        break;
    }
    const progress = w.bool(0.2);
    if (progress) params.progressId = await rec.p.client.getProgressId();
    sim.note("START " + name);
    let outcome = "";
    try {
      const result: any = await (rec.p.client as any).managers.fileManager.upload(file, params, null, true, information);
      if (!rec.p.alive) return;
      outcome = "done";
      if (failed || failAt >= 0) sim.violation("C16", "source-failed", `${name} succeeded although its source failed`);
      if (size === 0) sim.violation("C16", "empty", `${name} succeeded, but there is nothing`);
      const f = encrypted ? result.inputEncryptedFile : result;
      const u = uploads.get(String(f.id));
      if (!u) {
        sim.violation("C16", "unknown", `${name} returned the file ${f.id}, of which the server has nothing`);
        return;
      }
      const isBig = /Big/.test(f._);
      sim.check(f.parts === Math.ceil(size / chunkSize), "C16", "parts", () => `${name} returned ${f.parts} parts instead of ${Math.ceil(size / chunkSize)}`);
      sim.check(isBig ? !u.small : !u.big, "C16", "kind", () => `${name} returned ${f._} but parts were uploaded as ${u.small ? "small" : ""} ${u.big ? "big" : ""}`);
      sim.check(isBig || size <= 10 * KB * KB, "C16", "kind", () => `${name} returned ${f._}`);
      if (isBig) sim.check([...u.totals].every((v) => v === -1 || v === f.parts) && u.totals.has(f.parts), "C16", "totals", () => `${name} has ${f.parts} parts, and the server was told ${[...u.totals].join(" and ")}`);
      const missing = Array.from({ length: f.parts }, (_, i) => i).filter((i) => !u.parts.has(i));
      if (missing.length || u.parts.size !== f.parts) {
        sim.violation("C16", "missing-parts", `${name} returned ${f.parts} parts, the server has ${u.parts.size}${missing.length ? `, without ${missing.slice(0, 5).join(", ")}` : ""}`);
        return;
      }
      let bytes: Bytes = cat(...Array.from({ length: f.parts }, (_, i) => u.parts.get(i)!));
      if (encrypted) {
        sim.check(result.fileSize === size, "C16", "size", () => `${name} returned the size ${result.fileSize}`);
        const digest = createHash("md5").update(cat(information!.key, information!.iv)).digest();
        const want = (digest.readInt32LE(0) ^ digest.readInt32LE(4)) >>> 0;
        sim.check((f.key_fingerprint >>> 0) === want, "C16", "fingerprint", () => `${name} returned the fingerprint ${f.key_fingerprint}`);
        if (bytes.byteLength % 16 !== 0 || bytes.byteLength - size >= 16 || bytes.byteLength < size) {
          sim.violation("C16", "bytes", `${name}: the server has ${bytes.byteLength} encrypted bytes`);
          return;
        }
        bytes = igeDecrypt(bytes, information!.key, information!.iv).slice(0, size);
      } else {
        const want = fileName?.trim() || "file";
        sim.check(f.name === want, "C16", "name", () => `${name} was to be called ${JSON.stringify(want)} and is called ${JSON.stringify(f.name)}`);
        for (let i = 0; i < f.parts - 1; i++) sim.check(u.parts.get(i)!.byteLength === chunkSize, "C16", "part-size", () => `${name}: part ${i} has ${u.parts.get(i)!.byteLength} bytes`);
      }
      if (!same(bytes, content)) sim.violation("C16", "bytes", `${name}: what the server has (${bytes.byteLength} bytes) is not what the source had`);
    } catch (err) {
      if (!rec.p.alive) return;
      outcome = "error " + String((err as any)?.message ?? err).slice(0, 120);
      if (abortedAt < 0 && !failed && failAt < 0 && size > 0 && !mayFail && !disturbed(rec, at)) sim.violation("C16", "failed", `${name} failed although nothing was wrong: ${(err as any)?.stack}`);
      if (must && size > 0 && !disturbed(rec, at)) sim.violation("C16", "failed-after-heal", `${name} failed on a healthy network: ${(err as any)?.stack}`);
    }
    if (abortedAt >= 0 && !connFaults && sim.now - abortedAt > 25000 && !disturbed(rec, at)) sim.violation("C16", "abort-late", `${name} ended ${((sim.now - abortedAt) / 1000).toFixed(0)} s after it was aborted`);
    sim.probe("upload." + outcome.split(" ")[0]);
    sim.note(`END ${name}: ${outcome}`);
    return outcome;
  }

  async function call(rec: Rec, must = false) {
    const token = `call-${++opCount}-${rec.p.index}`;
    const dc = w.bool(focus === "C23" ? 0.7 : 0.25) ? w.pick(DCS) : undefined;
    const type = w.bool(0.2) && dc !== undefined ? "download" as const : undefined;
    const answers: string[] = [];
    if (!must && (focus === "C22" || w.bool(0.15))) {
      for (let i = w.int(0, 4); i > 0; i--) answers.push(w.weighted([[`FLOOD_WAIT_${w.int(1, 10)}`, 4], [`FLOOD_WAIT_${w.int(11, 40)}`, 1], ["400 PEER_ID_INVALID", 1], ["500 RPC_CALL_FAIL", 1], ["406 PRECONDITION", 0.5]]));
    }
    const p: Planned = { token, dc, type, answers, runs: [], consults: [], settled: false, rec, startedAt: sim.now };
    planned.set(token, p);
    const at = sim.now;
    sim.note(`START ${token}${dc ? " for DC " + dc : ""}${type ? " (" + type + ")" : ""}: ${answers.join(", ")}`);
    let outcome = "";
    try {
      const params = dc === undefined && w.bool(0.5) ? undefined : { ...(dc === undefined ? {} : { dc: dc as any }), ...(type ? { type } : {}) };
      const v: any = await rec.p.client.invoke({ _: "help.getDeepLinkInfo", path: token } as any, params as any);
      if (!rec.p.alive) return;
      p.settled = true;
      outcome = "ok";
      sim.check(v?.message === token + "!", "C22", "wrong-result", () => `${token} got the result ${v?.message}`);
      const last = p.runs.at(-1);
      if (!connFaults && !disturbed(rec, at)) sim.check(last?.answer === "ok", "C22", "outcome", () => `${token} succeeded although its last answer was ${last?.answer}`);
    } catch (err) {
      if (!rec.p.alive) return;
      p.settled = true;
      const text = String((err as any)?.message ?? err);
      outcome = "error " + text.slice(0, 120);
      const last = p.runs.at(-1);
      if (!connFaults && !disturbed(rec, at)) {
        const name = last?.answer.split(" ").at(-1) ?? "?";
        const matches = (err as any)?.errorMessage === name || text.includes(name) || (err as any)?.seconds !== undefined && name === `FLOOD_WAIT_${(err as any).seconds}`;
        sim.check(last !== undefined && last.answer !== "ok" && matches, "C22", "outcome", () => `${token} failed with ${text} although its last answer was ${last?.answer}`);
        // who decided that?
        const c = p.consults.at(-1);
        const m = /^FLOOD_WAIT_(\d+)$/.exec(last?.answer ?? "");
        if (m && Number(m[1]) <= 10 && defaultHandlers) sim.violation("C22", "flood-not-waited", `${token} failed because of a wait of ${m[1]} s, which is within the threshold`);
        if (handlerCount && last) {
          const mine = p.consults.filter((v) => v.n === p.runs.length);
          sim.check(mine.length > 0, "C22", "handler-not-asked", () => `${token} failed with ${text} without asking the handlers`);
          const end = mine.at(-1);
          if (end) sim.check(end.decision === "refuse" || end.decision.startsWith("next") && end.which === "h" + handlerCount, "C22", "handler-skipped", () => `${token} failed with ${text} after ${end.which} had decided ${end.decision}`);
          sim.check(!mine.some((v) => v.decision === "next-retry"), "C22", "decision-ignored", () => `${token} failed although ${c?.which} had decided to repeat it`);
        }
      }
      if (must && !disturbed(rec, at)) sim.violation("C23", "failed-after-heal", `${token} for DC ${dc ?? home} failed on a healthy network: ${(err as any)?.stack}`);
      if (!mayFail && !answers.length && !disturbed(rec, at)) sim.violation("C23", "failed", `${token} for DC ${dc ?? home} failed although nothing was wrong: ${(err as any)?.stack}`);
    }
    sim.probe("call." + outcome.split(" ")[0]);
    sim.note(`END ${token}: ${outcome}`);
    return outcome;
  }
  let opCount = 0;

  //// STATISTICS ////
  /** What the connections of a process carried; the least and the most, as connections that carried nothing yet may be for creating keys. */
  function carried(rec: Rec) {
    const out = { min: zero(), max: zero() };
    const groups = new Map<any, { plain: boolean; encrypted: boolean; media: boolean; read: number; written: number }>();
    for (const c of seen) {
      if (c.process !== rec.p.index) continue;
      let g = groups.get(c.object);
      if (!g) groups.set(c.object, g = { plain: false, encrypted: false, media: c.media, read: 0, written: 0 });
      g.read += c.conn.bytesRead;
      g.written += c.conn.bytesWritten;
      const k = kinds.get(c.conn);
      if (k === "plain") g.plain = true;
      if (k === "encrypted") g.encrypted = true;
    }
    for (const g of groups.values()) {
      if (g.plain) continue;
      const t = g.media ? "media" : "messages";
      out.max[t].sent += g.written;
      out.max[t].received += g.read;
      if (!g.encrypted) continue;
      out.min[t].sent += g.written;
      out.min[t].received += g.read;
    }
    return out;
  }
  const seen: { conn: Conn; object: any; process: number; media: boolean }[] = [];
  const kinds = new Map<Conn, "plain" | "encrypted">();

  // which connection object of the client dials, and whether it is for media
  {
    const inner = tr.provider;
    tr.provider = (params: any) => {
      const made = inner(params);
      const open = made.connection.open.bind(made.connection);
      made.connection.open = () => {
        opening = { object: made.connection, media: !!params.isMedia };
        try {
          return open();
        } finally {
          opening = null;
        }
      };
      return made;
    };
  }
  let opening: { object: any; media: boolean } | null = null;
  net.onDial = (conn: Conn) => {
    if (opening) seen.push({ conn, object: opening.object, media: opening.media, process: recs.length - 1 });
    else sim.probe("dial.unattributed");
  };
  server.onPacketKind = (c, plain) => {
    if (!kinds.has(c.conn)) kinds.set(c.conn, plain ? "plain" : "encrypted");
  };

  type Stats = ReturnType<typeof zero>;
  const each = (f: (t: "messages" | "media", d: "sent" | "received") => void) => {
    for (const t of ["messages", "media"] as const) for (const d of ["sent", "received"] as const) f(t, d);
  };
  let lastStats: { rec: Rec; stats: Stats } | null = null;
  async function statistics(rec: Rec, exact = false) {
    const before = carried(rec);
    const at = sim.now;
    const s: Stats = await rec.p.client.getNetworkStatistics();
    if (!rec.p.alive) return;
    const after = carried(rec);
    each((t, d) => {
      const top = rec.base[t][d] + after.max[t][d];
      sim.check(s[t][d] <= top, "C20", "too-much", () => `process ${rec.p.index} reports ${s[t][d]} bytes of ${t} ${d}, at most ${top} were${rec.base[t][d] ? ` (${rec.base[t][d]} stored at the start)` : ""}`);
      sim.check(s[t][d] >= rec.base[t][d], "C20", "too-little", () => `process ${rec.p.index} reports ${s[t][d]} bytes of ${t} ${d}, and started from ${rec.base[t][d]}`);
      const before_ = lastStats?.rec === rec ? lastStats.stats[t][d] : 0;
      sim.check(s[t][d] >= before_, "C20", "decreased", () => `process ${rec.p.index} reports ${s[t][d]} bytes of ${t} ${d} after ${before_}`);
      if (exact) {
        const low = rec.base[t][d] + before.min[t][d];
        sim.check(s[t][d] >= low, "C20", "too-little", () => `process ${rec.p.index} reports ${s[t][d]} bytes of ${t} ${d} on a quiet line, at least ${low} were`);
      }
    });
    lastStats = { rec, stats: s };
    void at;
  }

  //// THE RUN ////
  let rec!: Rec;
  let booting = true;
  (async () => {
    rec = await boot();
    booting = false;
  })();
  await sim.run(() => !booting, 600000);
  if (booting) {
    sim.faultsEnabled = false;
    net.faults = { ...NO_NET_FAULTS };
    server.faults = { ...NO_MT_FAULTS };
    net.partitionedUntil = 0;
    await sim.run(() => !booting, sim.now + 600000);
    if (booting) return;
    sim.faultsEnabled = true;
  }

  const total = w.int(3, tier === "thorough" ? 26 : 16);
  const span = w.pick([3000, 20000, 90000]);
  let started = 0;
  let busy = true;
  const idleAt = cfg.bool(focus === "C23" ? 0.25 : 0.03) ? cfg.int(1, total - 1) : -1;
  const weights: Record<string, [string, number][]> = {
    C16: [["upload", 9], ["call", 1], ["download", 0.5]],
    C17: [["download", 9], ["call", 1], ["upload", 0.3]],
    C20: [["download", 3], ["upload", 3], ["call", 3], ["stats", 4]],
    C22: [["call", 9], ["download", 0.6]],
    C23: [["call", 4], ["download", 4], ["upload", 1]],
  };
  const running = new Set<{ rec: Rec }>();
  const spawn = (p: Promise<unknown>) => {
    const o = { rec };
    running.add(o);
    p.finally(() => running.delete(o));
  };
  /** Operations of a process that has crashed never end. */
  const open = () => {
    let n = 0;
    for (const o of running) if (o.rec.p.alive) n++;
    return n;
  };
  (async () => {
    while (started < total) {
      started++;
      const keep = sim.op();
      const what = w.weighted(weights[focus] ?? weights.C23);
      if (rec.p.alive && !rec.disconnected && !rec.disconnecting) {
        const go = what === "download" ? download : what === "upload" ? upload : what === "stats" ? statistics : call;
        if (keep) spawn((go as any)(rec));
      }
      await sim.sleep(w.pick([w.range(0, 20), w.range(0, 1500), w.range(0, span / 3)]), "world.pause");
      // long enough for connections to be closed because nothing uses them
      if (started === idleAt) await sim.sleep(w.range(350000, 500000), "world.idle");
    }
    busy = false;
  })();
  // the program crashes and restarts
  (async () => {
    for (let i = 0; i < crashes; i++) {
      await sim.sleep(w.range(500, span), "world.crash");
      if (!sim.faultsEnabled || booting || rec.disconnecting) continue;
      if (!sim.fault("proc.crash", 1)) continue;
      lastDisturbance = sim.now;
      booting = true;
      const old = rec;
      const final = carried(old);
      rec.p.crash();
      sim.note(`process ${old.p.index} crashed`);
      if (persistCache) {
        const durable = await durableStats();
        each((t, d) => {
          const top = old.base[t][d] + final.max[t][d];
          sim.check(durable[t][d] <= top, "C20", "too-much-stored", () => `after a crash ${durable[t][d]} bytes of ${t} ${d} are stored, ${top} were`);
          sim.check(durable[t][d] >= old.base[t][d], "C20", "lost-in-crash", () => `after a crash ${durable[t][d]} bytes of ${t} ${d} are stored, ${old.base[t][d]} were at the start`);
        });
      }
      await sim.sleep(w.range(5, 5000), "world.down");
      rec = await boot();
      lastDisturbance = sim.now;
      booting = false;
    }
  })();
  // the program disconnects and connects again
  const pauses = cfg.bool(focus === "C23" ? 0.4 : 0.15) ? cfg.int(1, 2) : 0;
  const ends = (r: Rec) => seen.filter((v) => v.process === r.p.index && net.open.has(v.conn) && v.conn.alive);
  const describe = (v: typeof seen[number]) => `one opened at ${(v.conn.openedAt / 1000).toFixed(1)} s ${v.media ? "for media" : "for messages"} (${kinds.get(v.conn) ?? "unused"}, ${v.conn.bytesWritten} bytes written)`;
  let pausing = false;
  async function pause(r: Rec) {
    r.disconnecting = true;
    lastDisturbance = sim.now;
    sim.note("the program disconnects");
    try {
      await r.p.client.disconnect();
    } catch (err) {
      sim.note("disconnect() failed: " + err);
    }
    r.disconnected = true;
    const since = sim.now;
    await sim.sleep(w.pick([w.range(0, 50), w.range(0, 3000), w.range(20000, 90000)]), "user.pause");
    if (r.p.alive && sim.now - since >= 15000) {
      if (!handlerCount) for (const p of planned.values()) if (p.rec === r && !p.settled && p.startedAt < since) sim.violation("C22", "not-released", `${p.token} has not ended ${((sim.now - since) / 1000).toFixed(0)} s after disconnect()`);
      const left = ends(r);
      if (left.length) sim.violation("C23", "left-open", `${left.length} connection(s) of process ${r.p.index} are still open ${((sim.now - since) / 1000).toFixed(0)} s after disconnect(), ${describe(left[0])}`);
      const late = seen.filter((v) => v.process === r.p.index && v.conn.openedAt > since + 15000);
      if (late.length) sim.violation("C23", "opened-later", `process ${r.p.index} opened a connection ${((late[0].conn.openedAt - since) / 1000).toFixed(0)} s after disconnect()`);
    }
    while (r.p.alive) {
      try {
        await (w.bool(0.5) ? r.p.client.connect() : r.p.client.start());
        break;
      } catch (err) {
        sim.note("connect() failed: " + err);
        await sim.sleep(2000, "user.retry");
      }
    }
    r.disconnected = r.disconnecting = false;
    lastDisturbance = sim.now;
    sim.note("the program is connected again");
  }
  (async () => {
    for (let i = 0; i < pauses; i++) {
      await sim.sleep(w.range(300, span), "user.pause");
      if (booting || !rec.p.alive || rec.disconnecting) continue;
      if (!sim.fault("user.disconnect", 1)) continue;
      pausing = true;
      await pause(rec);
      pausing = false;
    }
  })();
  await sim.run(() => !busy && open() === 0 && !booting && !pausing, Math.max(1500000, span * 4));

  //// heal ////
  sim.faultsEnabled = false;
  net.faults = { ...NO_NET_FAULTS, shortRead: net.faults.shortRead, partialWrite: net.faults.partialWrite };
  net.partitionedUntil = 0;
  server.faults = { ...NO_MT_FAULTS };
  disk.heal();
  sim.note("---- healed ----");
  await sim.run(() => !busy && open() === 0 && !booting && !pausing, sim.now + 900000);
  if (booting || pausing || !rec.p.alive) {
    sim.note("not started in time");
    return;
  }
  if (open() > 0) sim.violation(focus === "C16" ? "C16" : focus === "C17" ? "C17" : focus === "C22" ? "C22" : "C23", "never-ended", `${open()} operation(s) have not ended 15 minutes after the last fault`);
  await sim.run(() => rec.p.client.isConnected, sim.now + 300000);
  lastDisturbance = sim.now;
  // connections that were stalled are noticed
  await sim.run(() => false, sim.now + (faulty ? 100000 : 5000));
  await sim.run(() => rec.p.client.isConnected, sim.now + 300000);
  lastDisturbance = sim.now - 1;

  // everything works now
  let pending = 0;
  const must = (p: Promise<unknown>) => {
    pending++;
    p.finally(() => pending--);
  };
  const good = [...files.values()].filter((f) => f.brokenFrom === Infinity && !truncated.has(f.key));
  if (focus !== "C16" && focus !== "C22") for (const f of good.slice(0, 3)) must(download(rec, true, f));
  if (focus !== "C17" && focus !== "C22" && !failingUploads) must(upload(rec, true));
  for (let i = 0; i < 2; i++) must(call(rec, true));
  await sim.run(() => pending === 0, sim.now + 400000);
  if (pending > 0) sim.violation(focus === "C20" ? "C23" : focus, "stalled-after-heal", `${pending} operation(s) did not end within 400 s on a healthy network`);

  if (focus === "C20") {
    // a moment at which nothing moves
    for (let k = 0; k < 30; k++) {
      const a = JSON.stringify(carried(rec));
      await sim.run(() => false, sim.now + 12000);
      if (a !== JSON.stringify(carried(rec))) continue;
      let done = false;
      (async () => {
        await statistics(rec, true);
        done = true;
      })();
      await sim.run(() => done, sim.now + 60000);
      sim.probe("stats.exact");
      break;
    }
  }
  // the end: nothing is left
  if (focus === "C23") {
    let done = false;
    (async () => {
      await rec.p.client.disconnect().catch(() => {});
      done = true;
    })();
    await sim.run(() => done, sim.now + 120000);
    rec.disconnecting = true;
    const since = sim.now;
    await sim.run(() => false, sim.now + 120000);
    const left = ends(rec);
    if (left.length) sim.violation("C23", "left-open", `${left.length} connection(s) of process ${rec.p.index} are still open two minutes after disconnect(), ${describe(left[0])}`);
    const late = seen.filter((v) => v.process === rec.p.index && v.conn.openedAt > since + 15000);
    if (late.length) sim.violation("C23", "opened-later", `process ${rec.p.index} opened a connection ${((late[0].conn.openedAt - since) / 1000).toFixed(0)} s after disconnect()`);
  }
}

export default {
  unhandled: (focus) => focus,
  stuck: (focus) => focus,
  components: {
    real: ["Client (6_client.ts) with its pools and storages", "FileManager", "NetworkStatisticsManager", "ClientEncrypted, ClientPlain, sessions, transports, connections", "StorageOperations"],
    stub: ["Telegram's data centres (files, uploads, authorization transfer, planned answers)", "network sockets", "storage backend", "clock, timers, randomness"],
  },
  run,
} as World;
void ({} as Rng);
