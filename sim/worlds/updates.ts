// World: a whole Client and an account whose updates are lost, delayed, reordered, repeated and regrouped on their way,
// while connections break and the process crashes and restarts.
import type { World } from "../core/run.ts";
import type { Sim } from "../core/sim.ts";
import type { Rng } from "../core/rng.ts";
import { captureLogs, makeNet, makeTransport, MT_RATES, MtServer, NET_RATES, NO_MT_FAULTS, NO_NET_FAULTS, swarm, type TransportKind } from "./common.ts";
import { W } from "../server/wire.ts";
import { type MtSession, ok, type RpcContext, type RpcReply } from "../server/mt.ts";
import { NO_DISK_FAULTS, SimDisk } from "../stubs/disk.ts";
import { authorize, channelOf, Process, Snapshot, userOf } from "./client_common.ts";
import { Api } from "/repo/2_tl.ts";

// deno-lint-ignore-file no-explicit-any

const SELF = 1000;
const PEOPLE = [2001, 2002, 2003, 2004];

type BoxId = "pts" | "qts" | "seq" | bigint;

interface Ev {
  token: string;
  box: BoxId;
  /** Position after it, and how far it moves the position. */
  pos: number;
  count: number;
  /** What is pushed; null for changes of the position that carry nothing (read receipts of one's own calls and the like). */
  update: any;
  /** For new messages. */
  message?: any;
  at: number;
  /** Differences which are too long skip events. */
  skipped: boolean;
  /** Whether a difference that was too long carried it. */
  resync: boolean;
}

/** One sequence of the account. */
class Box {
  id: BoxId;
  pos: number;
  events: Ev[] = [];
  constructor(id: BoxId, pos: number) {
    this.id = id;
    this.pos = pos;
  }
  after(pos: number): Ev[] {
    return this.events.filter((e) => e.pos > pos);
  }
}

/** Names what an update carries; every event has its own name. */
export function tokenOf(u: any): string | null {
  switch (u?._) {
    case "updateNewMessage":
    case "updateNewChannelMessage":
      return u.message?.id !== undefined ? `new:${u.message.id}` : null;
    case "updateEditMessage":
    case "updateEditChannelMessage":
      return `edit:${u.message.message}`;
    case "updateDeleteMessages":
    case "updateDeleteChannelMessages":
      return `del:${u.messages[0]}`;
    case "updateReadHistoryInbox":
      return `read:${u.max_id}`;
    case "updateMessagePollVote":
      return `vote:${u.poll_id}`;
    case "updateBotStopped":
      return `stop:${u.date}`;
    case "updateUserStatus":
      return `status:${u.status.expires}`;
  }
  return null;
}

interface Delivered {
  ev: Ev;
  t: number;
  order: number;
}

/** What one process was shown. */
interface Record_ {
  p: Process;
  list: Delivered[];
  count: Map<string, number>;
  /** Position per box from which everything has to be shown; absent until known. */
  base: Map<BoxId, number>;
  /** Position per box at or below which nothing may be shown. */
  floor: Map<BoxId, number>;
  /** Events that were stored but not yet confirmed when the process started. */
  pending: Set<string>;
  copies: Map<string, number>;
  thrown: Set<string>;
  /** High-level messages shown, by token. */
  messages: Map<string, number>;
  connection: { state: string; t: number }[];
  running: number;
  lastDone: number;
  optionalUntil: Map<BoxId, number>;
  authorized?: boolean;
  lastOfAccount: string | null;
}

async function run(sim: Sim, focus: string, tier: string, info: Record<string, unknown>) {
  captureLogs(sim);
  const cfg = sim.rng("cfg");
  const faulty = cfg.bool(0.75);
  const kind = cfg.weighted<TransportKind>([["tcp", 6], ["tcp-obf", 1], ["ws", 1], ["inter", 1]]);
  const isBot = cfg.bool(0.35);
  const guarantee = focus === "C13" ? cfg.bool(0.9) : cfg.bool(0.3);
  const drop = cfg.weighted<boolean | undefined>([[undefined, 4], [true, 1], [false, 1]]);
  const drops = drop ?? isBot;
  const crashes = focus === "C13" ? cfg.pick([0, 1, 2, 3]) : cfg.pick([0, 0, 1, 2]);
  const options = { mustSerialize: cfg.bool(0.7), supportsFiles: true };
  const persistCache = cfg.bool(0.4);
  const quiet = !faulty && cfg.bool(0.4);

  const net = makeNet(sim, faulty ? swarm(sim, "net", NO_NET_FAULTS, NET_RATES, 0.25) : { ...NO_NET_FAULTS });
  const tr = makeTransport(kind, cfg.bytes(16), sim);
  const mtFaults = faulty ? swarm(sim, "mt", NO_MT_FAULTS, { ...MT_RATES, rpcInternal: 0.03 }, 0.3) : { ...NO_MT_FAULTS };
  const server = new MtServer(sim, net, { ...tr.options, properties: {} }, mtFaults, handler);
  server.listenDirect();
  server.replyDelay = cfg.pick([[0, 5], [1, 60], [1, 60], [1, 1500]]);
  const disk = new SimDisk(sim, "disk", { ...NO_DISK_FAULTS, slow: faulty && cfg.bool(0.3) ? 0.02 : 0 });
  disk.delay = cfg.pick<[number, number]>([[0.02, 0.1], [0.02, 2], [0.02, 40]]);
  await authorize(sim, server, disk, options, { dc: "2", userId: SELF, isBot, key: cfg.bytes(256) });

  //// THE ACCOUNT ////
  const w = sim.rng("account");
  const box = new Map<BoxId, Box>();
  const main = new Box("pts", w.pick([1, 40, 100000]));
  const qts = new Box("qts", w.pick([0, 1, 5000]));
  const seq = new Box("seq", w.pick([1, 30]));
  for (const b of [main, qts, seq]) box.set(b.id, b);
  const channelIds = [71n, 72n, 73n].slice(0, w.int(focus === "C12" ? 1 : 0, 3));
  for (const id of channelIds) box.set(id, new Box(id, w.pick([1, 10, 3000])));
  const events = new Map<string, Ev>();
  let nextId = w.pick([1, 500, 70000]);
  const date = () => Math.floor(sim.trueTime() / 1000);
  const state = () => ({ _: "updates.state", pts: main.pos, qts: qts.pos, date: date(), seq: seq.pos, unread_count: 0 });
  const people = () => PEOPLE.map((v) => userOf(v)).concat([userOf(SELF, { self: true, ...(isBot ? { bot: true, bot_info_version: 1 } : {}), first_name: "Me" })]);
  const chats = () => channelIds.map((v) => channelOf(v));

  function add(b: Box, token: string | null, count: number, make: ((pos: number) => any) | null, message?: any): Ev {
    b.pos += count;
    const ev: Ev = { token: token ?? `hole:${String(b.id)}:${b.pos}`, box: b.id, pos: b.pos, count, update: make ? make(b.pos) : null, message, at: sim.now, skipped: false, resync: false };
    b.events.push(ev);
    if (make) events.set(ev.token, ev);
    sim.note(`event ${String(b.id)} ${b.pos} (+${count}) ${ev.token}`);
    return ev;
  }
  function message(from: number, text: string, extra: any = {}) {
    return { _: "message", id: ++nextId, peer_id: { _: "peerUser", user_id: BigInt(from) }, date: date(), message: text, ...extra };
  }
  function happen(r: Rng): Ev {
    const b = r.weighted<Box>([[main, 5], [qts, 1.2], [seq, 1], ...channelIds.map((c) => [box.get(c)!, focus === "C12" ? 5 : 1.5] as [Box, number])]);
    if (b === qts) {
      if (r.bool(0.5)) {
        const id = BigInt(++nextId);
        return add(b, `vote:${id}`, 1, (qts) => ({ _: "updateMessagePollVote", poll_id: id, peer: { _: "peerUser", user_id: BigInt(PEOPLE[0]) }, options: [], positions: [], qts }));
      }
      const d = ++nextId;
      return add(b, `stop:${d}`, 1, (qts) => ({ _: "updateBotStopped", user_id: BigInt(PEOPLE[1]), date: d, stopped: true, qts }));
    }
    if (b === seq) {
      const d = ++nextId;
      return add(b, `status:${d}`, 1, () => ({ _: "updateUserStatus", user_id: BigInt(PEOPLE[2]), status: { _: "userStatusOnline", expires: d } }));
    }
    if (r.bool(0.06)) return add(b, null, r.int(1, 3), null);
    if (typeof b.id === "bigint") {
      const channel_id = b.id;
      const peer_id = { _: "peerChannel", channel_id };
      const m = () => ({ _: "message", id: ++nextId, peer_id, from_id: { _: "peerUser", user_id: BigInt(r.pick(PEOPLE)) }, date: date(), message: "hi" });
      switch (r.weighted([["new", 5], ["edit", 1], ["del", 1]])) {
        case "new": {
          const msg = m();
          return add(b, `new:${msg.id}`, 1, (pts) => ({ _: "updateNewChannelMessage", message: msg, pts, pts_count: 1 }), msg);
        }
        case "edit": {
          const msg = { ...m(), edit_date: date() };
          msg.message = String(msg.id);
          return add(b, `edit:${msg.message}`, 1, (pts) => ({ _: "updateEditChannelMessage", message: msg, pts, pts_count: 1 }));
        }
        default: {
          const n = r.int(1, 3);
          const ids = Array.from({ length: n }, () => ++nextId);
          return add(b, `del:${ids[0]}`, n, (pts) => ({ _: "updateDeleteChannelMessages", channel_id, messages: ids, pts, pts_count: n }));
        }
      }
    }
    switch (r.weighted([["new", 5], ["edit", 1], ["del", 1], ["read", 1]])) {
      case "new": {
        const msg = message(r.pick(PEOPLE), "hello");
        return add(b, `new:${msg.id}`, 1, (pts) => ({ _: "updateNewMessage", message: msg, pts, pts_count: 1 }), msg);
      }
      case "edit": {
        const msg = message(r.pick(PEOPLE), "", { edit_date: date() });
        msg.message = String(msg.id);
        return add(b, `edit:${msg.message}`, 1, (pts) => ({ _: "updateEditMessage", message: msg, pts, pts_count: 1 }));
      }
      case "del": {
        const n = r.int(1, 3);
        const ids = Array.from({ length: n }, () => ++nextId);
        return add(b, `del:${ids[0]}`, n, (pts) => ({ _: "updateDeleteMessages", messages: ids, pts, pts_count: n }));
      }
      default: {
        const id = ++nextId;
        return add(b, `read:${id}`, 1, (pts) => ({ _: "updateReadHistoryInbox", peer: { _: "peerUser", user_id: BigInt(PEOPLE[0]) }, max_id: id, still_unread_count: 0, pts, pts_count: 1 }));
      }
    }
  }

  //// PUSHING ////
  const loss = faulty && cfg.bool(0.6) ? cfg.pick([0.05, 0.2, 0.6]) : 0;
  const dup = faulty && cfg.bool(0.5) ? cfg.pick([0.05, 0.3]) : 0;
  const late = faulty && cfg.bool(0.6) ? cfg.pick([0.1, 0.4]) : 0;
  const tooLong = faulty && cfg.bool(0.3) ? 0.05 : 0;
  const unknown = faulty && cfg.bool(0.3) ? 0.04 : 0;
  const sessions = () => server.liveSessions((s: MtSession) => s.inited && !s.authKey.temp && s.authKey.user === SELF);
  const send = (o: any, label: string) => {
    const body = Api.serializeObject(o);
    for (const s of sessions()) server.push(s, body, label);
  };
  const pr = sim.rng("push");
  function wrap(list: Ev[]): { o: any; after: () => void } {
    const first = list[0];
    const seqs = list.filter((e) => e.box === "seq");
    if (list.length === 1 && seqs.length === 0) {
      const u = first.update;
      if (u._ === "updateNewMessage" && u.message.message === "hello" && pr.bool(0.4)) {
        return { o: { _: "updateShortMessage", id: u.message.id, user_id: u.message.peer_id.user_id, message: u.message.message, pts: u.pts, pts_count: u.pts_count, date: u.message.date }, after() {} };
      }
      if (pr.bool(0.4)) return { o: { _: "updateShort", update: u, date: date() }, after() {} };
    }
    const updates = list.map((e) => e.update);
    if (seqs.length > 1 || (seqs.length === 1 && pr.bool(0.3))) {
      return { o: { _: "updatesCombined", updates, users: people(), chats: chats(), date: date(), seq_start: seqs[0].pos, seq: seqs[seqs.length - 1].pos }, after() {} };
    }
    return { o: { _: "updates", updates, users: pr.bool(0.9) ? people() : [], chats: pr.bool(0.9) || list.some((e) => typeof e.box === "bigint") ? chats() : [], date: date(), seq: seqs.length ? seqs[0].pos : 0 }, after() {} };
  }
  const held: Ev[] = [];
  let flushing = false;
  function push(list: Ev[]) {
    list = list.filter((e) => e.update);
    if (!list.length) return;
    // a container has at most one run of the seq sequence; channels need their chats
    if (sim.fault("push.lost", loss)) return;
    if (tooLong && sim.fault("push.tooLong", tooLong)) {
      const c = list.find((e) => typeof e.box === "bigint");
      if (c) send({ _: "updates", updates: [{ _: "updateChannelTooLong", channel_id: c.box, pts: pr.bool(0.5) ? box.get(c.box)!.pos : undefined }], users: [], chats: chats(), date: date(), seq: 0 }, "update tooLong");
      else send({ _: "updatesTooLong" }, "update tooLong");
      return;
    }
    if (unknown && sim.fault("push.unknown", unknown)) {
      for (const s of sessions()) server.push(s, new W().u32(0x0badf00d).i64(BigInt(nextId)).done(), "update unknown");
      return;
    }
    if (list.length > 1 && pr.bool(0.3)) {
      const nonSeq = list.filter((e) => e.box !== "seq");
      pr.shuffle(nonSeq);
      list = nonSeq.concat(list.filter((e) => e.box === "seq"));
    }
    const { o } = wrap(list);
    let delay = sim.jitter("push.delay", 0, 10);
    if (sim.fault("push.late", late)) delay += pr.pick([pr.range(10, 300), pr.range(100, 4000), pr.range(100, 60000)]);
    sim.after(delay, "push", () => send(o, "update " + o._));
    if (sim.fault("push.dup", dup)) sim.after(delay + pr.range(0, 5000), "push.dup", () => send(o, "update again " + o._));
  }
  function tell(e: Ev) {
    if (!e.update) return;
    held.push(e);
    if (pr.bool(0.6)) {
      const list = held.splice(0);
      push(list);
    } else if (!flushing) {
      flushing = true;
      sim.after(pr.range(5, 400), "push.flush", () => {
        flushing = false;
        if (held.length) push(held.splice(0));
      });
    }
  }

  //// CALLS ////
  interface Diff {
    new: Set<string>;
    other: Set<string>;
  }
  const diffs: Diff[] = [];
  const hasDiffOrder = (first: Ev, second: Ev) => diffs.some((d) => d.new.has(first.token) && d.other.has(second.token));
  const sliceSize = cfg.pick([2, 5, 20, 100]);
  const tooLongAfter = faulty && cfg.bool(0.25) ? cfg.pick([5, 30]) : Infinity;
  const channelTooLongAfter = faulty && cfg.bool(0.3) ? cfg.pick([5, 30]) : Infinity;
  const diffFail = faulty && cfg.bool(0.3) ? 0.15 : 0;
  const diffInvalid = faulty && cfg.bool(0.3) ? 0.1 : 0;
  const diffSlow = faulty && cfg.bool(0.4) ? 0.3 : 0;
  const broken = new Set<bigint>();
  const d = sim.rng("diff");
  const sleepy = async (v: RpcReply): Promise<RpcReply> => {
    if (sim.fault("diff.slow", diffSlow)) await sim.sleep(d.range(100, 9000), "srv.diff");
    return v;
  };
  function split(list: Ev[]): { messages: any[]; others: any[] } {
    const messages = list.filter((e) => e.message && e.update);
    const others = list.filter((e) => !e.message && e.update);
    diffs.push({ new: new Set(messages.map((e) => e.token)), other: new Set(others.map((e) => e.token)) });
    return { messages: messages.map((e) => e.message), others: others.map((e) => e.update) };
  }
  function getDifference(fn: any): RpcReply {
    if (sim.fault("diff.fail", diffFail)) return { error: [500, "RPC_CALL_FAIL"] };
    if (records.at(-1)!.p.startState === "ok" && sim.fault("diff.invalid", diffInvalid)) return { error: [400, "PERSISTENT_TIMESTAMP_INVALID"] };
    const rest = [...main.after(fn.pts), ...qts.after(fn.qts)].sort((a, b) => a.at - b.at || a.pos - b.pos);
    if (!rest.length) return ok({ _: "updates.differenceEmpty", date: date(), seq: seq.pos });
    if (main.after(fn.pts).length > tooLongAfter) {
      for (const e of main.after(fn.pts)) e.skipped = true;
      sim.probe("diff.tooLong");
      return ok({ _: "updates.differenceTooLong", pts: main.pos });
    }
    const slice = rest.length > sliceSize ? rest.slice(0, sliceSize) : rest;
    const { messages, others } = split(slice);
    const after = { ...state(), pts: Math.max(fn.pts, ...slice.filter((e) => e.box === "pts").map((e) => e.pos)), qts: Math.max(fn.qts, ...slice.filter((e) => e.box === "qts").map((e) => e.pos)) };
    const common = { new_messages: messages, new_encrypted_messages: [], other_updates: others, chats: chats(), users: people() };
    sim.probe(slice.length < rest.length ? "diff.slice" : "diff");
    return slice.length < rest.length ? ok({ _: "updates.differenceSlice", ...common, intermediate_state: after }) : ok({ _: "updates.difference", ...common, state: state() });
  }
  function getChannelDifference(fn: any): RpcReply {
    const id = fn.channel.channel_id as bigint;
    const b = box.get(id);
    if (!b || fn.channel._ !== "inputChannel" || fn.channel.access_hash !== channelOf(id).access_hash) {
      sim.probe("channelDiff.badHash");
      return { error: [400, "CHANNEL_INVALID"] };
    }
    if (broken.has(id)) return { error: [400, "CHANNEL_PRIVATE"] };
    if (sim.fault("diff.fail", diffFail)) return { error: [500, "RPC_CALL_FAIL"] };
    if (sim.fault("diff.invalid", diffInvalid)) return { error: [400, "PERSISTENT_TIMESTAMP_INVALID"] };
    const rest = b.after(fn.pts);
    const timeout = d.bool(0.5) ? 30 : undefined;
    if (!rest.length) return ok({ _: "updates.channelDifferenceEmpty", final: true, pts: b.pos, timeout });
    if (rest.length > channelTooLongAfter) {
      for (const e of rest) e.skipped = true;
      const latest = rest.filter((e) => e.message).slice(-d.int(1, 4));
      for (const e of latest) e.resync = true;
      sim.probe("channelDiff.tooLong");
      const dialog = { _: "dialog", peer: { _: "peerChannel", channel_id: id }, top_message: latest.at(-1)?.message.id ?? 0, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: b.pos };
      return ok({ _: "updates.channelDifferenceTooLong", final: d.bool(0.8) || undefined, timeout, dialog, messages: latest.map((e) => e.message), chats: chats(), users: people() });
    }
    const slice = rest.slice(0, Math.min(sliceSize, fn.limit));
    const { messages, others } = split(slice);
    const final = slice.length === rest.length;
    sim.probe(final ? "channelDiff" : "channelDiff.slice");
    return ok({ _: "updates.channelDifference", final: final || undefined, pts: final ? b.pos : slice.at(-1)!.pos, timeout, new_messages: messages, other_updates: others, chats: chats(), users: people() });
  }
  function handler(ctx: RpcContext): RpcReply | Promise<RpcReply> {
    const fn = ctx.fn;
    switch (fn._) {
      case "updates.getState":
        return ok(state());
      case "updates.getDifference":
        return sleepy(getDifference(fn));
      case "updates.getChannelDifference":
        return sleepy(getChannelDifference(fn));
      case "users.getUsers": {
        const users = fn.id.map((v: any) => v._ === "inputUserSelf" ? userOf(SELF, { self: true, ...(isBot ? { bot: true, bot_info_version: 1 } : {}), first_name: "Me" }) : PEOPLE.includes(Number(v.user_id)) ? userOf(Number(v.user_id)) : { _: "userEmpty", id: v.user_id ?? 0n });
        return { result: new W().u32(0x1cb5c415).u32(users.length).raw(concatAll(users.map((u: any) => Api.serializeObject(u)))).done() };
      }
      case "channels.getChannels":
        return ok({ _: "messages.chats", chats: fn.id.map((v: any) => channelOf(v.channel_id)) });
      case "messages.sendMessage": {
        const msg = message(Number(fn.peer.user_id), fn.message, { out: true });
        const e = add(main, `new:${msg.id}`, 1, (pts) => ({ _: "updateNewMessage", message: msg, pts, pts_count: 1 }), msg);
        if (pr.bool(0.6)) return ok({ _: "updateShortSentMessage", out: true, id: msg.id, pts: e.pos, pts_count: 1, date: msg.date });
        return ok({ _: "updates", updates: [{ _: "updateMessageID", id: msg.id, random_id: fn.random_id }, e.update], users: people(), chats: [], date: date(), seq: 0 });
      }
    }
    return { error: [400, "METHOD_INVALID"] };
  }

  //// PROCESSES ////
  const records: Record_[] = [];
  const slowHandlers = cfg.bool(0.4) ? cfg.pick([5, 300, 2500]) : 0;
  const throwing = (focus === "C24" ? cfg.bool(0.5) : cfg.bool(0.15)) ? 0.1 : 0;
  const calling = cfg.bool(0.3) ? 0.1 : 0;
  const chained = focus === "C24" && cfg.bool(0.5);
  const h = sim.rng("handlers");
  const boxOf = (e: Ev) => box.get(e.box)!;
  const propertyOf = (b: BoxId) => typeof b === "bigint" ? "C12" : "C11";
  /** Which of the properties a violation about delivery belongs to. */
  const blame = (b: BoxId, how: "lost" | "other") => focus === "C13" && guarantee ? "C13" : propertyOf(b);
  void propertyOf;

  function show(rec: Record_, update: any) {
    const token = tokenOf(update);
    if (token === null) return;
    const ev = events.get(token);
    if (!ev) {
      sim.violation(blame("pts", "other"), "foreign", `process ${rec.p.index} was shown ${token}, which never happened`);
      return;
    }
    const n = (rec.count.get(token) ?? 0) + 1;
    rec.count.set(token, n);
    if (typeof ev.box !== "bigint") rec.lastOfAccount = token;
    sim.note(`SHOWN #${n} ${String(ev.box)} ${ev.pos} ${token} (process ${rec.p.index})`);
    if (n > 1) {
      if (n <= 1 + (rec.copies.get(token) ?? 0)) return; // once per copy in the storage (each life may have stored one), once from the server
      if (rec.thrown.has(token) && guarantee) return;
      sim.violation(blame(ev.box, "other"), "repeated", `process ${rec.p.index} was shown ${token} (${String(ev.box)} ${ev.pos}) ${n} times`);
      return;
    }
    const floor = rec.floor.get(ev.box);
    if (floor !== undefined && ev.pos <= floor && !rec.pending.has(token)) {
      sim.violation(blame(ev.box, "other"), "already-known", `process ${rec.p.index} was shown ${token} (${String(ev.box)} ${ev.pos}), although the known state was already at ${floor}`);
    }
    if (!rec.base.has(ev.box) && typeof ev.box === "bigint" && !rec.pending.has(token)) {
      // a channel the client knew nothing about: it starts here
      rec.base.set(ev.box, ev.pos - ev.count);
    }
    // order
    for (let i = rec.list.length - 1; i >= 0; i--) {
      const x = rec.list[i].ev;
      if (x.box !== ev.box || x.pos <= ev.pos) continue;
      // what was stored when the process crashed may be ahead of the position, after which everything comes again
      if ([rec, ...records].some((v) => v.pending.has(x.token) && !v.pending.has(token))) continue;
      if (rec.pending.has(x.token) && records.some((v) => v !== rec && v.count.has(token))) continue;
      if (x.resync || ev.resync || hasDiffOrder(x, ev)) continue;
      sim.violation(blame(ev.box, "other"), "out-of-order", `process ${rec.p.index} was shown ${ev.token} (${String(ev.box)} ${ev.pos}) after ${x.token} (${x.pos})`);
      break;
    }
    rec.list.push({ ev, t: sim.now, order: rec.list.length });
  }

  function attach(rec: Record_) {
    const client = rec.p.client;
    let depth = 0;
    client.use(async (ctx: any, next: any) => {
      if (!rec.p.alive) return;
      const u = ctx.update;
      if (u.type === "connectionState") {
        const last = rec.connection.at(-1);
        sim.note(`STATE ${u.connectionState}`);
        if (last && last.state === u.connectionState) sim.violation("C24", "state-repeated", `process ${rec.p.index} was told twice in a row that the connection is ${u.connectionState}`);
        rec.connection.push({ state: u.connectionState, t: sim.now });
        return;
      }
      if (u.type === "authorizationState") {
        const v = u.authorizationState.isAuthorized;
        sim.note(`AUTHORIZED ${v}`);
        sim.check(v === true && rec.authorized === undefined, "C24", "authorization-repeated", () => `process ${rec.p.index}, signed in all along, was told isAuthorized=${v} after isAuthorized=${rec.authorized}`);
        rec.authorized = v;
      }
      if (u.type === "update") show(rec, u.update);
      else if (u.type === "message") {
        const token = `new:${u.message.id}`;
        const n = (rec.messages.get(token) ?? 0) + 1;
        rec.messages.set(token, n);
        if (n > 1 && (rec.count.get(token) ?? 0) < n) sim.violation("C24", "message-repeated", `process ${rec.p.index} was shown message ${token} ${n} times`);
      }
      rec.running++;
      depth++;
      try {
        if (slowHandlers) await sim.sleep(h.range(0, slowHandlers), "handler");
        if (calling && h.bool(calling) && client.isConnected) await client.invoke({ _: "users.getUsers", id: [{ _: "inputUserSelf" }] } as any).catch(() => {});
        if (throwing && sim.faultsEnabled && h.bool(throwing)) {
          const token = u.type === "update" ? tokenOf(u.update) : u.message ? `new:${u.message.id}` : u.editedMessage ? `edit:${u.editedMessage.id}` : u.deletedMessages ? `del:${u.deletedMessages[0].messageId}` : rec.lastOfAccount;
          if (token) rec.thrown.add(token);
          sim.probe("handler.threw");
          throw Object.assign(new Error("simulated failure of a handler"), { expected: true });
        }
        await next();
      } finally {
        rec.running--;
        depth--;
        rec.lastDone = sim.now;
      }
    });
    if (chained) chain(rec);
  }

  /** Middlewares after the first: each may run once per update, after the one before it passed on, and next() lasts as long as what it runs. */
  function chain(rec: Record_) {
    const client = rec.p.client;
    const runs = new WeakMap<any, { begun: number[]; ended: number[]; passed: number[] }>();
    const stateOf = (ctx: any) => {
      let v = runs.get(ctx);
      if (!v) runs.set(ctx, v = { begun: [0, 0, 0, 0], ended: [0, 0, 0, 0], passed: [1, 0, 0, 0, 0] });
      return v;
    };
    const link = (i: number) => async (ctx: any, next: any) => {
      if (!rec.p.alive) return;
      const s = stateOf(ctx);
      s.begun[i]++;
      sim.check(s.begun[i] === 1, "C24", "middleware-repeated", () => `process ${rec.p.index}: middleware ${i} ran ${s.begun[i]} times for one update`);
      sim.check(s.passed[i] > 0, "C24", "middleware-early", () => `process ${rec.p.index}: middleware ${i} ran although the one before it did not pass on`);
      if (i > 0) sim.check(s.ended[i - 1] === 0, "C24", "middleware-late", () => `process ${rec.p.index}: middleware ${i} was started after the one before it had ended`);
      try {
        if (h.bool(0.3)) await sim.sleep(h.range(0, 20), "handler");
        const go = async () => {
          s.passed[i + 1]++;
          await next();
        };
        const end = () => {
          if (rec.p.alive && i + 1 < LINKS) sim.check(s.begun[i + 1] === 1 && s.ended[i + 1] === 1, "C24", "next-early", () => `process ${rec.p.index}: next() of middleware ${i} returned with its successor ${s.begun[i + 1] ? "still running" : "never started"}`);
        };
        switch (h.int(0, 5)) {
          case 0: // passes on twice, one after the other
            await go();
            end();
            await go();
            break;
          case 1: // passes on twice at once
            await Promise.all([go(), go()]);
            end();
            break;
          case 2: // keeps it
            break;
          default:
            await go();
            end();
        }
      } finally {
        s.ended[i]++;
      }
    };
    const LINKS = 4;
    client.use(link(0));
    client.use(link(1), link(2));
    client.use(link(3));
  }

  async function boot(): Promise<Record_> {
    const p = new Process(sim, records.length, disk, tr, { guaranteeUpdateDelivery: guarantee, dropPendingUpdates: drop, persistCache }, options);
    const rec: Record_ = { p, list: [], count: new Map(), base: new Map(), floor: new Map(), pending: new Set(), copies: new Map(), thrown: new Set(), messages: new Map(), connection: [], running: 0, lastDone: sim.now, optionalUntil: new Map(), lastOfAccount: null };
    if (!drops) {
      const snap = new Snapshot(disk, options);
      const s = await snap.ops.getState();
      if (s) {
        rec.base.set("pts", s.pts);
        rec.base.set("qts", s.qts);
      }
      for (const id of channelIds) {
        const pts = await snap.ops.channelPts.get([id]);
        if (pts !== null) rec.base.set(id, pts);
      }
    }
    rec.floor = new Map(rec.base);
    for (const b of [main, qts]) if (!rec.floor.has(b.id)) rec.floor.set(b.id, b.pos);
    if (guarantee) {
      for (const { update } of await new Snapshot(disk, options).pending()) {
        const t = tokenOf(update) ?? "?";
        rec.pending.add(t);
        rec.copies.set(t, (rec.copies.get(t) ?? 0) + 1);
      }
    }
    sim.note(`process ${p.index} starts; known ${[...rec.base].map(([k, v]) => `${String(k)}=${v}`).join(" ")}; stored ${[...rec.pending].join(" ")}`);
    attach(rec);
    records.push(rec);
    (async () => {
      while (p.alive) {
        try {
          await p.start();
          break;
        } catch (err) {
          sim.note(`start() failed: ${String((err as any)?.message).slice(0, 200)}`);
          sim.probe("start.failed");
          await sim.sleep(3000, "user.retry");
        }
      }
      if (!p.alive) return;
      for (const b of box.values()) {
        if (b.id === "seq" || typeof b.id === "bigint") continue;
        if (!rec.base.has(b.id)) rec.base.set(b.id, b.pos), rec.optionalUntil.set(b.id, b.pos);
      }
      sim.note(`process ${p.index} is ready`);
    })();
    return rec;
  }

  /** Nothing that the durable state covers may be lost. */
  async function crash(rec: Record_) {
    rec.p.crash();
    sim.note(`process ${rec.p.index} crashed`);
    sim.probe("crash");
    if (drops) return;
    const snap = new Snapshot(disk, options);
    const s = await snap.ops.getState();
    const durable = new Map<BoxId, number>();
    if (s) durable.set("pts", s.pts), durable.set("qts", s.qts);
    for (const id of channelIds) {
      const pts = await snap.ops.channelPts.get([id]);
      if (pts !== null) durable.set(id, pts);
    }
    // what is periodically committed must not be older than a few periods
    for (const id of channelIds) {
      const first = rec.list.find((v) => v.ev.box === id && !rec.pending.has(v.ev.token));
      if (first && sim.now - first.t > 700000 && !durable.has(id)) sim.violation("C12", "position-not-stored", `process ${rec.p.index} crashed ${((sim.now - first.t) / 1000).toFixed(0)} s after it was shown ${first.ev.token} of ${id}, but its storage knows no position in ${id}`);
    }
    const stored = new Set((await snap.pending()).map((v) => tokenOf(v.update) ?? "?"));
    for (const [id, until] of durable) {
      const base = rec.base.get(id);
      if (base === undefined || rec.optionalUntil.has(id)) continue;
      for (const e of box.get(id)!.events) {
        if (!e.update || e.skipped || e.pos <= base || e.pos > until || rec.count.has(e.token)) continue;
        if (guarantee) {
          if (!stored.has(e.token)) sim.violation(focus === "C13" ? "C13" : propertyOf(id), "lost-in-crash", `after a crash of process ${rec.p.index} the stored state is at ${String(id)} ${until}, but ${e.token} (${e.pos}) was neither handed over nor stored`);
        } else if (rec.running === 0 && sim.now - rec.lastDone > 60000 && sim.now - e.at > 300000) {
          sim.violation(propertyOf(id), "state-past-unprocessed", `the stored state of process ${rec.p.index} is at ${String(id)} ${until}, but ${e.token} (${e.pos}) was not shown`);
        }
      }
    }
  }

  //// THE RUN ////
  const r = sim.rng("work");
  let rec = await boot();
  // what happened before the first start is nobody's business
  const span = r.pick([20000, 60000, 240000, 1500000]);
  let more = r.int(5, tier === "thorough" ? 120 : 70);
  const crashTimes = Array.from({ length: faulty || focus === "C13" ? crashes : 0 }, () => r.range(500, span)).sort((a, b) => a - b);
  let busy = true;
  (async () => {
    await sim.sleep(r.range(0, 1500), "world.start");
    while (more > 0) {
      let burst = r.weighted([[1, 6], [r.int(2, 6), 2], [r.int(5, 30), 0.6]]);
      while (burst-- > 0 && more-- > 0) {
        const keep = sim.op();
        if (r.bool(0.08) && rec.p.startState === "ok") {
          const c = rec.p.client;
          if (keep) c.invoke({ _: "messages.sendMessage", peer: { _: "inputPeerUser", user_id: BigInt(PEOPLE[0]), access_hash: 1n }, message: "sent", random_id: BigInt(r.int(1, 1e9)) } as any).catch(() => {});
        } else {
          const e = happen(r);
          if (keep) tell(e);
        }
        if (r.bool(0.5)) await sim.sleep(r.range(0, 20), "world.burst");
      }
      if (r.bool(0.05) && channelIds.length && faulty) {
        const id = r.pick(channelIds);
        broken.add(id);
        sim.after(r.range(1000, 60000), "world.unbreak", () => broken.delete(id));
      }
      await sim.sleep(r.pick([r.range(0, 50), r.range(0, 3000), r.range(0, span / 10)]), "world.pause");
    }
    busy = false;
  })();
  (async () => {
    for (const t of crashTimes) {
      if (sim.now < t) await sim.sleep(t - sim.now, "world.crash");
      if (!sim.faultsEnabled) return;
      if (!sim.fault("proc.crash", 1)) continue;
      if (cfg.bool(0.3)) sim.skew -= cfg.pick([0, 1500, 3600_000]);
      await crash(rec);
      await sim.sleep(r.pick([r.range(5, 50), r.range(100, 10000), r.range(1000, 200000)]), "world.down");
      rec = await boot();
    }
  })();
  // the program disconnects and connects again every now and then
  const pauses = cfg.bool(0.25) ? cfg.int(1, 3) : 0;
  let paused = false;
  (async () => {
    const pt = sim.rng("pauses");
    for (let i = 0; i < pauses; i++) {
      await sim.sleep(pt.range(200, span / pauses), "user.pause");
      const p = rec.p;
      if (!p.alive || p.startState !== "ok" || !busy) continue;
      if (!sim.fault("user.disconnect", 1)) continue;
      paused = true;
      sim.note("the program disconnects");
      await p.client.disconnect().catch((err: any) => sim.note("disconnect() failed: " + err));
      await sim.sleep(pt.pick([0, pt.range(0, 100), pt.range(0, 60000)]), "user.pause");
      while (p.alive) {
        try {
          sim.note("the program connects again");
          await (pt.bool(0.5) ? p.client.connect() : p.client.start());
          break;
        } catch (err) {
          sim.note("connect() failed: " + String(err).slice(0, 200));
          await sim.sleep(3000, "user.retry");
        }
      }
      paused = false;
    }
  })();
  await sim.run(() => !busy, span * 2 + 4000000);
  await sim.run(() => false, Math.max(sim.now, crashTimes.at(-1) ?? 0) + r.range(0, 20000));

  //// heal ////
  sim.faultsEnabled = false;
  net.faults = { ...NO_NET_FAULTS, shortRead: net.faults.shortRead, partialWrite: net.faults.partialWrite };
  net.partitionedUntil = 0;
  server.faults = { ...NO_MT_FAULTS };
  disk.heal();
  broken.clear();
  sim.note("---- healed ----");
  await sim.run(() => rec.p.alive && rec.p.startState === "ok" && rec.p.client.isConnected && !paused, sim.now + 900000);
  if (!rec.p.alive || rec.p.startState !== "ok") {
    sim.violation("C11", "no-start", `process ${rec.p.index} does not get started on a healthy network: ${rec.p.startState} ${rec.p.startError?.stack}`);
    return;
  }
  // a client that hears nothing has to look after 15 minutes
  await sim.run(() => false, sim.now + 1100000 + slowHandlers * 120);
  // (a stored update that could not be handled is tried again when the next comes)
  for (const b of guarantee && throwing ? [] : [main, qts]) {
    const base = rec.base.get(b.id);
    const missing = base === undefined ? [] : b.events.filter((e) => e.update && !e.skipped && e.pos > base && !rec.count.has(e.token));
    if (missing.length) sim.violation(blame(b.id, "lost"), "not-recovered-in-quiet", `process ${rec.p.index} was not shown ${missing.length} event(s) of ${String(b.id)} in 18 minutes without anything new, the first being ${missing[0].token} (${missing[0].pos}; known at start: ${base}, now at ${b.pos})`);
  }
  for (let k = 0; k < 2; k++) {
    const list: Ev[] = [];
    for (const b of box.values()) {
      if (b.id === "seq" || b.id === "qts") continue;
      const peer_id = typeof b.id === "bigint" ? { _: "peerChannel", channel_id: b.id } : { _: "peerUser", user_id: BigInt(PEOPLE[0]) };
      const msg = { _: "message", id: ++nextId, peer_id, date: date(), message: "nudge", ...(typeof b.id === "bigint" ? { from_id: { _: "peerUser", user_id: BigInt(PEOPLE[0]) } } : {}) };
      list.push(add(b, `new:${msg.id}`, 1, (pts) => ({ _: typeof b.id === "bigint" ? "updateNewChannelMessage" : "updateNewMessage", message: msg, pts, pts_count: 1 }), msg));
    }
    send({ _: "updates", updates: list.map((e) => e.update), users: people(), chats: chats(), date: date(), seq: 0 }, "update nudge");
    const q = add(qts, `stop:${++nextId}`, 1, (qts) => ({ _: "updateBotStopped", user_id: BigInt(PEOPLE[1]), date: nextId, stopped: true, qts }));
    send({ _: "updates", updates: [q.update], users: people(), chats: chats(), date: date(), seq: 0 }, "update nudge");
    await sim.run(() => false, sim.now + 120000 + slowHandlers * 120);
  }
  await sim.run(() => rec.running === 0, sim.now + 60000);

  //// what has to have been shown by now ////
  for (const b of box.values()) {
    if (b.id === "seq") continue;
    const base = rec.base.get(b.id);
    if (base === undefined) {
      sim.violation(propertyOf(b.id), "nothing-shown", `process ${rec.p.index} was shown nothing of ${String(b.id)} on a healthy network`);
      continue;
    }
    const missing = b.events.filter((e) => e.update && !e.skipped && e.pos > base && !rec.count.has(e.token));
    if (missing.length) {
      const e = missing[0];
      sim.violation(blame(b.id, "lost"), "not-recovered", `process ${rec.p.index} was never shown ${missing.length} event(s) of ${String(b.id)}, the first being ${e.token} (${e.pos}; known at start: ${base}, now at ${b.pos})`);
    }
    if (guarantee) {
      for (const t of rec.pending) {
        const e = events.get(t);
        if (e && e.box === b.id && !rec.count.has(t)) sim.violation(focus === "C13" ? "C13" : propertyOf(b.id), "stored-not-replayed", `${t} was stored when process ${rec.p.index} started, but not handed over`);
      }
    }
  }
  const last = rec.connection.at(-1)?.state;
  sim.check(last === "ready" && rec.p.client.isConnected, "C24", "final-state", () => `the client is ${rec.p.client.isConnected ? "" : "not "}connected, but the last state reported is ${last}`);
  for (const { ev } of rec.list) {
    if (ev.message && !ev.message.out && ev.at > sim.now - 400000 && !rec.messages.has(ev.token)) sim.violation("C24", "message-not-shown", `process ${rec.p.index} was shown the update of ${ev.token} but never the message`);
  }
  try {
    await sim.until(rec.p.client.disconnect(), 60000);
  } catch (err) {
    sim.note("disconnect() failed: " + err);
  }
  await sim.run(() => false, sim.now + 3000);
  info.shown = records.map((v) => v.list.length);
  info.events = events.size;
  sim.probe("transport." + kind);
  if (guarantee) sim.probe("guarantee");
  if (quiet) sim.probe("quiet");
}

function concatAll(list: Uint8Array[]): Uint8Array<ArrayBuffer> {
  const out = new Uint8Array(list.reduce((n, v) => n + v.length, 0));
  let o = 0;
  for (const v of list) out.set(v, o), o += v.length;
  return out;
}

const world: World = {
  stuck: "C11",
  unhandled: "C24",
  run,
  components: {
    real: ["client/6_client.ts", "client/2_update_manager.ts", "client/5_composer.ts", "client/4_context.ts", "client/0_storage_operations.ts", "client/3_message_manager.ts", "client/2_client_encrypted.ts", "session/*", "transport/*", "connection/*", "tl/*"],
    stub: ["Telegram data centre and account (sim/server, this world)", "disk under the Storage interface", "TCP and WebSocket", "clock, timers, randomness, WebCrypto completion"],
  },
};
export default world;
