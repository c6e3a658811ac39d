// A whole Client as a process that can crash and restart on its disk, and the pieces of a Telegram account it talks to.
import type { Sim } from "../core/sim.ts";
import { SimDisk, SimStorage } from "../stubs/disk.ts";
import type { MtServer, WorldTransport } from "./common.ts";
import { Client } from "/repo/5_client.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";

// deno-lint-ignore-file no-explicit-any

export const API_ID = 4242;

export const userOf = (id: number, extra: any = {}) => ({ _: "user", id: BigInt(id), access_hash: BigInt(id) * 7919n + 1n, first_name: "U" + id, ...extra });
export const channelOf = (id: bigint, extra: any = {}) => ({ _: "channel", id, access_hash: id * 104729n + 1n, title: "C" + id, photo: { _: "chatPhotoEmpty" }, date: 1700000000, broadcast: undefined, megagroup: true, ...extra });

/** One run of the program that uses the library, from its start to its crash or the end. */
export class Process {
  static count = 0;
  readonly index: number;
  readonly sim: Sim;
  readonly disk: SimDisk;
  alive = true;
  client!: Client;
  /** Connections the client made. */
  connections: any[] = [];
  startedAt: number;
  /** When client.start() came back. */
  readyAt = -1;
  startState: "pending" | "ok" | "error" = "pending";
  startError: any;

  constructor(sim: Sim, index: number, disk: SimDisk, tr: WorldTransport, params: any, storage: { mustSerialize: boolean; supportsFiles: boolean }) {
    this.sim = sim;
    this.index = index;
    this.disk = disk;
    this.startedAt = sim.now;
    const provider = (p: any) => {
      const made = tr.provider(p);
      const open = made.connection.open.bind(made.connection);
      made.connection.open = () => this.alive ? open() : new Promise(() => {});
      this.connections.push(made.connection);
      return made;
    };
    this.client = new Client({ apiId: API_ID, apiHash: "hash", transportProvider: provider, storage: new SimStorage(disk, "", { ...storage, alive: () => this.alive }) as any, appVersion: "1", deviceModel: "sim", systemVersion: "1", language: "en", systemLangCode: "en", ...params });
  }

  async start(signIn?: any): Promise<void> {
    try {
      await this.client.start(signIn);
      this.startState = "ok";
    } catch (err) {
      this.startState = "error";
      this.startError = err;
      throw err;
    } finally {
      this.readyAt = this.sim.now;
    }
  }

  /** The process is gone: nothing it was doing completes, its connections break, only the disk remains. */
  crash() {
    this.alive = false;
    this.disk.crash();
    for (const c of this.connections) {
      try {
        const p = c.close();
        p?.catch?.(() => {});
      } catch { /* it was not open */ }
    }
  }
}

/** What the disk holds at this moment, readable through the client's own storage layer. */
export class Snapshot {
  ops: StorageOperations;
  constructor(disk: SimDisk, options: { mustSerialize: boolean; supportsFiles: boolean }) {
    const copy = new SimDisk(disk.sim, "snapshot", { writeFail: 0, writeFailLate: 0, readFail: 0, slow: 0, full: 0 });
    for (const [k, v] of disk.data) copy.data.set(k, v);
    // everything is immediate
    copy.schedule = (<T>(_lane: string, _write: boolean, apply: () => T): Promise<T> => Promise.resolve().then(apply)) as any;
    this.ops = new StorageOperations(new SimStorage(copy, "", options) as any);
  }

  /** Updates waiting to be handed over, per box, in order. */
  async pending(): Promise<{ box: bigint; update: any }[]> {
    const out: { box: bigint; update: any }[] = [];
    for (const box of await this.ops.getUpdateBoxIds()) {
      while (true) {
        const first = await this.ops.getFirstUpdate(box);
        if (first === null) break;
        out.push({ box, update: first[1] });
        await this.ops.set(first[0], null);
      }
    }
    return out;
  }
}

/** Puts the account's authorization on the disk, as an earlier sign-in would have. */
export async function authorize(sim: Sim, server: MtServer, disk: SimDisk, options: { mustSerialize: boolean; supportsFiles: boolean }, account: { dc: string; userId: number; isBot: boolean; key: Uint8Array<ArrayBuffer> }) {
  server.addKey(account.dc, account.key as any, { user: account.userId });
  const delay = disk.delay;
  disk.delay = [0, 0];
  const ops = new StorageOperations(new SimStorage(disk, "", options) as any);
  await sim.until((async () => {
    await ops.initialize();
    await ops.auth.set({ apiId: API_ID, authKey: account.key as any, dc: account.dc as any, isBot: account.isBot, userId: account.userId });
    await ops.commit(true);
  })());
  disk.delay = delay;
}
