PROPERTY="C14"
NEEDS="a commit that fails while a newer value for the same key has been set during it, then another commit and a restart"
BREAKS="the older value that could not be written overwrites the newer pending one, so the newer value is lost for good"
EDITS=[("client/0_storage_operations.ts","""        if (!this.#pendingUpdates.has(key)) {
          this.#pendingUpdates.set(key, value);
        }
""","""        this.#pendingUpdates.set(key, value);
""")]
DEMO='''
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { setLogVerbosity } from "/repo/1_utilities.ts";
setLogVerbosity(0);
// deno-lint-ignore no-explicit-any
const data = new Map<string, any>();
let gate: Promise<void> | null = null, failing = false;
const id = (k: readonly unknown[]) => k.map((p) => typeof p + ":" + p).join("/");
const storage = {
  initialize() {}, close() {}, branch() { return storage; }, supportsFiles: true, mustSerialize: false, isMemory: false, incr() {},
  // deno-lint-ignore no-explicit-any
  async set(k: readonly unknown[], v: any) {
    if (gate) await gate;
    if (failing) throw new Error("disk full");
    v === null ? data.delete(id(k)) : data.set(id(k), v);
  },
  get: async (k: readonly unknown[]) => data.get(id(k)) ?? null,
  getMany: async function* () {},
// deno-lint-ignore no-explicit-any
} as any;
const ops = new StorageOperations(storage);
ops.channelPts.set([7n], 1);
const g = Promise.withResolvers<void>();
gate = g.promise;
failing = true;
const commit = ops.commit(true).then(() => false, () => true);
await new Promise((r) => setTimeout(r, 10));
ops.channelPts.set([7n], 2); // while the commit is under way
g.resolve();
const failed = await commit;
gate = null;
failing = false;
await ops.commit(true);
const after = await new StorageOperations(storage).channelPts.get([7n]);
console.log("first commit failed:", failed, "value after the restart:", after);
Deno.exit(failed && after === 2 ? 0 : 1);
'''
