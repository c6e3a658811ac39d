PROPERTY="C14"
NEEDS="the auth value set again while a commit of its former value is being written, then a restart"
BREAKS="the flag for unwritten changes is cleared by the finishing commit, so the newer value is never written"
EDITS=[("client/0_storage_operations.ts","""    if (this.#revision === revision) {
      this.#isUpdatePending = false;
    }
""","""    if (this.#revision >= revision) {
      this.#isUpdatePending = false;
    }
""")]
DEMO='''
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { setLogVerbosity } from "/repo/1_utilities.ts";
setLogVerbosity(0);
// deno-lint-ignore no-explicit-any
const data = new Map<string, any>();
let gate: Promise<void> | null = null;
const id = (k: readonly unknown[]) => k.join("/");
const storage = {
  initialize() {}, close() {}, branch() { return storage; }, supportsFiles: true, mustSerialize: false, isMemory: false, incr() {},
  // deno-lint-ignore no-explicit-any
  async set(k: readonly unknown[], v: any) {
    v = structuredClone(v);
    if (gate) await gate;
    v === null ? data.delete(id(k)) : data.set(id(k), v);
  },
  get: async (k: readonly unknown[]) => data.get(id(k)) ?? null,
  getMany: async function* () {},
// deno-lint-ignore no-explicit-any
} as any;
const auth = (userId: number) => ({ apiId: 1, authKey: new Uint8Array(256), dc: "1" as const, isBot: false, userId });
const ops = new StorageOperations(storage);
await ops.initialize();
await ops.auth.set(auth(1));
const g = Promise.withResolvers<void>();
gate = g.promise;
const commit = ops.commit(true);
await new Promise((r) => setTimeout(r, 10));
await ops.auth.set(auth(2));
g.resolve();
await commit;
gate = null;
await ops.commit(true);
const after = await new StorageOperations(storage).auth.get();
console.log("user after the restart:", after?.userId);
Deno.exit(after?.userId === 2 ? 0 : 1);
'''
