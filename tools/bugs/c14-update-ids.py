PROPERTY="C14"
NEEDS="updates queued after the clock was set back (or one with a smaller pts in the same millisecond)"
BREAKS="ids of queued updates no longer grow: the queue of a box hands out updates in another order than they were queued in"
EDITS=[("client/0_storage_operations.ts","""    if (id <= this.#lastUpdateId) {
      id = this.#lastUpdateId + 1n;
    }
""","""    if (id === this.#lastUpdateId) {
      id = this.#lastUpdateId + 1n;
    }
""")]
DEMO='''
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { StorageMemory } from "/repo/storage/2_storage_memory.ts";
const ops = new StorageOperations(new StorageMemory());
await ops.initialize();
const now = Date.now;
let t = 1.7e12;
Date.now = () => t;
// deno-lint-ignore no-explicit-any
const update = (pts: number): any => ({ _: "updateReadHistoryInbox", peer: { _: "peerUser", user_id: 1n }, max_id: pts, still_unread_count: 0, pts, pts_count: 1 });
for (const pts of [5, 6, 7]) {
  if (pts === 6) t -= 3_600_000; // the clock is set back
  await ops.setUpdate(0n, update(pts));
}
Date.now = now;
const order: number[] = [];
while (true) {
  const first = await ops.getFirstUpdate(0n);
  if (!first) break;
  // deno-lint-ignore no-explicit-any
  order.push((first[1] as any).pts);
  await ops.set(first[0], null);
}
console.log("queued 5,6,7; got", order.join());
Deno.exit(order.join() === "5,6,7" ? 0 : 1);
'''
