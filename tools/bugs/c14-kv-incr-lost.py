PROPERTY="C14"
NEEDS="two concurrent increments of one counter in a Deno KV storage"
BREAKS="the check of the version read is dropped when the conflict is retried, so a concurrent increment is overwritten and lost"
EDITS=[("storage/1_storage_deno_kv.ts","""        let result: Awaited<ReturnType<Deno.AtomicOperation["commit"]>> | null = null;
        while (!result?.ok) {
          const count = await kv.get<number>(key);
          result = await kv.atomic().check(count).set(key, (count.value || 0) + by).commit();
        }
""","""        const count = await kv.get<number>(key);
        const result = await kv.atomic().check(count).set(key, (count.value || 0) + by).commit();
        if (!result.ok) {
          await kv.set(key, (count.value || 0) + by);
        }
""")]
DEMO='''
import { StorageDenoKV } from "/repo/storage/1_storage_deno_kv.ts";
const dir = await Deno.makeTempDir();
let value: number | null = null;
try {
  const storage = new StorageDenoKV(dir + "/kv.sqlite");
  await storage.initialize();
  await Promise.all(Array.from({ length: 8 }, () => storage.incr(["n"], 1)));
  value = await storage.get<number>(["n"]);
  storage.close();
} finally {
  await Deno.remove(dir, { recursive: true });
}
console.log("8 increments made", value);
Deno.exit(value === 8 ? 0 : 1);
'''
