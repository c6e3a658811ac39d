// deno run minimise.ts FILE BUDGET_MS: shrinks a replay file in place while the same violation persists.
import { runOne, type RunSpec } from "./run.ts";
import { realPerformanceNow } from "./env.ts";

// deno-lint-ignore-file no-explicit-any
const [file, budget] = Deno.args;
const keep = setInterval(() => {}, 1000);
void keep;
const t0 = realPerformanceNow();
const replay = JSON.parse(Deno.readTextFileSync(file));
const inTime = () => realPerformanceNow() - t0 < Number(budget);
await runOne({ world: replay.world, focus: replay.focus, seed: "warmup", tier: "quick" });
let runs = 0;
let best: RunSpec = { world: replay.world, focus: replay.focus, seed: replay.seed, tier: replay.tier, allowFaults: null, keepOps: null, calm: false };
const attempt = async (s: RunSpec) => {
  runs++;
  try {
    const r = await runOne(s);
    const hit = r.violations.find((v) => v.property === replay.property && v.kind === replay.kind);
    return hit ? r : null;
  } catch {
    return null;
  }
};
const save = (r: any) => {
  Object.assign(replay, { allowFaults: best.allowFaults, keepOps: best.keepOps, calm: best.calm, digest: r.digest, faultTrace: r.faults, message: r.violations.find((v: any) => v.property === replay.property && v.kind === replay.kind).message, minimisationRuns: runs, operations: r.ops });
  Deno.writeTextFileSync(file + ".tmp", JSON.stringify(replay, null, 1));
  Deno.renameSync(file + ".tmp", file);
};
let r = await attempt(best);
if (!r) Deno.exit(4);
save(r);
const original = { faults: r.faults.length, operations: r.ops };
replay.original = original;

// calm schedule first
let c = await attempt({ ...best, calm: true });
if (c) best = { ...best, calm: true }, r = c, save(r);

async function ddmin<T>(items: T[], test: (subset: T[]) => Promise<any>): Promise<T[]> {
  // nothing at all?
  const none = await test([]);
  if (none) return [];
  let n = 2;
  while (items.length >= 1 && inTime()) {
    const size = Math.ceil(items.length / n);
    let shrunk = false;
    for (let i = 0; i < items.length && inTime(); i += size) {
      const rest = [...items.slice(0, i), ...items.slice(i + size)];
      if (rest.length === items.length) continue;
      if (await test(rest)) {
        items = rest;
        n = Math.max(2, n - 1);
        shrunk = true;
        break;
      }
    }
    if (!shrunk) {
      if (size === 1) break;
      n = Math.min(items.length, n * 2);
    }
  }
  return items;
}
for (let round = 0; round < 2 && inTime(); round++) {
  const before = JSON.stringify([best.allowFaults, best.keepOps]);
  await ddmin(r.faults.map((f) => f.key), async (keys) => {
    const x = await attempt({ ...best, allowFaults: keys });
    if (x) best = { ...best, allowFaults: x.faults.map((f) => f.key) }, r = x, save(x);
    return x;
  });
  const ops = best.keepOps ?? Array.from({ length: r.ops }, (_, i) => i);
  await ddmin(ops, async (keepOps) => {
    const x = await attempt({ ...best, keepOps });
    if (x) best = { ...best, keepOps }, r = x, save(x);
    return x;
  });
  if (JSON.stringify([best.allowFaults, best.keepOps]) === before) break;
}
// a calm schedule may work for the smaller case
if (!best.calm && inTime()) {
  c = await attempt({ ...best, calm: true });
  if (c) best = { ...best, calm: true }, save(c);
}
Deno.exit(0);
