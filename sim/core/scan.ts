// deno run scan.ts WORLD FOCUS BASE COUNT [START]: development tool; histogram of violations over many seeds.
import { runOne as runOne_ } from "./run.ts";

const runOne: typeof runOne_ = (spec) =>
  runOne_(spec).catch((err) => {
    console.error("HARNESS", spec.seed, err);
    Deno.exit(2);
  });
const setTimeout = globalThis.setTimeout, clearTimeout = globalThis.clearTimeout;
const [world, focus, base, count, start] = Deno.args;
const keep = setInterval(() => {}, 1000);
void keep;
const h = new Map<string, { n: number; seeds: string[]; message: string }>();
const probes: Record<string, number> = {}, faults: Record<string, number> = {};
let ms = 0, ev = 0, worst = 0, worstSeed = "";
await runOne({ world, focus, seed: "warmup", tier: "quick" });
for (let i = Number(start ?? 0); i < Number(start ?? 0) + Number(count); i++) {
  const seed = `${base}/${world}/${focus}/${i}`;
  const hang = setTimeout(() => (console.error("HANG", seed), Deno.exit(2)), 60000);
  const r = await runOne({ world, focus, seed, tier: "quick" });
  clearTimeout(hang);
  ms += r.wall;
  ev += r.events;
  if (r.wall > worst) worst = r.wall, worstSeed = seed;
  for (const [k, n] of Object.entries(r.probes)) probes[k] = (probes[k] ?? 0) + n;
  for (const [k, n] of Object.entries(r.faultCounts)) faults[k] = (faults[k] ?? 0) + n;
  for (const k of new Set(r.violations.map((v) => `${v.property} ${v.kind}`))) {
    const e = h.get(k) ?? { n: 0, seeds: [], message: r.violations.find((v) => `${v.property} ${v.kind}` === k)!.message };
    e.n++;
    if (e.seeds.length < 4) e.seeds.push(seed);
    h.set(k, e);
  }
}
for (const [k, e] of [...h].sort()) console.log(k, e.n, e.seeds.join(" "), "\n     ", e.message.slice(0, 400));
console.log(`avg ${(ms / Number(count)).toFixed(1)} ms, ${(ev / Number(count)).toFixed(0)} events; worst ${worst.toFixed(0)} ms ${worstSeed}`);
console.log(JSON.stringify(probes), JSON.stringify(faults));
Deno.exit(0);
