// A worker process: runs simulations for its share of the seeds until told to stop by time or count.
import { runOne, type RunSpec, loadWorld } from "./run.ts";
import { realPerformanceNow } from "./env.ts";

// deno-lint-ignore-file no-explicit-any

interface Job {
  mode: "search" | "digests";
  world: string;
  focus: string;
  base: string;
  tier: string;
  start: number;
  stride: number;
  count: number; // upper bound on runs
  minimum: number; // runs done whatever the time
  budgetMs: number;
  seeds?: number[];
  /** Property whose violations stop the search, and the kinds that are known. */
  property: string;
  known: string[];
}

const job: Job = JSON.parse(Deno.args[0]);
const enc = new TextEncoder();
const out = (o: any) => {
  const b = enc.encode(JSON.stringify(o) + "\n");
  let n = 0;
  while (n < b.length) n += Deno.stdout.writeSync(b.subarray(n));
};
const t0 = realPerformanceNow();
const spec = (i: number): RunSpec => ({ world: job.world, focus: job.focus, seed: `${job.base}/${job.world}/${job.focus}/${i}`, tier: job.tier });

async function main() {
  const w = await loadWorld(job.world);
  out({ t: "start", i: -1 });
  await runOne({ world: job.world, focus: job.focus, seed: "warmup", tier: "quick" });
  out({ t: "ready", ms: realPerformanceNow() - t0, components: w.components ?? null });
  const agg = { runs: 0, events: 0, simTime: 0, ops: 0, faults: {} as Record<string, number>, probes: {} as Record<string, number>, digests: [] as [number, string, boolean][], pairs: new Set<number>(), other: {} as Record<string, number>, samples: [] as any[], faultyRuns: 0 };
  const t1 = realPerformanceNow();
  const list = job.seeds ?? null;
  for (let k = 0; k < (list ? list.length : job.count); k++) {
    if (k >= job.minimum && realPerformanceNow() - t1 > job.budgetMs) break;
    const i = list ? list[k] : job.start + k * job.stride;
    out({ t: "s", i });
    const r = await runOne(spec(i));
    agg.runs++;
    agg.events += r.events;
    agg.simTime += r.simTime;
    agg.ops += r.ops;
    agg.digests.push([i, r.digest, r.ops > 0 && (r.faults.length > 0 || r.ops > 1)]);
    for (const p of r.pairs) agg.pairs.add(p);
    for (const [f, n] of Object.entries(r.faultCounts)) agg.faults[f] = (agg.faults[f] ?? 0) + n;
    for (const [f, n] of Object.entries(r.probes)) agg.probes[f] = (agg.probes[f] ?? 0) + n;
    if (r.faults.length) agg.faultyRuns++;
    if (agg.samples.length < 2) agg.samples.push({ seed: spec(i).seed, events: r.events, simulated_ms: Math.round(r.simTime), operations: r.ops, faults: r.faults.slice(0, 12).map((f) => `${f.key}@${f.t.toFixed(0)}ms`), digest: r.digest, ...r.info });
    let stop = false;
    for (const v of r.violations) {
      if (v.property === job.property) {
        if (job.known.includes(v.kind)) {
          out({ t: "known", i, kind: v.kind, message: v.message });
        } else {
          out({ t: "v", i, v });
          stop = true;
        }
      } else agg.other[`${v.property}:${v.kind}`] = (agg.other[`${v.property}:${v.kind}`] ?? 0) + 1;
    }
    if (stop && job.mode === "search") break;
  }
  out({ t: "end", ...agg, pairs: [...agg.pairs], ms: realPerformanceNow() - t1 });
  Deno.exit(0);
}

// a run that can never finish (every promise is waiting and nothing is scheduled) must not look like success
const keep = setInterval(() => {}, 1000);
void keep;
main().catch((err) => {
  out({ t: "error", error: String(err?.stack ?? err) });
  Deno.exit(3);
});
