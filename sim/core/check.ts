// deno run check.ts PROPERTY TIER: searches seeds on all cores, minimises and records what it finds.
import { PLANS } from "../plan.ts";

// deno-lint-ignore-file no-explicit-any

const [property, tierArg] = Deno.args;
const tier = tierArg ?? Deno.env.get("VERIF_TIER") ?? "quick";
const verifSeed = Number.parseInt(Deno.env.get("VERIF_SEED") ?? "1", 10) || 0;
const plan = PLANS[property];
if (!plan) {
  console.error(`no check for ${property}`);
  Deno.exit(2);
}
const ROOT = new URL("../../", import.meta.url).pathname;
const HERE = new URL("./", import.meta.url).pathname;
const SEARCH_MS = Number(Deno.env.get("VERIF_BUDGET_MS") ?? (tier === "thorough" ? 540000 : 45000));
const HARD_MS = tier === "thorough" ? 780000 : 400000;
const STUCK_MS = 60000;
const WORKERS = Math.max(2, Math.min(8, navigator.hardwareConcurrency || 8));
const t0 = performance.now();
console.log(`property=${property} tier=${tier} VERIF_SEED=${verifSeed} workers=${WORKERS}`);

const knownFile = JSON.parse(Deno.readTextFileSync(ROOT + "known_findings.json"));
const findings = (knownFile.findings as any[]).filter((f) => f.property === property);
const known = findings.map((f) => f.kind as string);

interface Found {
  world: string;
  focus: string;
  seed: string;
  history: string[];
  kind: string;
  message: string;
}
const children = new Set<Deno.ChildProcess>();
function killAll() {
  for (const c of children) {
    try {
      c.kill("SIGKILL");
    } catch {
      //
    }
  }
}
function fail(message: string): never {
  killAll();
  console.error("ERROR: " + message);
  Deno.exit(2);
}

function spawn(script: string, args: string[], stderr: "inherit" | "piped" | "null" = "inherit") {
  const child = new Deno.Command(ROOT + "d.sh", { args: [HERE + script, ...args], cwd: ROOT + "sim", stdin: "null", stdout: "piped", stderr }).spawn();
  children.add(child);
  child.status.then(() => children.delete(child));
  return child;
}

async function* lines(stream: ReadableStream<Uint8Array>) {
  const dec = new TextDecoder();
  let buf = "";
  for await (const chunk of stream) {
    buf += dec.decode(chunk, { stream: true });
    let i;
    while ((i = buf.indexOf("\n")) >= 0) {
      yield buf.slice(0, i);
      buf = buf.slice(i + 1);
    }
  }
  if (buf) yield buf;
}

async function runWorker(job: any, onMessage: (m: any) => void, stop: AbortSignal): Promise<"end" | "killed" | "stuck" | "error"> {
  const child = spawn("worker.ts", [JSON.stringify(job)]);
  let last = performance.now(), phase = "boot", ended: "end" | "killed" | "stuck" | "error" = "error";
  const abort = () => {
    ended = "killed";
    try {
      child.kill("SIGKILL");
    } catch {
      //
    }
  };
  if (stop.aborted) abort();
  stop.addEventListener("abort", abort);
  const dog = setInterval(() => {
    if (performance.now() - last > (phase === "boot" ? 120000 : STUCK_MS)) {
      ended = "stuck";
      child.kill("SIGKILL");
    }
  }, 1000);
  try {
    for await (const line of lines(child.stdout)) {
      last = performance.now();
      let m: any;
      try {
        m = JSON.parse(line);
      } catch {
        continue; // the code under test may print
      }
      if (m.t === "s") phase = "run";
      if (m.t === "end") ended = "end";
      onMessage(m);
    }
  } finally {
    clearInterval(dog);
    stop.removeEventListener("abort", abort);
  }
  await child.status;
  return ended;
}

const total: any = { runs: 0, events: 0, simTime: 0, ops: 0, faultyRuns: 0, nontrivial: new Set<string>(), faults: {}, probes: {}, other: {}, pairs: new Set<number>(), digests: new Map<string, string>(), distinct: new Set<string>(), samples: [], perPhase: [], components: {}, knownSeen: {} };
const found: Found[] = [];
const inProcessState: string[] = [];

const shares = plan.phases.reduce((n, p) => n + p.share, 0);
for (const phase of plan.phases) {
  const stop = new AbortController();
  const budgetMs = SEARCH_MS * phase.share / shares;
  const hard = setTimeout(() => stop.abort(), Math.max(budgetMs + 60000, HARD_MS * phase.share / shares));
  const seedOf = (i: number) => `${verifSeed}/${phase.world}/${phase.focus}/${i}`;
  const before = total.runs;
  const p0 = performance.now();
  const order: number[][] = [];
  const outcome = await Promise.all(Array.from({ length: WORKERS }, async (_, w) => {
    let current = -1, error = "";
    order[w] = [];
    const job = { mode: "search", world: phase.world, focus: phase.focus, base: String(verifSeed), tier, start: w, stride: WORKERS, count: 10000000, minimum: Math.ceil(phase.minimum / WORKERS), budgetMs, property, known };
    const r = await runWorker(job, (m) => {
      if (m.t === "s") current = m.i, order[w].push(m.i);
      else if (m.t === "error") error = m.error;
      else if (m.t === "ready") total.components[phase.world] = m.components;
      else if (m.t === "known") total.knownSeen[m.kind] = (total.knownSeen[m.kind] ?? 0) + 1;
      else if (m.t === "v") {
        found.push({ world: phase.world, focus: phase.focus, seed: seedOf(m.i), history: order[w].slice(0, -1).map(seedOf), kind: m.v.kind, message: m.v.message });
        setTimeout(() => stop.abort(), 1500); // others in the same moment may find a smaller one
      } else if (m.t === "end") {
        total.runs += m.runs;
        total.events += m.events;
        total.simTime += m.simTime;
        total.ops += m.ops;
        total.faultyRuns += m.faultyRuns;
        for (const k of ["faults", "probes", "other"]) for (const [a, n] of Object.entries(m[k])) total[k][a] = (total[k][a] ?? 0) + (n as number);
        for (const p of m.pairs) total.pairs.add(p);
        for (const [i, d, nontrivial] of m.digests) {
          total.digests.set(seedOf(i), d), total.distinct.add(d);
          if (nontrivial) total.nontrivial.add(d);
        }
        if (total.samples.length < 4) total.samples.push(...m.samples.slice(0, 1));
      }
    }, stop.signal);
    return { r, current, error, w };
  }));
  clearTimeout(hard);
  for (const o of outcome) {
    if (o.r === "stuck") {
      // once more, alone, in a fresh process
      console.log(`a worker made no progress for ${STUCK_MS / 1000} s in seed ${seedOf(o.current)}; trying again`);
      const again = await runWorker({ mode: "search", world: phase.world, focus: phase.focus, base: String(verifSeed), tier, start: 0, stride: 1, count: 1, minimum: 1, budgetMs: 0, seeds: [o.current], property, known: [] }, () => {}, new AbortController().signal);
      if (again === "stuck") found.push({ world: phase.world, focus: phase.focus, seed: seedOf(o.current), history: [], kind: "stuck", message: `the code under test runs for more than ${STUCK_MS / 1000} s of real time without letting anything else happen` });
    } else if (o.r === "error" && found.length === 0) {
      fail(`worker ${o.w} failed in ${phase.world}/${phase.focus}, seed ${seedOf(o.current)}: ${o.error || "it ended unexpectedly"}`);
    } else if (o.r === "killed" && found.length === 0 && total.runs === before) {
      //
    }
  }
  total.perPhase.push({ world: phase.world, focus: phase.focus, runs: total.runs - before, wall_s: Math.round((performance.now() - p0) / 100) / 10 });
  if (found.length) break;
  if (total.runs === before) fail("no simulation was completed");

  // determinism: a sample of the seeds again, in other processes and in another order
  const seeds = [...total.digests.keys()].filter((s: string) => s.startsWith(`${verifSeed}/${phase.world}/${phase.focus}/`)).map((s: string) => Number(s.split("/").at(-1)));
  const sample: number[] = [];
  const want = Math.min(seeds.length, tier === "thorough" ? 400 : 64);
  for (let k = 0; k < want; k++) sample.push(seeds[Math.floor(k * seeds.length / want)]);
  const digestsOf = async (list: number[]) => {
    const out = new Map<number, string>();
    await runWorker({ mode: "digests", world: phase.world, focus: phase.focus, base: String(verifSeed), tier, start: 0, stride: 1, count: list.length, minimum: list.length, budgetMs: 0, seeds: list, property, known }, (m) => {
      if (m.t === "end") for (const [i, d] of m.digests) out.set(i, d);
    }, new AbortController().signal);
    return out;
  };
  const again = await Promise.all(Array.from({ length: WORKERS }, (_, w) => digestsOf(sample.filter((_, k) => k % WORKERS === (w + 3) % WORKERS).reverse())));
  let compared = 0;
  for (const m of again) {
    for (const [i, d] of m) {
      compared++;
      if (total.digests.get(seedOf(i)) === d) continue;
      // in-process state of the code under test is no nondeterminism as long as fresh processes agree
      const [a, b] = await Promise.all([digestsOf([i]), digestsOf([i])]);
      if (a.get(i) !== b.get(i)) fail(`seed ${seedOf(i)} is not deterministic: ${a.get(i)} and ${b.get(i)} in fresh processes`);
      inProcessState.push(seedOf(i));
    }
  }
  total.compared = (total.compared ?? 0) + compared;
}

//// violations ////
let violationLine = "";
if (found.length) {
  killAll();
  const byKind = new Map<string, Found>();
  for (const f of found) if (!byKind.has(f.kind)) byKind.set(f.kind, f);
  Deno.mkdirSync(ROOT + "replays", { recursive: true });
  for (const f of byKind.values()) {
    const slug = f.kind.replace(/[^a-zA-Z0-9_-]+/g, "_").slice(0, 60);
    const path = `${ROOT}replays/${property}-${slug}.json`;
    const replay: any = { property, kind: f.kind, message: f.message, world: f.world, focus: f.focus, seed: f.seed, tier, allowFaults: null, keepOps: null, calm: false };
    const write = () => Deno.writeTextFileSync(path, JSON.stringify(replay, null, 1));
    write();
    let note = "";
    if (f.kind !== "stuck") {
      const limit = Math.max(10000, Math.min(90000, 800000 - (performance.now() - t0)) / byKind.size);
      const m = spawn("minimise.ts", [path, String(limit)], "null");
      const timer = setTimeout(() => m.kill("SIGKILL"), limit + 30000);
      const status = await m.status;
      await m.stdout.cancel();
      clearTimeout(timer);
      const again = async () => {
        const c = spawn("replay.ts", [path, "quiet"], "null");
        const t = setTimeout(() => c.kill("SIGKILL"), 120000);
        const text = await new Response(c.stdout).text();
        clearTimeout(t);
        try {
          return JSON.parse(text.trim().split("\n").at(-1)!);
        } catch {
          return null;
        }
      };
      let r = await again();
      if (!r?.hit && status.code === 4) {
        // depends on what ran before in the same process
        replay.history = f.history;
        write();
        r = await again();
        if (r?.hit) {
          let h = f.history;
          while (h.length > 1) {
            const half = h.slice(Math.ceil(h.length / 2));
            replay.history = half;
            write();
            const x = await again();
            if (!x?.hit) break;
            h = half, r = x;
          }
          replay.history = h;
          write();
        }
      }
      if (!r?.hit) note = " (it did not happen again in a fresh process)";
      else {
        const final = JSON.parse(Deno.readTextFileSync(path));
        Object.assign(final, { digest: r.digest, message: r.hit.message, faultTrace: r.faults, trace: r.log.slice(-80) });
        Deno.writeTextFileSync(path, JSON.stringify(final, null, 1));
        console.log(`seed ${f.seed}: ${f.kind}: ${r.hit.message}`);
        console.log(`  minimised to ${r.faults.length} fault(s) [${r.faults.map((x: any) => x.key).slice(0, 10).join(", ")}] and ${final.keepOps ? final.keepOps.length : r.ops} of ${r.ops} operation(s)`);
      }
    }
    if (note) console.log(`seed ${f.seed}: ${f.kind}: ${f.message}${note}`);
    console.log(`  replay: ./check.sh replay ${path}`);
    violationLine ||= `VIOLATION property=${property} replay=${path}`;
  }
}

//// evidence ////
const wall = (performance.now() - t0) / 1000;
const searchS = total.perPhase.reduce((n: number, p: any) => n + p.wall_s, 0);
const evidence = {
  property,
  tier: tier === "thorough" ? "thorough" : "quick",
  seed: verifSeed,
  level: "exploration",
  coverage: {
    evaluations: total.runs,
    distinct_nontrivial: total.nontrivial.size,
    rule: plan.rule,
    samples: total.samples.length ? total.samples : found.slice(0, 1).map((f) => ({ seed: f.seed, violation: f.kind })),
    simulated_runs_per_hour: searchS ? Math.round(total.runs / searchS * 3600) : 0,
    seeds_per_hour: searchS ? Math.round(total.runs / searchS * 3600) : 0,
    simulated_hours: Math.round(total.simTime / 36000) / 100,
    simulator_events: total.events,
    workload_operations: total.ops,
    runs_with_faults: total.faultyRuns,
    faults_injected: total.faults,
    probes: total.probes,
    distinct_event_orders: { measure: "distinct consecutive pairs of event kinds (hashed) over all runs", count: total.pairs.size },
    distinct_traces: total.distinct.size,
    phases: total.perPhase,
    components: total.components,
    determinism: { seeds_rerun_in_other_processes: total.compared ?? 0, differing_because_of_in_process_state: inProcessState },
    violations_of_other_properties_seen_and_left_to_their_checks: total.other,
    known_findings_seen: total.knownSeen,
  },
  assumptions: plan.assumptions ?? [],
  wall_s: Math.round(wall * 10) / 10,
  violations: found.length,
};
Deno.mkdirSync(ROOT + "evidence", { recursive: true });
Deno.writeTextFileSync(`${ROOT}evidence/${property}.json`, JSON.stringify(evidence, null, 1) + "\n");
for (const f of findings) console.log(`KNOWN-FINDING: property=${property} ${f.what}`);
console.log(`${total.runs} runs, ${evidence.coverage.distinct_traces} distinct, ${evidence.coverage.simulated_hours} simulated hours, ${JSON.stringify(total.faults)}`);
if (Object.keys(total.other).length) console.log(`other properties: ${JSON.stringify(total.other)}`);
if (violationLine) {
  console.log(violationLine);
  Deno.exit(1);
}
console.log(`OK property=${property} wall=${wall.toFixed(1)}s`);
Deno.exit(0);
