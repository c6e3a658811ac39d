// Runs one simulation of one world.
import { Sim, SimLimit, type Violation } from "./sim.ts";
import { describe, installEnv, realPerformanceNow, resetEnv, setAsyncCrypto, unhandled } from "./env.ts";
import { installNet, resetNet, setNet } from "./net.ts";

// deno-lint-ignore-file no-explicit-any

export interface RunSpec {
  world: string;
  focus: string;
  seed: string;
  tier: string;
  allowFaults?: string[] | null;
  keepOps?: number[] | null;
  calm?: boolean;
  verbose?: boolean;
}

export interface RunResult {
  digest: string;
  violations: Violation[];
  faults: { key: string; t: number }[];
  faultCounts: Record<string, number>;
  probes: Record<string, number>;
  events: number;
  simTime: number;
  ops: number;
  pairs: Set<number>;
  log: string[];
  wall: number;
  info: Record<string, unknown>;
}

export interface World {
  /** What an unhandled rejection or uncaught error raised by the code under test violates. */
  unhandled?: string | ((focus: string) => string);
  /** What running without end violates. */
  stuck?: string | ((focus: string) => string);
  components?: { real: string[]; stub: string[] };
  run(sim: Sim, focus: string, tier: string, info: Record<string, unknown>): Promise<void>;
}

const named = (v: string | ((focus: string) => string) | undefined, focus: string) => typeof v === "function" ? v(focus) : v;

const worlds = new Map<string, World>();
export async function loadWorld(name: string): Promise<World> {
  let w = worlds.get(name);
  if (!w) {
    installEnv();
    installNet();
    w = (await import(`../worlds/${name}.ts`)).default as World;
    worlds.set(name, w);
  }
  return w;
}

export async function runOne(spec: RunSpec): Promise<RunResult> {
  const world = await loadWorld(spec.world);
  const sim = new Sim({ seed: spec.seed, allowFaults: spec.allowFaults, keepOps: spec.keepOps, calm: spec.calm, verbose: spec.verbose });
  resetEnv();
  resetNet();
  setAsyncCrypto(true);
  Sim.current = sim;
  const then = realPerformanceNow();
  const info: Record<string, unknown> = {};
  try {
    await world.run(sim, spec.focus, spec.tier, info);
    await sim.drain();
  } catch (err) {
    if (err instanceof SimLimit) {
      sim.violation(named(world.stuck, spec.focus) ?? spec.focus, "event-storm", `the simulation does not come to rest: ${err.message}; at simulated time ${sim.now.toFixed(0)} ms`);
    } else {
      sim.ended = true;
      Sim.current = null;
      setNet(null);
      (err as any).harness = true;
      throw err;
    }
  }
  const seen = new Set<string>();
  for (const u of unhandled) {
    const where = /\/repo\/[^\s)]*/.exec(u.text)?.[0]?.replace(/:\d+:\d+$/, "").replace(/^\/repo\//, "") ?? "?";
    const first = u.text.split("\n")[0];
    const k = `unhandled:${first.replace(/\d+/g, "N").slice(0, 80)}@${where}`;
    if (seen.has(k)) continue;
    seen.add(k);
    sim.violation(named(world.unhandled, spec.focus) ?? "-", k, `unhandled error: ${u.text.slice(0, 1500)}`);
  }
  sim.ended = true;
  Sim.current = null;
  setNet(null);
  return { digest: sim.digest, violations: sim.violations, faults: sim.faultsFired, faultCounts: sim.faultCounts, probes: sim.probes, events: sim.events, simTime: sim.now, ops: sim.opIndex, pairs: sim.pairs, log: sim.log, wall: realPerformanceNow() - then, info };
}

export { describe };
