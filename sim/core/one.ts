// deno run one.ts WORLD FOCUS SEED [verbose] [json-spec-extras]: runs one simulation and prints what happened.
import { runOne as runOne_ } from "./run.ts";

const runOne: typeof runOne_ = (spec) =>
  runOne_(spec).catch((err) => {
    console.error("HARNESS", spec.seed, err);
    Deno.exit(2);
  });
const [world, focus, seed, verbose, extra] = Deno.args;
const spec = { world, focus, seed, tier: "quick", verbose: verbose === "1", ...(extra ? JSON.parse(extra) : {}) };
await runOne({ ...spec, seed: "warmup", verbose: false, allowFaults: null, keepOps: null, calm: false });
const r = await runOne(spec);
for (const l of r.log) console.log(l);
console.log({ ...r, log: undefined, pairs: r.pairs.size, faults: r.faults.length });
