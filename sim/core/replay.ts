// deno run replay.ts FILE: replays a recorded violation exactly. Exit 1 and the VIOLATION line when it happens again.
import { runOne } from "./run.ts";

// deno-lint-ignore-file no-explicit-any
const file = Deno.args[0];
const quiet = Deno.args[1] === "quiet";
const replay = JSON.parse(Deno.readTextFileSync(file));
const keep = setInterval(() => {}, 1000);
void keep;
await runOne({ world: replay.world, focus: replay.focus, seed: "warmup", tier: "quick" });
for (const seed of replay.history ?? []) await runOne({ world: replay.world, focus: replay.focus, seed, tier: replay.tier });
const r = await runOne({ world: replay.world, focus: replay.focus, seed: replay.seed, tier: replay.tier, allowFaults: replay.allowFaults, keepOps: replay.keepOps, calm: replay.calm, verbose: true });
const hit = r.violations.find((v) => v.property === replay.property && v.kind === replay.kind);
if (quiet) {
  console.log(JSON.stringify({ hit: hit ?? null, digest: r.digest, faults: r.faults, ops: r.ops, log: r.log.slice(-150), events: r.events, simTime: r.simTime }));
} else {
  for (const l of r.log.slice(-400)) console.log(l);
  console.log(`seed ${replay.seed}; faults: ${r.faults.map((f) => `${f.key}@${f.t.toFixed(0)}ms`).join(", ") || "none"}`);
  console.log(`digest ${r.digest}${replay.digest ? (replay.digest === r.digest ? " (as recorded)" : ` (recorded: ${replay.digest})`) : ""}`);
  if (hit) {
    console.log(`${hit.kind}: ${hit.message}`);
    console.log(`VIOLATION property=${replay.property} replay=${file}`);
  } else console.log("the violation does not happen");
}
Deno.exit(hit ? 1 : 0);
