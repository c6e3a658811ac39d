// Bundled into the demonstrations of the planted bugs: one simulated client and data centre, driven by a script.
import { Sim } from "../../sim/core/sim.ts";
import { installEnv, resetEnv, setAsyncCrypto, unhandled } from "../../sim/core/env.ts";
import { installNet, NO_NET_FAULTS, resetNet, setNet, SimNet } from "../../sim/core/net.ts";
import { MtServer, NO_MT_FAULTS, ok } from "../../sim/server/mt.ts";
import { W } from "../../sim/server/wire.ts";
import { publicKeys } from "../../sim/worlds/common.ts";
import { API_ID, authorize, channelOf, Process, Snapshot, userOf } from "../../sim/worlds/client_common.ts";
import { makeTransport } from "../../sim/worlds/common.ts";
import { SimDisk, SimStorage, SimKv, NO_DISK_FAULTS } from "../../sim/stubs/disk.ts";
import { setLogVerbosity } from "/repo/1_utilities.ts";

// deno-lint-ignore-file no-explicit-any
export { API_ID, authorize, channelOf, makeTransport, Process, Snapshot, userOf };
export { MtServer, NO_DISK_FAULTS, NO_MT_FAULTS, NO_NET_FAULTS, ok, publicKeys, setAsyncCrypto, setNet, Sim, SimDisk, SimKv, SimNet, SimStorage, unhandled, W };

export interface World {
  sim: Sim;
  net: SimNet;
  server: MtServer;
  fail: (why: string) => void;
}

/** Runs a scripted scenario; the process ends with 0 when nothing was reported and 1 otherwise. */
export async function demo(handler: (ctx: any) => any, script: (w: World) => Promise<void>, options: any = {}): Promise<never> {
  const keep = setInterval(() => {}, 1000);
  void keep;
  setLogVerbosity(0);
  installEnv();
  installNet();
  resetEnv();
  resetNet();
  setAsyncCrypto(true);
  const sim = new Sim({ seed: "demo" });
  Sim.current = sim;
  const net = new SimNet(sim, { ...NO_NET_FAULTS });
  setNet(net);
  const server = new MtServer(sim, net, { properties: { framing: "x", protocol: "x", acks: "x", authkey: "x" }, ...options }, { ...NO_MT_FAULTS }, handler);
  server.listenDirect();
  const problems: string[] = [];
  try {
    await script({ sim, net, server, fail: (why) => problems.push(why) });
    await sim.drain();
  } catch (err) {
    problems.push("the script failed: " + (err as any)?.stack);
  }
  if (options.strict) for (const v of sim.violations) problems.push(`${v.kind}: ${v.message}`);
  if (options.strict) for (const u of unhandled) problems.push("unhandled: " + u.text);
  Sim.current = null;
  for (const p of problems) console.log("FAIL " + p);
  if (problems.length === 0) console.log("ok");
  Deno.exit(problems.length ? 1 : 0);
}
