// Which worlds decide which property, and how much of the time each gets.
export interface Phase {
  world: string;
  focus: string;
  share: number;
  /** Runs made whatever the time they take (over all workers). */
  minimum: number;
}
export interface Plan {
  phases: Phase[];
  rule: string;
  assumptions?: string[];
}

const NONTRIVIAL = "a run counts as distinct and non-trivial when the digest of its whole event trace is new and it made at least one workload operation and at least one fault fired or operations overlapped";
const SIM = "one run = one seed: configuration, workload, schedule and faults are drawn from it; ";

export const PLANS: Record<string, Plan> = {
  C01: { phases: [{ world: "rpc", focus: "C01", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C02: { phases: [{ world: "rpc", focus: "C02", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C03: { phases: [{ world: "rpc", focus: "C03", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C04: { phases: [{ world: "rpc", focus: "C04", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C05: { phases: [{ world: "rpc", focus: "C05", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C06: { phases: [{ world: "rpc", focus: "C06", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C07: { phases: [{ world: "authkey", focus: "C07", share: 1, minimum: 300 }], rule: SIM + "a run counts as distinct and non-trivial when the digest of its whole event trace is new and it made at least one connection attempt and at least one fault fired or attempts overlapped" },
  C09: { phases: [{ world: "wire", focus: "C09", share: 1, minimum: 1600 }], rule: SIM + "a run counts as distinct and non-trivial when the digest of its whole event trace is new and it moved at least one packet and at least one fault fired or packets overlapped" },
  C10: { phases: [{ world: "wire", focus: "C10", share: 1, minimum: 1600 }], rule: SIM + "a run counts as distinct and non-trivial when the digest of its whole event trace is new and it opened at least one proxied connection and at least one fault fired or packets overlapped" },
  C14: { phases: [{ world: "storage", focus: "C14", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C08: { phases: [{ world: "rpc", focus: "C08", share: 1, minimum: 1600 }], rule: SIM + NONTRIVIAL },
  C11: { phases: [{ world: "updates", focus: "C11", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C12: { phases: [{ world: "updates", focus: "C12", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C13: { phases: [{ world: "updates", focus: "C13", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C24: { phases: [{ world: "updates", focus: "C24", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C15: { phases: [{ world: "account", focus: "C15", share: 1, minimum: 600 }], rule: SIM + NONTRIVIAL },
  C16: { phases: [{ world: "cloud", focus: "C16", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C17: { phases: [{ world: "cloud", focus: "C17", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C18: { phases: [{ world: "secret", focus: "C18", share: 1, minimum: 600 }], rule: SIM + NONTRIVIAL },
  C19: { phases: [{ world: "secret", focus: "C19", share: 1, minimum: 600 }], rule: SIM + NONTRIVIAL },
  C20: { phases: [{ world: "cloud", focus: "C20", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C21: { phases: [{ world: "bridge", focus: "C21", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C22: { phases: [{ world: "cloud", focus: "C22", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
  C23: { phases: [{ world: "cloud", focus: "C23", share: 1, minimum: 1200 }], rule: SIM + NONTRIVIAL },
};
