PROPERTY='C24'
KIT=True
NEEDS='a handler that throws, and updates after that'
BREAKS='once a handler throws, nothing of the same queue is handled any more'
EDITS=[('utilities/2_queue.ts', '      const promise = fn()\n        .finally(() => {\n          this.#busy = false;\n          this.#check();\n        });', '      const promise = fn()\n        .then(() => {\n          this.#busy = false;\n          this.#check();\n        });')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
addEventListener("unhandledrejection", (e) => e.preventDefault());
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const p = boot({}, (ctx: Any) => {
    if (ctx.update.type === "update" && ctx.update.update.message?.message === "bad") throw Object.assign(new Error("from the handler"), { expected: true });
  });
  await w.sim.until(p.start());
  await wait(w, 5000);
  const list = ["good", "bad", "fine"].map((v) => account.message(v));
  for (const u of list) {
    account.push(u);
    await wait(w, 3000);
  }
  expect(w, "account", p.shown, list.map(keyOf));
});
'''
