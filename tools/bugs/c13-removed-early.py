PROPERTY='C13'
KIT=True
NEEDS='a crash while a handler is running'
BREAKS='a stored update is removed before its handlers are done'
EDITS=[('client/2_update_manager.ts', '        const [key, update] = maybeUpdate;\n        let handled = false;', '        const [key, update] = maybeUpdate;\n        await this.#c.storage.set(key, null);\n        let handled = false;'), ('client/2_update_manager.ts', '        await this.#c.storage.set(key, null);\n      } while (true);', '      } while (true);')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const done: Any[] = [];
  // the handler of the first process is slow, and never gets to the end
  const p = boot({ guaranteeUpdateDelivery: true }, async (ctx: Any) => {
    if (ctx.update.type === "update") await w.sim.sleep(600_000, "handler");
  });
  await w.sim.until(p.start());
  await wait(w, 5000);
  const a = account.message("a"), b = account.message("b");
  account.push(a, b);
  await wait(w, 300);
  p.crash();
  const q = boot({ guaranteeUpdateDelivery: true }, (ctx: Any) => {
    if (ctx.update.type === "update") done.push(keyOf(ctx.update.update));
  });
  await w.sim.until(q.start());
  await wait(w, 60_000);
  if (!done.includes(keyOf(a))) w.fail("the update being handled at the crash was not handed over again");
  if (!done.includes(keyOf(b))) w.fail("the second update was not handed over");
});
'''
