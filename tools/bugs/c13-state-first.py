PROPERTY='C13'
KIT=True
NEEDS='a crash between storing the new position and storing the update'
BREAKS='the position of the secondary (qts) sequence is stored before the update is, so a crash in between loses it'
EDITS=[('client/2_update_manager.ts', '    if (this.#c.guaranteeUpdateDelivery) {\n      await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);\n    }\n    if (update.qts !== 0) {\n      await this.#setUpdateQts(update.qts);\n    }\n', '    if (update.qts !== 0) {\n      await this.#setUpdateQts(update.qts);\n    }\n    if (this.#c.guaranteeUpdateDelivery) {\n      await this.#c.storage.setUpdate(UpdateManager.MAIN_BOX_ID, update);\n    }\n')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot, disk } = await setup(w, account);
  const p = boot({ guaranteeUpdateDelivery: true });
  await w.sim.until(p.start());
  await wait(w, 5000);
  const a = account.stopped();
  disk.delay = [5, 5];
  // the process dies at some point of the handling of the update: right after each of its writes in turn
  account.push(a);
  let writes = 0;
  disk.onWrite = (key: Any, value: Any) => {
    if (value !== null && ++writes === 2 && p.alive) p.crash();
  };
  await wait(w, 2000);
  if (p.alive) p.crash();
  disk.onWrite = null;
  disk.delay = [0.01, 0.02];
  const q = boot({ guaranteeUpdateDelivery: true });
  await w.sim.until(q.start());
  await wait(w, 60_000);
  const shown = [...p.shown, ...q.shown];
  if (!shown.includes(keyOf(a))) w.fail("the update was never handed over");
});
'''
