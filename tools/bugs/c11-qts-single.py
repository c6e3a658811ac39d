PROPERTY='C11'
KIT=True
NEEDS='exactly one lost update of the secondary (qts) sequence, followed by the next one'
BREAKS='a single missed qts update is taken for no gap and lost'
EDITS=[('client/2_update_manager.ts', '    if (localState.qts + UpdateManager.QTS_COUNT < qts) {', '    if (qts - localState.qts > UpdateManager.QTS_COUNT + 1) {')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const p = boot();
  await w.sim.until(p.start());
  await wait(w, 5000);
  const a = account.stopped();
  account.push(a);
  await wait(w, 3000);
  const lost = account.stopped();
  const b = account.stopped();
  account.push(b);
  await wait(w, 1200_000);
  expect(w, "secondary sequence", p.shown, [a.date, lost.date, b.date]);
});
'''
