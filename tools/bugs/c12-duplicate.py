PROPERTY='C12'
KIT=True
NEEDS='a channel update that the server sends twice'
BREAKS="the channel's newest update is shown again when it is delivered again"
EDITS=[('client/2_update_manager.ts', '      if (currentPts + ptsCount > update.pts) {', '      if (currentPts > update.pts) {')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const p = boot();
  await w.sim.until(p.start());
  const a = account.post(71n, "a"), b = account.post(71n, "b");
  account.push(a);
  await wait(w, 3000);
  account.push(b);
  await wait(w, 3000);
  account.push(b);
  await wait(w, 3000);
  expect(w, "channel", p.shown, [keyOf(a), keyOf(b)]);
});
'''
