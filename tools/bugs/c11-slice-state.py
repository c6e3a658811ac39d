PROPERTY='C11'
KIT=True
NEEDS='a difference in several slices and a crash while the later ones are fetched, or deletions in a later slice'
BREAKS='after the first slice the position of the account jumps to the newest one known, so updates in later slices that carry positions are dropped'
EDITS=[('client/2_update_manager.ts', '            state = difference.intermediate_state;\n            await this.#setState(state);', '            state = difference.intermediate_state;\n            await this.#setState({ ...state, pts: Math.max(state.pts, this.#updateState?.pts ?? 0) });')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const p = boot();
  await w.sim.until(p.start());
  await wait(w, 5000);
  p.crash();
  const expected: Any[] = [];
  for (let i = 0; i < 6; i++) expected.push(keyOf(i % 2 ? account.deletion(2) : account.message("m" + i)));
  account.slice = 2;
  const q = boot();
  await w.sim.until(q.start());
  await wait(w, 60_000);
  expect(w, "account", [...q.shown].sort(), [...expected].sort());
});
'''
