PROPERTY='C11'
KIT=True
NEEDS='an update lost just before a call whose result carries updates'
BREAKS='updates carried by the result of a call are applied without looking for a gap before them, so what was missed is never recovered'
EDITS=[('client/6_client.ts', 'this.#updateManager.processUpdates(result, true, Mtproto.is("ping", function_) ? null : function_, () => resolve(result as R));', 'this.#updateManager.processUpdates(result, false, Mtproto.is("ping", function_) ? null : function_, () => resolve(result as R));')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const p = boot();
  await w.sim.until(p.start());
  await wait(w, 5000);
  const lost = account.message("lost");
  account.intercept = (fn: Any) => {
    if (fn._ !== "messages.sendMessage") return null;
    const u = account.message("sent");
    return ok({ _: "updateShortSentMessage", out: true, id: u.message.id, pts: u.pts, pts_count: 1, date: account.date() } as Any);
  };
  const o = await outcome(w, p.client.invoke({ _: "messages.sendMessage", peer: { _: "inputPeerUser", user_id: BigInt(PEER), access_hash: 1n }, message: "sent", random_id: 5n }));
  if (o.state !== "ok") w.fail("call: " + o.state + " " + o.error);
  await wait(w, 1200_000);
  expect(w, "account", p.shown, [lost.message.id, lost.message.id + 1]);
});
'''
