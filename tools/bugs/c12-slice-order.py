PROPERTY='C12'
KIT=True
NEEDS='a channel difference of more than one slice'
BREAKS='only the last slice moves the position of a channel, and a failure in between makes everything be shown again'
EDITS=[('client/2_update_manager.ts', '        this.#c.storage.channelPts.set([channelId], difference.pts);\n        this.#LrecoverChannelUpdateGap.debug(`recovered from update gap [${channelId}, ${source}]`, channelId, source);\n        if (!difference.final) {', '        if (difference.new_messages.length) {\n          this.#c.storage.channelPts.set([channelId], difference.pts);\n        }\n        this.#LrecoverChannelUpdateGap.debug(`recovered from update gap [${channelId}, ${source}]`, channelId, source);\n        if (!difference.final) {')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const p = boot();
  await w.sim.until(p.start());
  const a = account.post(71n, "a");
  account.push(a);
  await wait(w, 3000);
  // an event that this user isn't told about, then one that is
  account.channel(71n).pts++;
  account.channel(71n).events.push({ pos: account.channel(71n).pts, update: { _: "updateChannelReadMessagesContents", channel_id: 71n, messages: [] } });
  const lost = account.erase(71n);
  const b = account.post(71n, "b");
  account.slice = 1;
  account.push(b);
  await wait(w, 60_000);
  expect(w, "channel", p.shown, [keyOf(a), keyOf(lost), keyOf(b)]);
});
'''
