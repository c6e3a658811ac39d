PROPERTY='C20'
KIT=True
NEEDS='traffic while the previous count is being written'
BREAKS='bytes carried while the statistics are being written are not counted'
EDITS=[('client/2_network_statistics_manager.ts', '          this.#pendingWrites[k] -= v;', '          this.#pendingWrites[k] = 0;')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot, disk } = await setup(w, cloud);
  const conns: Any[] = [];
  w.net.onDial = (c: Any) => conns.push(c);
  disk.delay = [1, 20];
  const p = boot({ persistCache: true });
  await w.sim.until(p.start());
  for (let i = 0; i < 20; i++) {
    p.client.invoke({ _: "help.getDeepLinkInfo", path: "p" + i }).catch(() => {});
    await wait(w, 3);
  }
  await wait(w, 8000);
  const sent = conns.reduce((a, c) => a + c.bytesWritten, 0), received = conns.reduce((a, c) => a + c.bytesRead, 0);
  const s = await w.sim.until(p.client.getNetworkStatistics());
  if (s.messages.sent !== sent || s.messages.received !== received) w.fail("sent " + s.messages.sent + " of " + sent + ", received " + s.messages.received + " of " + received);
});
'''
