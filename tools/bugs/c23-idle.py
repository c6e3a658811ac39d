PROPERTY='C23'
KIT=True
NEEDS='a connection to another data centre that was closed because it was idle for minutes'
BREAKS='calls to a data centre whose connection was closed for being idle never end'
EDITS=[('client/6_client.ts', '    if (client !== this.#client && !this.isDisconnected && client.isDisconnected) {', '    if (params.type !== undefined && !this.isDisconnected && client.isDisconnected) {'), ('client/6_client.ts', 'err instanceof ConnectionError && !main && !this.isDisconnected) {\n          continue;', 'err instanceof ConnectionError && !main && !this.isDisconnected) {\n          await delay(1 * SECOND);\n          continue;')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const p = boot({ publicKeys });
  await w.sim.until(p.start());
  const first = await outcome(w, p.client.invoke({ _: "help.getDeepLinkInfo", path: "a" }, { dc: "4" }));
  if (first.state !== "ok") w.fail("the first call failed: " + first.error);
  await wait(w, 8 * 60000);
  const o = await outcome(w, p.client.invoke({ _: "help.getDeepLinkInfo", path: "b" }, { dc: "4" }), 60000);
  if (o.state !== "ok") w.fail("the second call: " + o.state + " " + o.error);
});
'''
