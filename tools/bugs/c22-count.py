PROPERTY='C22'
KIT=True
NEEDS='a call that fails more than once'
BREAKS='handlers are always told that a call has failed once'
EDITS=[('client/6_client.ts', '    let n = 1;\n    let client: ClientEncrypted;\n    while (true) {', '    let client: ClientEncrypted;\n    while (true) {\n      let n = 1;')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const p = boot();
  const asked: number[] = [];
  p.client.invoke.use((ctx: Any, next: Any) => {
    if (ctx.function._ !== "help.getDeepLinkInfo") return next();
    asked.push(ctx.n);
    return ctx.n < 3 && asked.length < 10;
  });
  await w.sim.until(p.start());
  cloud.intercept = (fn) => fn._ === "help.getDeepLinkInfo" ? { error: [400, "SOMETHING_WRONG"] } : null;
  const o = await outcome(w, p.client.invoke({ _: "help.getDeepLinkInfo", path: "p" }));
  if (o.state !== "error" || asked.join() !== "1,2,3") w.fail("asked with " + asked.join());
});
'''
