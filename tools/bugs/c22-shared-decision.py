PROPERTY='C22'
KIT=True
NEEDS='two calls that fail while a handler is deciding about the first'
BREAKS='a handler is not asked about a failure, the decision about another call is taken instead'
EDITS=[('client/6_client.ts', '          let result: boolean | null = null;\n          return await handle(ctx, async () => {', '          result = null;\n          return await handle(ctx, async () => {'), ('client/6_client.ts', '        this.#handleInvokeError = async (ctx, next) => {', '        let result: boolean | null = null;\n        this.#handleInvokeError = async (ctx, next) => {')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const p = boot();
  const asked: string[] = [];
  const mine = (ctx: Any) => ctx.function._ === "help.getDeepLinkInfo";
  p.client.invoke.use(async (ctx: Any, next: Any) => {
    if (!mine(ctx)) return next();
    await w.sim.sleep(ctx.function.path === "a" ? 10 : 200, "handler");
    return next();
  });
  p.client.invoke.use((ctx: Any, next: Any) => {
    if (!mine(ctx)) return next();
    asked.push(ctx.function.path);
    return false;
  });
  await w.sim.until(p.start());
  cloud.intercept = (fn) => fn._ === "help.getDeepLinkInfo" ? { error: [400, "SOMETHING_WRONG"] } : null;
  await Promise.all([outcome(w, p.client.invoke({ _: "help.getDeepLinkInfo", path: "b" })), outcome(w, p.client.invoke({ _: "help.getDeepLinkInfo", path: "a" }))]);
  if (asked.join() !== "a,b") w.fail("asked for " + asked.join());
});
'''
