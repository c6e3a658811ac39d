PROPERTY='C24'
KIT=True
NEEDS='a middleware that calls next() twice'
BREAKS='the middlewares after one that calls next() twice run twice'
EDITS=[('client/5_composer.ts', '      if (called) {\n        return;\n      } else {\n        called = true;\n        await right(ctx, next);\n      }', '      if (called) {\n        return;\n      } else {\n        await right(ctx, next);\n        called = true;\n      }')]
DEMO=open('/verif/tools/bugs/_client.txt').read()+'''

const account = new Account();
await demo((ctx: Any) => account.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, account);
  const p = boot();
  let runs = 0;
  p.client.use(async (ctx: Any, next: Any) => {
    if (ctx.update.type !== "update") return;
    await Promise.all([next(), next()]);
  });
  p.client.use(async () => {
    await w.sim.sleep(10, "handler");
    runs++;
  });
  await w.sim.until(p.start());
  await wait(w, 5000);
  runs = 0;
  account.push(account.deletion());
  await wait(w, 3000);
  if (runs !== 1) w.fail("the middleware ran " + runs + " times");
});
'''
