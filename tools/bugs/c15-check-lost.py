PROPERTY='C15'
KIT=True
NEEDS='a restart during which the connection is lost while the client checks whether it is authorized, and comes back soon'
BREAKS='the program signs in again although it was authorized'
EDITS=[('client/6_client.ts','''      if (!(err instanceof AuthKeyUnregistered) && !(err instanceof SessionRevoked)) {
        throw err;
      }
''','''      if (err instanceof TelegramError && !(err instanceof AuthKeyUnregistered) && !(err instanceof SessionRevoked)) {
        throw err;
      }
''')]
DEMO=open('/verif/tools/bugs/_account.txt').read()+'''
const accounts = new Accounts();
await demo((ctx: Any) => accounts.handler(ctx), async (w: Any) => {
  const { boot } = setup(w, accounts);
  const p = boot();
  await w.sim.until(p.start({ botToken: "1000:a" }));
  await wait(w, 1000);
  p.crash();
  await wait(w, 1000);
  const signIns = () => accounts.calls.filter((v) => v.name === "auth.importBotAuthorization").length;
  const before = signIns();
  let broken = false;
  const q = boot();
  accounts.intercept = (fn, ctx) => {
    if (fn._ === "updates.getState" && !broken) {
      broken = true;
      q.client.disconnect();
      return { none: true };
    }
  };
  await outcome(w, q.client.start({ botToken: "1000:a" }), 30000);
  await wait(w, 1000);
  await outcome(w, q.client.disconnect());
  if (!broken) throw new Error("not checked");
  const e = await outcome(w, q.client.exportAuthString());
  if (e.state !== "ok") w.fail("it no longer knows its account: " + e.error);
  accounts.intercept = null;
  const o = await outcome(w, q.client.start({ botToken: "1000:a" }));
  if (o.state !== "ok") w.fail("start: " + o.error);
  if (signIns() > before) w.fail("it signed in again");
});
'''
