PROPERTY='C03'
KIT=True
NEEDS='disconnect() while a call waits for a reconnection under way'
BREAKS='calls waiting for a reconnection are not released by disconnect() and hang'
EDITS=[('session/1_session.ts', '    while (!this.#isDisconnected && !this.isConnected) {\n      await this.#connectionStateChange.promise;', '    while (!this.isConnected) {\n      await this.#connectionStateChange.promise;')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")));\n  w.net.faults.refuse = 1;\n  for (const c of [...w.server.conns]) c.hangUp("reset");\n  await wait(w, 1000);\n  let state = "pending";\n  client.invoke(call("b")).then(() => state = "ok", () => state = "error");\n  await wait(w, 1000);\n  client.disconnect();\n  await wait(w, 30000);\n  if (state !== "error") w.fail("the call is " + state + " 30 s after disconnect()");\n});\n'
