PROPERTY='C02'
KIT=True
NEEDS='a connection lost after the server executed a call and before its answer arrived'
BREAKS='calls in flight on a lost connection are sent again after the reconnection and executed twice'
EDITS=[('session/2_session_encrypted.ts', '      this.#rejectAllPending(new ConnectionError("The connection was closed."));\n    }\n    await super.connect();', '      this.#rejectAllPending(new SessionError("The connection was closed."));\n    }\n    await super.connect();')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nlet executed = 0;\nawait demo((ctx: Any) => {\n  if (ctx.fn.path === "once") {\n    executed++;\n    if (executed === 1) ctx.conn.hangUp("reset");\n  }\n  return ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any);\n}, async (w: Any) => {\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("first")));\n  await outcome(w, client.invoke(call("once")));\n  await wait(w, 60000);\n  if (executed !== 1) w.fail("executed " + executed + " times");\n  client.disconnect();\n});\n'
