PROPERTY='C04'
KIT=True
NEEDS='the clock set back while a session is in use'
BREAKS='message IDs follow the clock backwards instead of growing'
EDITS=[('session/0_session_state.ts', '    if (messageId >= newMessageId) {\n      messageId += 4n;', '    if (messageId >= newMessageId && messageId - newMessageId < (1n << 34n)) {\n      messageId += 4n;')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")));\n  w.sim.skew -= 100000;\n  await outcome(w, client.invoke(call("b")));\n  const o = w.sim.violations.filter((v: Any) => v.kind.startsWith("msg-id"));\n  for (const v of o) w.fail(v.message);\n  client.disconnect();\n});\n'
