PROPERTY='C05'
KIT=True
NEEDS='a salt change right when acknowledgements travel in a container with a call'
BREAKS='acknowledgements refused together with their container are forgotten instead of being sent again'
EDITS=[('session/2_session_encrypted.ts', '      for (const id of pendingAck) {\n        this.#toAcknowledge.push(id);\n      }\n      this.#pendingAcks.delete(id);\n      return;', '      this.#pendingAcks.delete(id);\n      return;')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")));\n  await wait(w, 1000);\n  const [s] = w.server.liveSessions(() => true);\n  const due = [...s.unacked.keys()];\n  s.authKey.salt ^= 0x55n;\n  await outcome(w, client.invoke(call("b")));\n  for (let i = 0; i < 4; i++) {\n    await wait(w, 60000);\n    await outcome(w, client.invoke(call("c" + i)));\n  }\n  const late = due.filter((id: bigint) => s.unacked.has(id));\n  if (!due.length || late.length) w.fail(late.length + " of " + due.length + " messages were never acknowledged");\n  client.disconnect();\n});\n'
