PROPERTY='C03'
KIT=True
NEEDS='a connection lost while the server cannot be reached for more than one attempt'
BREAKS='the client stops trying after the first failed reconnection and stays offline for good'
EDITS=[('session/1_session.ts', '      while (!this.#isDisconnected && !this.isConnected) {\n        try {', '      for (let i = 0; i < 2 && !this.#isDisconnected && !this.isConnected; ++i) {\n        try {')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")));\n  await wait(w, 20000);\n  w.net.faults.refuse = 1;\n  for (const c of [...w.server.conns]) c.hangUp("reset");\n  await wait(w, 30000);\n  w.net.faults.refuse = 0;\n  await wait(w, 60000);\n  if (!client.isConnected) w.fail("not connected a minute after the network works again");\n  client.disconnect();\n});\n'
