PROPERTY='C06'
KIT=True
NEEDS='a packet sealed with the right key for another session of that key'
BREAKS="packets of other sessions are delivered as if they were this session's"
EDITS=[('session/2_session_encrypted.ts', '      this.#L.debug("received message with session ID", sessionId, "current session ID is", this.#id);\n      return null;', '      this.#L.debug("received message with session ID", sessionId, "current session ID is", this.#id);')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = await makeClient(w);\n  let seen = 0;\n  client.handlers = { onUpdate: () => void seen++ };\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")));\n  const [s] = w.server.liveSessions(() => true);\n  const body = ok({ _: "updateShort", date: 1, update: { _: "updateUserPhone", user_id: 1n, phone: "x" } } as Any).result;\n  s.conn.sendPacket(w.server.seal(s.authKey, s.id ^ 1n, BigInt(Math.floor(w.server.clock() / 1000)) << 32n | 1n, 1, body));\n  await wait(w, 5000);\n  if (seen) w.fail("an update of another session was delivered");\n  client.disconnect();\n});\n'
