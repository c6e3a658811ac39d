PROPERTY='C06'
KIT=True
NEEDS='a packet altered after its first blocks'
BREAKS="the message key is only checked for packets that do not carry the session's ID, so altered contents are delivered"
EDITS=[('session/2_session_encrypted.ts', '    if (difference !== 0) {\n      this.#L.debug("received message with invalid message key");\n      return null;\n    }\n\n    const plainReader = new TLReader(plainText);\n    const _salt = plainReader.readInt64();\n    const sessionId = plainReader.readInt64();\n\n    if (this.#id !== sessionId) {\n', '\n    const plainReader = new TLReader(plainText);\n    const _salt = plainReader.readInt64();\n    const sessionId = plainReader.readInt64();\n\n    if (difference !== 0 && this.#id !== sessionId) {\n      this.#L.debug("received message with invalid message key");\n      return null;\n    }\n    if (this.#id !== sessionId) {\n')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = await makeClient(w);\n  let seen = 0;\n  client.handlers = { onUpdate: () => void seen++ };\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")));\n  const [s] = w.server.liveSessions(() => true);\n  const body = ok({ _: "updateShort", date: 1, update: { _: "updateUserPhone", user_id: 1n, phone: "x".repeat(400) } } as Any).result;\n  for (let i = 0; i < 3; i++) {\n    const p = w.server.seal(s.authKey, s.id, (BigInt(Math.floor(w.server.clock() / 1000)) << 32n | 1n) + BigInt(4 * i), 1, body);\n    p[p.length - 1] ^= 1; // padding only: the message itself still parses\n    s.conn.sendPacket(p);\n  }\n  await wait(w, 5000);\n  if (seen) w.fail("an altered packet was delivered");\n  client.disconnect();\n});\n'
