PROPERTY='C08'
KIT=True
NEEDS='a client with forward secrecy that stays connected for more than a day'
BREAKS='the temporary key is renewed half an hour after it expired instead of around its expiry'
EDITS=[('client/2_client_encrypted.ts', '    if (this.#temporaryAuthKeyExpiresAt - Date.now() > 5 * SECOND) {', '    if (this.#temporaryAuthKeyExpiresAt - Date.now() > -1800 * SECOND) {')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  w.server.replyDelay = [0, 1];\n  const client = await makeClient(w, { isPerfectForwardSecrecyEnabled: true });\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")));\n  const keys = new Set<bigint>();\n  const t0 = w.sim.now;\n  // sessions of a server that tolerates an expired key for a while show which key the client uses\n  for (const k of w.server.keys.values()) if (k.temp) k.expiresAt += 3600_000;\n  await wait(w, 86400_000 + 600_000 - (w.sim.now - t0));\n  for (const k of w.server.keys.values()) if (k.temp) keys.add(k.id);\n  if (keys.size < 2) w.fail("10 minutes after its temporary key expired the client still uses it");\n  const o = await outcome(w, client.invoke(call("b")));\n  if (o.state !== "ok") w.fail("call: " + o.state);\n  client.disconnect();\n});\n'
