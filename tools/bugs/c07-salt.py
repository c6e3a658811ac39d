PROPERTY='C07'
KIT=True
NEEDS='nothing but looking at the first salt, or a server that answers messages with another salt rarely'
BREAKS="the first salt is derived from the wrong half of the client's nonce: client and server start with different salts"
EDITS=[('client/1_client_plain.ts', 'newNonce_.subarray(0, 0 + 8).map(', 'newNonce_.subarray(8, 8 + 8).map(')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = new ClientEncrypted("2", 4242, params());\n  const o = await outcome(w, client.connect());\n  const [k] = [...w.server.keys.values()] as Any[];\n  if (o.state !== "ok" || !k || BigInt.asIntN(64, client.serverSalt) !== k.salt) w.fail(`${o.state}: the salts are ${client.serverSalt} and ${k?.salt}`);\n  client.disconnect();\n});\n'
