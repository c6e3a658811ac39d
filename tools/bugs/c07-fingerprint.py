PROPERTY='C07'
KIT=True
NEEDS='a server that lists another public key before the one the client knows'
BREAKS='only the first fingerprint the server offers is considered, so no key can be created'
EDITS=[('client/1_client_plain.ts', '    for (const fingerprint of resPq.server_public_key_fingerprints) {', '    for (const fingerprint of resPq.server_public_key_fingerprints.slice(0, 1)) {')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = new ClientEncrypted("2", 4242, params());\n  const o = await outcome(w, client.connect());\n  if (o.state !== "ok") w.fail(o.state + " " + o.error?.message);\n  client.disconnect();\n}, {\n  // another fingerprint is put before the known one\n  tamperPlain: (name: string, body: Any) => {\n    if (name !== "resPQ") return [body];\n    const head = body.slice(0, 36), dv = new DataView(body.buffer, body.byteOffset);\n    const pqLength = Math.ceil((1 + body[36]) / 4) * 4;\n    const at = 36 + pqLength + 4, n = dv.getUint32(at, true);\n    const fps = Array.from({ length: n }, (_, i) => dv.getBigInt64(at + 4 + 8 * i, true));\n    return [new W().raw(head).raw(body.slice(36, 36 + pqLength)).longs([77n, ...fps]).done()];\n  },\n});\n'
