PROPERTY='C01'
KIT=True
NEEDS='a server that compresses the rpc_error it answers a call with'
BREAKS="compressed errors are taken for results: the call fails with a decoding error instead of the server's error"
EDITS=[('session/2_session_encrypted.ts', '      id = reader.readInt32(false);\n      reader.unreadInt32();\n    } else {\n      reader.unreadInt32();\n    }\n    if (id === RPC_ERROR)', '    } else {\n      reader.unreadInt32();\n    }\n    if (id === RPC_ERROR)')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nimport zlib from "node:zlib";\nawait demo(() => {\n  const body = new W().u32(0x2144ca19).u32(400).str("PEER_ID_INVALID").done();\n  return { result: new W().u32(0x3072cfa1).bytes(zlib.gzipSync(body)).done() };\n}, async (w: Any) => {\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  const o = await outcome(w, client.invoke(call("x")));\n  if (o.state !== "error" || o.error.errorMessage !== "PEER_ID_INVALID") w.fail("the call ended with " + o.state + ": " + (o.error?.message ?? JSON.stringify(o.value)));\n  client.disconnect();\n});\n'
