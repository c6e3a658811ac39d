PROPERTY='C01'
KIT=True
NEEDS='an answer that arrives inside a container together with a message that cannot be handled before it'
BREAKS='one message of a container that fails to be handled makes the client drop the rest of that container, answers included'
EDITS=[('session/2_session_encrypted.ts', '    let type: Mtproto.DeserializedType;\n    try {\n      reader.unreadInt32();\n      type = Mtproto.deserializeType(X, reader);\n    } catch (err) {\n      logger.error("failed to deserialize MTProto type:", err);\n      return;\n    }\n', '    reader.unreadInt32();\n    const type: Mtproto.DeserializedType = Mtproto.deserializeType(X, reader);\n')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => {\n  // a service message that is cut short goes out together with the answer\n  const s = ctx.session;\n  for (let i = 0; i < 6; i++) ctx.server.push(s, new W().u32(0x276d3ec6).u32(1).done(), "broken");\n  return ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any);\n}, async (w: Any) => {\n  w.server.replyDelay = [0, 0];\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  for (let i = 0; i < 12; i++) {\n    const o = await outcome(w, client.invoke(call("x" + i)));\n    if (o.state !== "ok" || o.value.message !== "x" + i) w.fail("call " + i + " ended with " + o.state);\n  }\n  client.disconnect();\n});\n'
