PROPERTY='C04'
KIT=True
NEEDS="a client whose clock is ahead of the server's"
BREAKS="the correction after the server's refusal has the wrong sign, so that every later message is refused too"
EDITS=[('session/0_session_state.ts', '    const now = toUnixTimestamp(new Date()) + this.timeDifference;', '    const now = toUnixTimestamp(new Date()) + Math.abs(this.timeDifference);')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  w.sim.skew = 3600_000;\n  const client = await makeClient(w);\n  await w.sim.until(client.connect());\n  await outcome(w, client.invoke(call("a")), 20000);\n  await wait(w, 5000);\n  const o = await outcome(w, client.invoke(call("b")), 20000);\n  if (o.state !== "ok") w.fail("with the clock ahead a call ends with " + o.state);\n  client.disconnect();\n});\n'
