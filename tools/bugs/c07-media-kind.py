PROPERTY='C07'
KIT=True
NEEDS='a media connection that creates its own key'
BREAKS='keys for media data centres are created as keys of the main data centre'
EDITS=[('client/1_client_plain.ts', 'const dc = getDcId(this.dc, this.isMedia);', 'const dc = getDcId(this.dc, false);')]
DEMO=open('/verif/tools/bugs/_prelude.txt').read()+'\nlet named = 0;\nawait demo((ctx: Any) => ok({ _: "help.deepLinkInfo", message: ctx.fn.path } as Any), async (w: Any) => {\n  const client = new ClientEncrypted("2", 4242, params({ isMedia: true }));\n  const o = await outcome(w, client.connect());\n  if (o.state !== "ok") w.fail(o.state);\n  for (const v of w.sim.violations) w.fail(v.message);\n  client.disconnect();\n}, { handshakeDc: () => -2 });\nvoid named;\n'
