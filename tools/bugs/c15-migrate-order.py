PROPERTY='C15'
KIT=True
NEEDS='a crash between the two steps of a migration to another data centre'
BREAKS='the program restarts with the key of one data centre and the address of another'
EDITS=[('client/6_client.ts','''    await this.disconnect();
    await this.storage.auth.update((v) => {
      v.authKey = null;
      v.dc = newDc as DC;
    });
    await this.connect();
''','''    await this.storage.auth.update((v) => {
      v.dc = newDc as DC;
    });
    await this.disconnect();
    await this.storage.auth.update((v) => {
      v.authKey = null;
    });
    await this.connect();
''')]
DEMO=open('/verif/tools/bugs/_account.txt').read()+'''
const accounts = new Accounts();
await demo((ctx: Any) => accounts.handler(ctx), async (w: Any) => {
  const { boot, disk } = setup(w, accounts);
  const p = boot();
  let bad = 0;
  (disk as Any).onWrite = () => {
    const auth = (disk as Any).getNow(["", "auth"]) ?? [...(disk as Any).data.values()].find((v: Any) => v.key.map(String).join() === ",auth")?.value;
    if (auth?.authKey?.byteLength && auth.dc && ![...w.server.keys.values()].some((k: Any) => k.dc === auth.dc && k.key.every((v: number, i: number) => v === auth.authKey[i]))) bad++;
  };
  await w.sim.until(p.start({ botToken: "1000:a" }));
  if (bad) w.fail("a crash would leave a key stored that its data centre doesn't know");
});
'''
