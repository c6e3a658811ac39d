PROPERTY='C23'
KIT=True
NEEDS='two connections to another data centre that need the authorization at the same moment'
BREAKS='one exported authorization is imported by two connections'
EDITS=[('client/6_client.ts', '    const exportedAuthorization = await this.#client!.invoke({ _: "auth.exportAuthorization", dc_id: getRawDcId(client.dc) });', '    const exportedAuthorization = await (this.#exportedAuthorizations[client.dc] ??= this.#client!.invoke({ _: "auth.exportAuthorization", dc_id: getRawDcId(client.dc) }).finally(() => delete this.#exportedAuthorizations[client.dc]));'), ('client/6_client.ts', '  async #importAuthorization(client: ClientEncrypted) {', '  #exportedAuthorizations: Partial<Record<DC, Promise<Api.auth_ExportedAuthorization>>> = {};\n  async #importAuthorization(client: ClientEncrypted) {')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const p = boot({ publicKeys });
  await w.sim.until(p.start());
  let n = 0;
  const imports: string[] = [];
  cloud.intercept = (fn) => {
    if (fn._ === "auth.exportAuthorization") return w.sim.sleep(200, "export").then(() => ok({ _: "auth.exportedAuthorization", id: BigInt(++n), bytes: new Uint8Array(8).fill(n) } as Any));
    if (fn._ === "auth.importAuthorization") imports.push(String(fn.id));
    return null;
  };
  cloud.files.set(50n, bytesOf(3000));
  const read = async () => {
    for await (const _ of p.client.download(cloud.fileId(50n, 4), { chunkSize: 1024 }));
  };
  await Promise.all([outcome(w, read()), outcome(w, p.client.invoke({ _: "help.getDeepLinkInfo", path: "b" }, { dc: "4" }))]);
  if (imports.length < 2) w.fail("only " + imports.length + " transfers");
  if (new Set(imports).size !== imports.length) w.fail("transferred with " + imports.join(", "));
});
'''
