PROPERTY='C17'
KIT=True
NEEDS='a program that stops reading at the last chunk, or a crash between two writes, on a storage that keeps files'
BREAKS='a file is taken for cached without its last part, and reading it ends normally without it'
EDITS=[('client/2_file_manager.ts', '          finished = downloadedSize < limit;\n          if (decryptionInformation) {', '          finished = downloadedSize < limit;\n          if (finished && cacheId !== null) {\n            await this.#c.storage.setFilePartCount(cacheId, part + 1, chunkSize);\n          }\n          if (decryptionInformation) {'), ('client/2_file_manager.ts', '            if (cacheId !== null) {\n              await this.#c.storage.setFilePartCount(cacheId, part, chunkSize);\n              signal?.throwIfAborted();\n            }\n            break;', '            break;')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const data = bytesOf(3500);
  cloud.files.set(50n, data);
  const p = boot();
  await w.sim.until(p.start());
  const read = async (stop: number) => {
    const parts: Uint8Array[] = [];
    for await (const v of p.client.download(cloud.fileId(50n), { chunkSize: 1024 })) {
      parts.push(v);
      if (parts.length === stop) break;
    }
    return new Uint8Array(parts.flatMap((v) => [...v]));
  };
  await outcome(w, read(4));
  const o = await outcome(w, read(0));
  if (o.state !== "ok" || !same(o.value, data)) w.fail("the second download returned " + o.value?.length + " of " + data.length + " bytes");
});
'''
