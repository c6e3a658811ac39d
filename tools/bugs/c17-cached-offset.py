PROPERTY='C17'
KIT=True
NEEDS='a cached file that is read again from an offset and by another chunk size'
BREAKS='reading a cached file from an offset with another chunk size returns other bytes'
EDITS=[('client/2_file_manager.ts', '        const partOffset = Math.floor(offset / file[1]);', '        const partSize = params?.chunkSize ?? file[1];\n        const partOffset = Math.floor(offset / partSize);'), ('client/2_file_manager.ts', '            yield bytes.subarray(offset % file[1]);', '            yield bytes.subarray(offset % partSize);')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const data = bytesOf(9000);
  cloud.files.set(50n, data);
  const p = boot();
  await w.sim.until(p.start());
  const read = async (params: Any) => {
    const parts: Uint8Array[] = [];
    for await (const v of p.client.download(cloud.fileId(50n), params)) parts.push(v);
    return new Uint8Array(parts.flatMap((v) => [...v]));
  };
  for (const params of [{ chunkSize: 1024 }, { chunkSize: 2048, offset: 3072 }, { offset: 5120 }, { chunkSize: 1024, offset: 2048 }] as Any[]) {
    const o = await outcome(w, read(params));
    if (o.state !== "ok" || !same(o.value, data.subarray(params.offset ?? 0))) w.fail("other bytes with " + JSON.stringify(params));
  }
});
'''
