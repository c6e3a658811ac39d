PROPERTY='C16'
KIT=True
NEEDS='a stream of more parts than are sent at once, one of the first of which has to wait'
BREAKS='a streamed upload reports success while one of its parts is still missing'
EDITS=[('client/2_file_manager.ts', '        await Promise.all(promises);\n        promises = [];', '        await Promise.race(promises);\n        promises = [];')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const p = boot();
  await w.sim.until(p.start());
  let floods = 0;
  cloud.intercept = (fn) => fn._ === "upload.saveBigFilePart" && fn.file_part === 1 && !floods++ ? { error: [420, "FLOOD_WAIT_40"] } : null;
  const data = bytesOf(20 * 1024);
  const stream = new ReadableStream({
    start(c) {
      c.enqueue(data);
      c.close();
    },
  });
  const o = await outcome(w, p.client.managers.fileManager.upload(stream, { chunkSize: 1024 }, null, true));
  if (o.state !== "ok") w.fail("the upload failed");
  const u = cloud.uploads.get(o.value.id)!;
  if (u.size !== 20 || o.value.parts !== 20) w.fail("the server has " + u.size + " of " + o.value.parts + " parts");
});
'''
