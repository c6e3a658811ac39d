PROPERTY='C16'
KIT=True
NEEDS='a part of a buffer that fails 21 times'
BREAKS='an upload one of whose parts could not be saved reports success'
EDITS=[('client/2_file_manager.ts', '            await Promise.race(promises);\n          }\n        }\n      }\n    }\n    await Promise.all(promises);', '            await Promise.race(promises);\n          }\n        }\n      }\n    }\n    await Promise.allSettled(promises);')]
DEMO=open('/verif/tools/bugs/_cloud.txt').read()+'''

const cloud = new Cloud();
await demo((ctx: Any) => cloud.handler(ctx), async (w: Any) => {
  const { boot } = await setup(w, cloud);
  const p = boot();
  await w.sim.until(p.start());
  cloud.intercept = (fn) => fn._ === "upload.saveFilePart" && fn.file_part === 2 ? { error: [400, "FILE_PART_TOO_BIG"] } : null;
  const data = bytesOf(5000);
  const o = await outcome(w, p.client.managers.fileManager.upload(data, { chunkSize: 1024 }, null, true));
  if (o.state === "pending") w.fail("the upload never ended");
  if (o.state === "ok") w.fail("the upload succeeded without part 2");
});
'''
