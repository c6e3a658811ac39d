PROPERTY='C19'
KIT=False
NEEDS='a message encrypted with the old key is lost right before the peer starts using the new key'
BREAKS='the old key is erased before everything encrypted with it was received, so the message cannot be decrypted when it is sent again'
EDITS=[('client/3_secret_chat_manager.ts', '          state.previousAuthKeyDiscardAfterSeqNo = rawOutSeqNo;\n', '          state.previousAuthKeyDiscardAfterSeqNo = Math.min(rawOutSeqNo, state.inSeqNo - 1);\n')]
DEMO=open('/verif/tools/bugs/_secret.txt').read()+'''
const pair = new Pair();
await pair.open();
const ids = new Set<string>();
let lose = false;
pair.relay = (item) => {
  ids.add(item.bytes.subarray(0, 8).join());
  if (lose && !item.service) {
    lose = false;
    return false;
  }
  return true;
};
const sent: string[][] = [[], []];
async function send(i: number, isLost: boolean) {
  const text = `${i}-${sent[i].length}`;
  sent[i].push(text);
  lose = isLost;
  await pair.send(i, text);
  lose = false;
}
for (let i = 0; i < 98; i++) {
  await send(0, false);
  await pair.settle();
}
for (let i = 0; i < 40; i++) {
  // something of both gets lost before each step of the exchange
  if (ids.size < 2) await send(0, true);
  if (ids.size < 2) await send(1, true);
  const steps = pair.queue.splice(0);
  for (const step of steps) await step();
}
for (let i = 0; i < 5; i++) {
  await send(i % 2, false);
  await pair.settle();
}
if (ids.size < 2) fail("the key was not renewed");
for (const i of [0, 1]) {
  if (pair.ended || pair.shown[1 - i].join() !== sent[i].join()) fail(`${sent[i].length} sent, shown ${pair.shown[1 - i].length}`);
}
console.log("ok");
Deno.exit(0);
'''
