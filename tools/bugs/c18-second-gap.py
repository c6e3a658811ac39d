PROPERTY='C18'
KIT=False
NEEDS='a message is lost while another lost one is still awaited, and nothing was received in order in between'
BREAKS='only the first of the two is requested from the peer: nothing sent after the second is ever shown'
EDITS=[('client/3_secret_chat_manager.ts', '    } else if (state.inSeqNo > state.gapEndSeqNo) {\n      state.isGapRequested = false;\n', '    } else if (state.inSeqNo > state.gapEndSeqNo) {\n')]
DEMO=open('/verif/tools/bugs/_secret.txt').read()+'''
const pair = new Pair();
await pair.open();
const sent: string[] = [];
const lost = new Set(["1", "3"]);
let current = "";
let firstTime = new Set<string>();
pair.relay = (item) => {
  if (item.from === 0 && !item.service && lost.has(current) && !firstTime.has(current)) {
    firstTime.add(current);
    return false;
  }
  return true;
};
for (let i = 0; i < 8; i++) {
  sent.push(current = `${i}`);
  await pair.send(0, current);
  if (i === 5) await pair.settle(); // the other one is offline until now
}
await pair.settle();
current = "";
await pair.send(0, "last");
await pair.settle();
sent.push("last");
if (pair.ended || pair.shown[1].join() !== sent.join()) fail(`sent ${sent.join()}, shown ${pair.shown[1].join()}`);
console.log("ok");
Deno.exit(0);
'''
