PROPERTY='C19'
KIT=False
NEEDS='a chat with few messages in a program that is restarted more often than every week'
BREAKS='the age of the key starts anew whenever the program does, so the key is never renewed'
EDITS=[('client/0_secret_chat_state.ts', '    state.authKeyCreatedAt = result.authKeyCreatedAt;\n', '')]
DEMO=open('/verif/tools/bugs/_secret.txt').read()+'''
const pair = new Pair();
await pair.open();
const ids = new Set<string>();
pair.relay = (item) => {
  ids.add(item.bytes.subarray(0, 8).join());
  return true;
};
for (let day = 0; day < 30; day += 3) {
  for (const i of [0, 1]) {
    await pair.restart(i);
    await pair.send(i, `${day}`);
    await pair.settle();
  }
  shift += 3 * 24 * 3600 * 1000;
}
if (ids.size < 2) fail("the key was still the first one after a month");
console.log("ok");
Deno.exit(0);
'''
