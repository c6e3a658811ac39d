PROPERTY='C18'
KIT=False
NEEDS='the program ends while a message is being sent, and the message does not reach the peer'
BREAKS='the number of the message is stored without its contents: it cannot be sent again when the peer asks for it, and the chat is ended'
EDITS=[('client/3_secret_chat_manager.ts', '    state.outgoingMessages.set(key, { data, file, isService, isSilent });\n    onNumbered?.();\n', '    onNumbered?.();\n'),
('client/3_secret_chat_manager.ts', '    await state.commit(this.#c.messageStorage.storage);\n    if (file) {\n', '    await state.commit(this.#c.messageStorage.storage);\n    state.outgoingMessages.set(key, { data, file, isService, isSilent });\n    if (file) {\n')]
DEMO=open('/verif/tools/bugs/_secret.txt').read()+'''
const pair = new Pair();
await pair.open();
await pair.send(0, "a");
await pair.settle();
// the request for the next one never gets anywhere
pair.relay = () => false;
pair.invoked = () => new Promise(() => {});
pair.send(0, "b").catch(() => {});
await new Promise((r) => setTimeout(r, 100));
pair.relay = () => true;
pair.invoked = () => {};
await pair.restart(0);
await pair.send(0, "c");
await pair.settle();
await pair.send(0, "d");
await pair.settle();
const shown = pair.shown[1].filter((v) => v !== "b").join();
if (pair.ended) fail("the chat was ended");
if (shown !== "a,c,d") fail(`shown ${pair.shown[1].join()}`);
console.log("ok");
Deno.exit(0);
'''
