// node:net for the code under test: Socket over the simulated network. Exports nothing else on purpose.
export { SimSocket as Socket } from "../core/socket.ts";
