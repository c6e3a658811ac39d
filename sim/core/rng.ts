// Seeded randomness. Every choice a simulation makes comes from a stream that is a pure function of
// (seed, site name), so suppressing one fault does not shift the choices made at unrelated sites.

export function cyrb128(str: string): [number, number, number, number] {
  let h1 = 1779033703, h2 = 3144134277, h3 = 1013904242, h4 = 2773480762;
  for (let i = 0; i < str.length; i++) {
    const k = str.charCodeAt(i);
    h1 = h2 ^ Math.imul(h1 ^ k, 597399067);
    h2 = h3 ^ Math.imul(h2 ^ k, 2869860233);
    h3 = h4 ^ Math.imul(h3 ^ k, 951274213);
    h4 = h1 ^ Math.imul(h4 ^ k, 2716044179);
  }
  h1 = Math.imul(h3 ^ (h1 >>> 18), 597399067);
  h2 = Math.imul(h4 ^ (h2 >>> 22), 2869860233);
  h3 = Math.imul(h1 ^ (h3 >>> 17), 951274213);
  h4 = Math.imul(h2 ^ (h4 >>> 19), 2716044179);
  h1 ^= h2 ^ h3 ^ h4, h2 ^= h1, h3 ^= h1, h4 ^= h1;
  return [h1 >>> 0, h2 >>> 0, h3 >>> 0, h4 >>> 0];
}

export class Rng {
  #a: number;
  #b: number;
  #c: number;
  #d: number;

  constructor(seed: string) {
    [this.#a, this.#b, this.#c, this.#d] = cyrb128(seed);
    for (let i = 0; i < 12; i++) this.u32();
  }

  u32(): number {
    const t = (((this.#a + this.#b) | 0) + this.#d) | 0;
    this.#d = (this.#d + 1) | 0;
    this.#a = this.#b ^ (this.#b >>> 9);
    this.#b = (this.#c + (this.#c << 3)) | 0;
    this.#c = (this.#c << 21) | (this.#c >>> 11);
    this.#c = (this.#c + t) | 0;
    return t >>> 0;
  }

  /** Float in [0, 1). */
  float(): number {
    return this.u32() / 4294967296;
  }

  /** Integer in [min, max]. */
  int(min: number, max: number): number {
    return min + Math.floor(this.float() * (max - min + 1));
  }

  range(min: number, max: number): number {
    return min + this.float() * (max - min);
  }

  bool(p = 0.5): boolean {
    return this.float() < p;
  }

  pick<T>(array: readonly T[]): T {
    return array[this.int(0, array.length - 1)];
  }

  weighted<T>(entries: readonly (readonly [T, number])[]): T {
    let total = 0;
    for (const [, w] of entries) total += w;
    let x = this.float() * total;
    for (const [v, w] of entries) {
      x -= w;
      if (x < 0) return v;
    }
    return entries[entries.length - 1][0];
  }

  shuffle<T>(array: T[]): T[] {
    for (let i = array.length - 1; i > 0; i--) {
      const j = this.int(0, i);
      [array[i], array[j]] = [array[j], array[i]];
    }
    return array;
  }

  bytes(n: number): Uint8Array<ArrayBuffer> {
    const out = new Uint8Array(n);
    let i = 0;
    while (i < n) {
      let v = this.u32();
      for (let j = 0; j < 4 && i < n; j++, i++) {
        out[i] = v & 0xFF;
        v >>>= 8;
      }
    }
    return out;
  }

  big64(): bigint {
    return BigInt.asIntN(64, (BigInt(this.u32()) << 32n) | BigInt(this.u32()));
  }
}
