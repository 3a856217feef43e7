const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const MAP = new Map([...ALPHABET].map((c, i) => [c, i]));
const enc = new Map();
const dec = new Map();

export function toBase58(bytes) {
  const hex = Buffer.from(bytes).toString('hex');
  const hit = enc.get(hex);
  if (hit !== undefined) return hit;
  let zeros = 0;
  while (zeros < bytes.length && bytes[zeros] === 0) zeros += 1;
  let n = hex.length ? BigInt('0x' + hex) : 0n;
  let s = '';
  while (n > 0n) {
    s = ALPHABET[Number(n % 58n)] + s;
    n /= 58n;
  }
  s = '1'.repeat(zeros) + s;
  if (enc.size > 20000) enc.clear();
  enc.set(hex, s);
  return s;
}

export function fromBase58(s) {
  const hit = dec.get(s);
  if (hit !== undefined) return hit.slice();
  let n = 0n;
  let zeros = 0;
  while (zeros < s.length && s[zeros] === '1') zeros += 1;
  for (const c of s) {
    const v = MAP.get(c);
    if (v === undefined) throw new Error(`Expected a string of base 58, got [${s}].`);
    n = n * 58n + BigInt(v);
  }
  let hex = n === 0n ? '' : n.toString(16);
  if (hex.length % 2) hex = '0' + hex;
  const out = new Uint8Array(zeros + hex.length / 2);
  out.set(Buffer.from(hex, 'hex'), zeros);
  if (dec.size > 20000) dec.clear();
  dec.set(s, out.slice());
  return out;
}
