// A stand-in for the parts of umi the clients use, written from their documented behaviour.
import { createHash } from 'node:crypto';
import { fromBase58, toBase58 } from './base58.mjs';
import { base58, publicKey as publicKeySerializer } from './serializers.mjs';

// ---- public keys
export const publicKey = (input, assertValid = true) => {
  let key;
  if (typeof input === 'string') key = input;
  else if (Array.isArray(input)) [key] = input;
  else if (typeof input === 'object' && 'publicKey' in input) key = input.publicKey;
  else if (typeof input === 'object' && 'toBase58' in input) key = input.toBase58();
  else key = toBase58(input);
  if (assertValid && !isPublicKey(key)) throw new Error(`The provided public key is invalid: ${key}`);
  return key;
};
export const isPublicKey = (value) => {
  try {
    return typeof value === 'string' && value.length >= 32 && value.length <= 44 && fromBase58(value).length === 32;
  } catch {
    return false;
  }
};
export const assertPublicKey = (value) => {
  if (!isPublicKey(value)) throw new Error(`The provided public key is invalid: ${value}`);
};
export const publicKeyBytes = (value) => fromBase58(value);
export const defaultPublicKey = () => '11111111111111111111111111111111';
export const samePublicKey = (a, b) => publicKey(a) === publicKey(b);
export const uniquePublicKeys = (keys) => [...new Set(keys)];
export const isPda = (value) =>
  Array.isArray(value) && value.length === 2 && typeof value[1] === 'number' && isPublicKey(value[0]);

// ---- signers
export const isSigner = (value) => typeof value === 'object' && value !== null && 'publicKey' in value && 'signMessage' in value;
export const createNoopSigner = (key) => ({
  publicKey: publicKey(key),
  signMessage: async (m) => m,
  signTransaction: async (t) => t,
  signAllTransactions: async (t) => t,
});
export const createSignerFromKeypair = (_context, keypair) => createNoopSigner(keypair.publicKey);
export const generateSigner = (context) => createSignerFromKeypair(context, context.eddsa.generateKeypair());
export const uniqueSigners = (signers) => {
  const seen = new Map();
  for (const s of signers) if (!seen.has(s.publicKey)) seen.set(s.publicKey, s);
  return [...seen.values()];
};

// ---- options
export const some = (value) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (input) => input !== null && typeof input === 'object' && '__option' in input;
export const isSome = (o) => o.__option === 'Some';
export const isNone = (o) => o.__option === 'None';
export const wrapNullable = (v) => (v != null ? some(v) : none());
export const unwrapOption = (o, fallback) => (isSome(o) ? o.value : fallback ? fallback() : null);

export const unwrapOptionRecursively = (input, fallback) => {
  const next = (x) => unwrapOptionRecursively(x, fallback);
  if (!input || typeof input !== 'object' || ArrayBuffer.isView(input)) return input;
  if (isOption(input)) return isSome(input) ? next(input.value) : fallback ? fallback() : null;
  if (Array.isArray(input)) return input.map(next);
  return Object.fromEntries(Object.entries(input).map(([k, v]) => [k, next(v)]));
};

// ---- collections
export const chunk = (array, size) => {
  const out = [];
  for (let i = 0; i < array.length; i += size) out.push(array.slice(i, i + size));
  return out;
};
export const zipMap = (left, right, fn) => left.map((v, i) => fn(v, i < right.length ? right[i] : null, i));
export const uniqueBy = (array, same) =>
  array.reduce((out, v) => (out.some((o) => same(o, v)) ? out : [...out, v]), []);

// ---- amounts
export const createAmountFromDecimals = (n, identifier, decimals) => ({
  basisPoints: BigInt(Math.round(n * 10 ** decimals)),
  identifier,
  decimals,
});
export const createAmount = (n, identifier, decimals) => ({ basisPoints: BigInt(n), identifier, decimals });
export const lamports = (n) => createAmount(n, 'SOL', 9);
export const sol = (n) => createAmountFromDecimals(n, 'SOL', 9);
export const ACCOUNT_HEADER_SIZE = 128;
export const TRANSACTION_SIZE_LIMIT = 1232;

// ---- accounts
export const deserializeAccount = (rawAccount, dataSerializer) => {
  const { data, publicKey: key, ...rest } = rawAccount;
  try {
    const [parsed] = dataSerializer.deserialize(data);
    return { publicKey: key, header: rest, ...parsed };
  } catch (error) {
    throw new Error(`The account at [${key}] could not be deserialized: ${error.message}`);
  }
};
export const assertAccountExists = (account, name) => {
  if (!account.exists)
    throw new Error(`The account${name ? ` of type [${name}]` : ''} was not found at [${account.publicKey}].`);
};

// ---- errors and programs
export class UmiError extends Error {}
export class ProgramError extends UmiError {
  constructor(message, program, cause) {
    super(message);
    this.program = program;
    this.cause = cause;
  }
}
export const createProgramRepository = () => {
  const make = (programs, bindings) => {
    const resolve = (id) => {
      let key = id;
      const seen = [];
      while (bindings.has(key)) {
        if (seen.includes(key)) throw new Error('cyclic binding');
        seen.push(key);
        key = bindings.get(key);
      }
      return key;
    };
    const repo = {
      has: (id) => programs.some((p) => p.name === resolve(id) || p.publicKey === resolve(id)),
      get: (id) => {
        const key = resolve(id);
        const p = programs.find((x) => x.name === key || x.publicKey === key);
        if (!p) throw new Error(`The provided program name [${key}] is not recognized.`);
        return p;
      },
      getPublicKey: (id, fallback) => {
        const key = resolve(id);
        if (isPublicKey(key)) return key;
        const p = programs.find((x) => x.name === key);
        if (p) return p.publicKey;
        if (fallback === undefined) throw new Error(`The provided program name [${key}] is not recognized.`);
        return publicKey(fallback);
      },
      all: () => programs.slice(),
      add: (program, overrides = true) => {
        if (overrides) programs.unshift(program);
        else programs.push(program);
      },
      bind: (abstract, concrete) => {
        bindings.set(abstract, concrete);
      },
      unbind: (abstract) => {
        bindings.delete(abstract);
      },
      clone: () => make(programs.slice(), new Map(bindings)),
      resolveError: () => null,
    };
    return repo;
  };
  return make([], new Map());
};

// ---- program derived addresses
const P = 2n ** 255n - 19n;
const D = 37095705934669439343138083508754565189542113879843219016388785533085940283555n;
const pow = (b, e) => {
  let r = 1n;
  let x = ((b % P) + P) % P;
  for (let n = e; n > 0n; n >>= 1n) {
    if (n & 1n) r = (r * x) % P;
    x = (x * x) % P;
  }
  return r;
};
const onCurve = (bytes) => {
  const le = Uint8Array.from(bytes).reverse();
  le[0] &= 127;
  // y is taken modulo p, as curve25519-dalek does
  const y = BigInt('0x' + Buffer.from(le).toString('hex')) % P;
  const y2 = (y * y) % P;
  const u = (y2 - 1n + P) % P;
  const v = (D * y2 + 1n) % P;
  if (u === 0n) return true;
  // u/v must be a square
  return pow((u * pow(v, P - 2n)) % P, (P - 1n) / 2n) === 1n;
};
const derived = new Map();
export const findPda = (programId, seeds) => {
  const id = programId + ':' + seeds.map((s) => Buffer.from(s).toString('hex')).join(',');
  const hit = derived.get(id);
  if (hit) return hit.slice();
  for (let bump = 255; bump >= 0; bump -= 1) {
    const h = createHash('sha256');
    for (const s of seeds) h.update(s);
    h.update(Uint8Array.of(bump));
    h.update(fromBase58(programId));
    h.update('ProgramDerivedAddress');
    const key = h.digest();
    if (!onCurve(key)) {
      const out = [toBase58(key), bump];
      derived.set(id, out);
      return out.slice();
    }
  }
  throw new Error('no program derived address');
};

// ---- transaction builders
const many = (x) => (Array.isArray(x) ? x : [x]);
export class TransactionBuilder {
  constructor(items = [], options = {}) {
    this.items = items;
    this.options = options;
  }
  empty() {
    return new TransactionBuilder([], this.options);
  }
  static parse(input) {
    return many(input).flatMap((x) => ('items' in x ? x.items : [x]));
  }
  setItems(input) {
    return new TransactionBuilder(TransactionBuilder.parse(input), this.options);
  }
  prepend(input) {
    return new TransactionBuilder([...TransactionBuilder.parse(input), ...this.items], this.options);
  }
  append(input) {
    return new TransactionBuilder([...this.items, ...TransactionBuilder.parse(input)], this.options);
  }
  add(input) {
    return this.append(input);
  }
  mapInstructions(fn) {
    return new TransactionBuilder(this.items.map(fn), this.options);
  }
  addRemainingAccounts(accounts, index) {
    const metas = many(accounts);
    const n = index ?? this.items.length - 1;
    const keys = metas.map((a) =>
      'pubkey' in a ? a : { pubkey: publicKey(a.signer), isSigner: a.isSigner ?? true, isWritable: a.isWritable }
    );
    const signers = metas.flatMap((a) => ('pubkey' in a ? [] : [a.signer]));
    return new TransactionBuilder(
      this.items.map((item, i) =>
        i === n
          ? {
              ...item,
              instruction: { ...item.instruction, keys: [...item.instruction.keys, ...keys] },
              signers: [...item.signers, ...signers],
            }
          : item
      ),
      this.options
    );
  }
  getBlockhash() {
    return this.options.blockhash;
  }
  setLatestBlockhash() {
    return this;
  }
  setVersion(version) {
    return new TransactionBuilder(this.items, { ...this.options, version });
  }
  useV0() {
    return this.setVersion(0);
  }
  useLegacyVersion() {
    return this.setVersion('legacy');
  }
  splitByIndex(index) {
    return [this.setItems(this.items.slice(0, index)), this.setItems(this.items.slice(index))];
  }
  unsafeSplitByTransactionSize(context) {
    return this.items.reduce(
      (builders, item) => {
        const last = builders.pop();
        const more = last.add(item);
        if (more.fitsInOneTransaction(context)) builders.push(more);
        else {
          builders.push(last);
          builders.push(last.empty().add(item));
        }
        return builders;
      },
      [this.empty()]
    );
  }
  setFeePayer(feePayer) {
    return new TransactionBuilder(this.items, { ...this.options, feePayer });
  }
  getFeePayer(context) {
    return this.options.feePayer ?? context.payer;
  }
  getInstructions() {
    return this.items.map((i) => i.instruction);
  }
  getSigners(context) {
    return uniqueSigners([this.getFeePayer(context), ...this.items.flatMap((i) => i.signers)]);
  }
  getBytesCreatedOnChain() {
    return this.items.reduce((t, i) => t + i.bytesCreatedOnChain, 0);
  }
  /** Bytes of the signed v0 transaction. */
  getTransactionSize(context) {
    const short = (n) => (n < 128 ? 1 : n < 16384 ? 2 : 3);
    const payer = this.getFeePayer(context).publicKey;
    const keys = new Set([payer]);
    const signers = new Set([payer]);
    for (const { keys: k, programId } of this.getInstructions()) {
      for (const a of k) {
        keys.add(a.pubkey);
        if (a.isSigner) signers.add(a.pubkey);
      }
      keys.add(programId);
    }
    let n = short(signers.size) + 64 * signers.size + 1 + 3 + short(keys.size) + 32 * keys.size + 32;
    n += short(this.items.length);
    for (const i of this.getInstructions())
      n += 1 + short(i.keys.length) + i.keys.length + short(i.data.length) + i.data.length;
    return n + 1;
  }
  minimumTransactionsRequired(context) {
    return Math.ceil(this.getTransactionSize(context) / TRANSACTION_SIZE_LIMIT);
  }
  fitsInOneTransaction(context) {
    return this.minimumTransactionsRequired(context) === 1;
  }
}
export const transactionBuilder = (items = []) => new TransactionBuilder(items);

export class TransactionBuilderGroup {
  constructor(builders = [], options = {}) {
    this.builders = builders;
    this.options = options;
  }
  static parse(input) {
    return many(input).flatMap((x) => ('builders' in x ? x.builders : [x]));
  }
  prepend(input) {
    return new TransactionBuilderGroup([...TransactionBuilderGroup.parse(input), ...this.builders], this.options);
  }
  append(input) {
    return new TransactionBuilderGroup([...this.builders, ...TransactionBuilderGroup.parse(input)], this.options);
  }
  add(input) {
    return this.append(input);
  }
  map(fn) {
    return new TransactionBuilderGroup(this.builders.map(fn), this.options);
  }
  filter(fn) {
    return new TransactionBuilderGroup(this.builders.filter(fn), this.options);
  }
  sequential() {
    return new TransactionBuilderGroup(this.builders, { ...this.options, sequential: true });
  }
  parallel() {
    return new TransactionBuilderGroup(this.builders, { ...this.options, sequential: false });
  }
  isParallel() {
    return this.options.sequential === false;
  }
  getInstructions() {
    return this.builders.flatMap((b) => b.getInstructions());
  }
  merge() {
    if (this.builders.length === 0) return new TransactionBuilder();
    return this.builders.reduce((b, n) => b.add(n), this.builders[0].empty());
  }
}
export const transactionBuilderGroup = (builders = []) => new TransactionBuilderGroup(builders);

// ---- account queries
export class GpaBuilder {
  constructor(context, programId, options = {}) {
    this.context = context;
    this.programId = programId;
    this.options = options;
  }
  with(options) {
    return new GpaBuilder(this.context, this.programId, { ...this.options, ...options });
  }
  registerFields(fields) {
    return this.with({ fields });
  }
  registerFieldsFromStruct(structFields) {
    let offset = 0;
    const fields = {};
    for (const [name, serializer] of structFields) {
      fields[name] = [offset, serializer];
      offset = offset === null || serializer.fixedSize === null ? null : offset + serializer.fixedSize;
    }
    return this.with({ fields });
  }
  deserializeUsing(callback) {
    return this.with({ deserializeCallback: callback });
  }
  where(offset, data) {
    const bytes = typeof data === 'string' ? base58.serialize(data) : new Uint8Array(data);
    return this.with({ filters: [...(this.options.filters ?? []), { memcmp: { offset, bytes } }] });
  }
  whereField(name, data) {
    const field = (this.options.fields ?? {})[name];
    if (!field) throw new Error(`Field [${name}] is not defined in the GpaBuilder.`);
    const [offset, serializer] = field;
    if (offset === null) throw new Error(`Field [${name}] does not have a fixed offset.`);
    return this.where(offset, serializer.serialize(data));
  }
  whereSize(dataSize) {
    return this.with({ filters: [...(this.options.filters ?? []), { dataSize }] });
  }
  sortUsing(callback) {
    return this.with({ sortCallback: callback });
  }
  async get() {
    const accounts = await this.context.rpc.getProgramAccounts(this.programId, { filters: this.options.filters ?? [] });
    return this.options.sortCallback ? accounts.sort(this.options.sortCallback) : accounts;
  }
  async getDeserialized() {
    const f = this.options.deserializeCallback;
    return (await this.get()).map((a) => (f ? f(a) : a));
  }
  async getPublicKeys() {
    return (await this.get()).map((a) => a.publicKey);
  }
}
export const gpaBuilder = (context, programId) => new GpaBuilder(context, programId);

export { publicKeySerializer as __publicKeySerializer, base58 };
export { utf8, base16, base64, mergeBytes, padBytes, fixBytes, mapSerializer } from './serializers.mjs';
