// Runs the repository's JavaScript clients for the simulator: one request per line in, one answer
// per line out.  Nothing here decides anything; keys, time and accounts come from the simulator.
import * as asset from '../../repo/clients/js/asset/src/index.ts';
import * as bridge from '../../repo/clients/js/bridge/src/index.ts';
import * as proxy from '../../repo/clients/js/proxy/src/index.ts';
import * as umi from '@metaplex-foundation/umi';

const clients = { asset, bridge, proxy };

const pack = (v) => {
  if (typeof v === 'bigint') return { $: 'n', v: v.toString() };
  if (v instanceof Uint8Array) return { $: 'b', v: Buffer.from(v).toString('hex') };
  if (Array.isArray(v)) return v.map(pack);
  if (v && typeof v === 'object') {
    const out = {};
    for (const k of Object.keys(v)) if (v[k] !== undefined) out[k] = pack(v[k]);
    return out;
  }
  return v === undefined ? null : v;
};

// `$` marks what JSON has no word for: numbers, bytes, signers, and calls of the client's helpers.
const unpack = (v, lib) => {
  if (Array.isArray(v)) return v.map((x) => unpack(x, lib));
  if (v && typeof v === 'object') {
    switch (v.$) {
      case 'n':
        return BigInt(v.v);
      case 'b':
        return new Uint8Array(Buffer.from(v.v, 'hex'));
      case 's':
        return umi.createNoopSigner(v.v);
      case 'pda':
        return [v.v, 255];
      case 'call': {
        const a = v.a.map((x) => unpack(x, lib));
        while (a.length > 0 && a[a.length - 1] === null) a.pop();
        return lib[v.f](...a);
      }
      default: {
        const out = {};
        for (const k of Object.keys(v)) out[k] = unpack(v[k], lib);
        return out;
      }
    }
  }
  return v;
};

const lamports = (n) => ({ basisPoints: BigInt(n), identifier: 'SOL', decimals: 9 });
const account = (a) => ({
  publicKey: a.key,
  exists: true,
  executable: false,
  owner: a.owner,
  lamports: lamports(a.lamports ?? 0),
  data: new Uint8Array(Buffer.from(a.data, 'hex')),
});

const context = (q) => {
  const keys = (q.keys ?? []).slice();
  const store = new Map((q.accounts ?? []).map((a) => [a.key, account(a)]));
  const filtered = (program, options) =>
    [...store.values()].filter(
      (a) =>
        a.owner === program &&
        (options.filters ?? []).every((f) =>
          'memcmp' in f
            ? f.memcmp.bytes.every((b, i) => a.data[f.memcmp.offset + i] === b)
            : a.data.length === f.dataSize
        )
    );
  const programs = umi.createProgramRepository();
  programs.add({ name: 'asset', publicKey: asset.ASSET_PROGRAM_ID, getErrorFromCode: () => null, isOnCluster: () => true });
  return {
    identity: umi.createNoopSigner(q.identity ?? umi.defaultPublicKey()),
    payer: umi.createNoopSigner(q.payer ?? umi.defaultPublicKey()),
    programs,
    eddsa: {
      generateKeypair: () => ({ publicKey: keys.shift(), secretKey: new Uint8Array(64) }),
      findPda: umi.findPda,
    },
    rpc: {
      getAccount: async (k) => store.get(umi.publicKey(k)) ?? { publicKey: umi.publicKey(k), exists: false },
      getAccounts: async (ks) =>
        ks.map((k) => store.get(umi.publicKey(k)) ?? { publicKey: umi.publicKey(k), exists: false }),
      getProgramAccounts: async (program, options = {}) => filtered(umi.publicKey(program), options),
    },
    transactions: {},
  };
};

const txs = (ctx, out) => {
  const builders = 'builders' in out ? out.builders.slice() : [out];
  // sent at once, they can arrive in any order
  if (builders.length > 1 && out.isParallel()) builders.reverse();
  return builders.map((b) => ({
    size: b.getTransactionSize(ctx),
    ixs: b.items.map(({ instruction: i, signers }) => ({
      program: i.programId,
      keys: i.keys.map((k) => [k.pubkey, k.isSigner, k.isWritable]),
      data: Buffer.from(i.data).toString('hex'),
      signers: signers.map((s) => s.publicKey),
    })),
  }));
};

const ops = {
  // a request, or a plan of several
  send: (q, ctx, lib) => txs(ctx, lib[q.f](ctx, unpack(q.input, lib))),
  // what the client makes of stored bytes
  read: (q, ctx, lib) => {
    const it = asset.deserializeAsset(account(q.account));
    return {
      asset: pack({ ...it, header: undefined }),
      found: (q.extensions ?? []).map((t) => pack(lib.getExtension(it, t) ?? null)),
      properties: (q.properties ?? []).map(([n, t]) => pack(lib.getProperty(it, n, t) ?? null)),
    };
  },
  vault: (q) => pack({ ...bridge.deserializeVault(account(q.account)), header: undefined }),
  fetch: async (q, ctx, lib) => {
    const out = await lib[q.f](ctx, unpack(q.input, lib));
    const one = (a) => (a === null ? null : pack({ ...a, header: undefined }));
    return Array.isArray(out) ? out.map(one) : one(out);
  },
  query: async (q, ctx, lib) => {
    let b = lib[q.f](ctx);
    for (const [field, value] of q.where) b = b.whereField(field, unpack(value, lib));
    return b.getPublicKeys();
  },
  call: (q, ctx, lib) => pack(lib[q.f](...(q.context ? [ctx] : []), ...q.a.map((x) => unpack(x, lib)))),
  encode: (q, ctx, lib) => {
    const e = unpack(q.input, lib);
    return Buffer.from(lib.getExtensionSerializerFromType(e.type).serialize(e)).toString('hex');
  },
  error: (q, ctx, lib) => {
    const e = lib[q.f](q.code, { name: 'x', publicKey: umi.defaultPublicKey() });
    return e === null || e === undefined ? null : { name: e.name, code: e.code, message: e.message };
  },
};

const answer = async (line) => {
  try {
    const q = JSON.parse(line);
    const lib = clients[q.lib ?? 'asset'];
    return JSON.stringify({ ok: (await ops[q.op](q, context(q), lib)) ?? null });
  } catch (e) {
    return JSON.stringify({ err: String((e && e.message) || e).slice(0, 300) });
  }
};

let rest = '';
let queue = Promise.resolve();
process.stdin.setEncoding('utf8');
process.stdin.on('data', (chunk) => {
  rest += chunk;
  let n = rest.indexOf('\n');
  while (n >= 0) {
    const line = rest.slice(0, n);
    rest = rest.slice(n + 1);
    queue = queue.then(async () => process.stdout.write((await answer(line)) + '\n'));
    n = rest.indexOf('\n');
  }
});
process.stdin.on('end', () => queue.then(() => process.exit(0)));
