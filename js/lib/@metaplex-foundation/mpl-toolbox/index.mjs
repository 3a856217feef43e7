import { publicKey } from '@metaplex-foundation/umi/serializers';

const k = (v) => publicKey().serialize(v);
export const findAssociatedTokenPda = (context, { mint, owner, tokenProgramId }) => {
  const ata = context.programs.getPublicKey('splAssociatedToken', 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
  const token = tokenProgramId ?? context.programs.getPublicKey('splToken', 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
  return context.eddsa.findPda(ata, [k(owner), k(token), k(mint)]);
};
