// Address derivations of the token metadata program, as its client documents them.
import { publicKey, string } from '@metaplex-foundation/umi/serializers';

export const TokenStandard = {
  NonFungible: 0, FungibleAsset: 1, Fungible: 2, NonFungibleEdition: 3,
  ProgrammableNonFungible: 4, ProgrammableNonFungibleEdition: 5,
  0: 'NonFungible', 1: 'FungibleAsset', 2: 'Fungible', 3: 'NonFungibleEdition',
  4: 'ProgrammableNonFungible', 5: 'ProgrammableNonFungibleEdition',
};
const program = (context) =>
  context.programs.getPublicKey('mplTokenMetadata', 'metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s');
const s = (v) => string({ size: 'variable' }).serialize(v);
const k = (v) => publicKey().serialize(v);
export const MPL_TOKEN_METADATA_PROGRAM_ID = 'metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s';
export const findMetadataPda = (context, { mint }) =>
  context.eddsa.findPda(program(context), [s('metadata'), k(program(context)), k(mint)]);
export const findMasterEditionPda = (context, { mint }) =>
  context.eddsa.findPda(program(context), [s('metadata'), k(program(context)), k(mint), s('edition')]);
export const findTokenRecordPda = (context, { mint, token }) =>
  context.eddsa.findPda(program(context), [s('metadata'), k(program(context)), k(mint), s('token_record'), k(token)]);
