// A stand-in for the umi serializers, written from their documented behaviour.
import { fromBase58, toBase58 } from './base58.mjs';

export class SerializerError extends Error {}

export const mergeBytes = (arrays) => {
  const n = arrays.reduce((t, a) => t + a.length, 0);
  const out = new Uint8Array(n);
  let o = 0;
  for (const a of arrays) {
    out.set(a, o);
    o += a.length;
  }
  return out;
};
export const padBytes = (bytes, length) => {
  if (bytes.length >= length) return bytes;
  const out = new Uint8Array(length);
  out.set(bytes);
  return out;
};
export const fixBytes = (bytes, length) =>
  padBytes(bytes.slice(0, length), length);

const need = (name, bytes, offset, n) => {
  const have = Math.max(0, bytes.length - offset);
  if (have === 0 && n > 0)
    throw new SerializerError(`Serializer [${name}] cannot deserialize empty buffers.`);
  if (have < n)
    throw new SerializerError(`Serializer [${name}] expected ${n} bytes, got ${have}.`);
};

const int = (name, size, signed) => (options = {}) => {
  const big = options.endian === 'be';
  const bits = BigInt(size * 8);
  const min = signed ? -(1n << (bits - 1n)) : 0n;
  const max = signed ? (1n << (bits - 1n)) - 1n : (1n << bits) - 1n;
  return {
    description: options.description ?? name,
    fixedSize: size,
    maxSize: size,
    serialize: (value) => {
      if (typeof value !== 'number' && typeof value !== 'bigint')
        throw new SerializerError(`Expected a number in [${name}], got [${value}].`);
      if (typeof value === 'number' && !Number.isInteger(value))
        throw new SerializerError(`Expected an integer in [${name}], got [${value}].`);
      let v = BigInt(value);
      if (v < min || v > max)
        throw new SerializerError(`Expected number to be between ${min} and ${max}, got [${value}].`);
      if (v < 0n) v += 1n << bits;
      const out = new Uint8Array(size);
      for (let i = 0; i < size; i += 1) {
        out[big ? size - 1 - i : i] = Number(v & 255n);
        v >>= 8n;
      }
      return out;
    },
    deserialize: (bytes, offset = 0) => {
      need(name, bytes, offset, size);
      let v = 0n;
      for (let i = 0; i < size; i += 1)
        v = (v << 8n) | BigInt(bytes[offset + (big ? i : size - 1 - i)]);
      if (signed && v > max) v -= 1n << bits;
      return [size > 4 ? v : Number(v), offset + size];
    },
  };
};
export const u8 = int('u8', 1, false);
export const i8 = int('i8', 1, true);
export const u16 = int('u16', 2, false);
export const i16 = int('i16', 2, true);
export const u32 = int('u32', 4, false);
export const i32 = int('i32', 4, true);
export const u64 = int('u64', 8, false);
export const i64 = int('i64', 8, true);
export const u128 = int('u128', 16, false);
export const i128 = int('i128', 16, true);

export const mapSerializer = (serializer, unmap, map) => ({
  description: serializer.description,
  fixedSize: serializer.fixedSize,
  maxSize: serializer.maxSize,
  serialize: (value) => serializer.serialize(unmap(value)),
  deserialize: (buffer, offset = 0) => {
    const [value, length] = serializer.deserialize(buffer, offset);
    return map ? [map(value, buffer, offset), length] : [value, length];
  },
});

export const fixSerializer = (serializer, fixedBytes, description) => ({
  description: description ?? `fixed(${fixedBytes}, ${serializer.description})`,
  fixedSize: fixedBytes,
  maxSize: fixedBytes,
  serialize: (value) => fixBytes(serializer.serialize(value), fixedBytes),
  deserialize: (buffer, offset = 0) => {
    need('fixSerializer', buffer, offset, fixedBytes);
    let slice = buffer.slice(offset, offset + fixedBytes);
    if (serializer.fixedSize !== null) slice = fixBytes(slice, serializer.fixedSize);
    const [value] = serializer.deserialize(slice, 0);
    return [value, offset + fixedBytes];
  },
});

export const reverseSerializer = (serializer) => ({
  ...serializer,
  serialize: (value) => serializer.serialize(value).reverse(),
  deserialize: (bytes, offset = 0) => {
    const n = serializer.fixedSize;
    const copy = bytes.slice();
    copy.set(bytes.slice(offset, offset + n).reverse(), offset);
    return serializer.deserialize(copy, offset);
  },
});

export const utf8 = {
  description: 'utf8',
  fixedSize: null,
  maxSize: null,
  serialize: (value) => new TextEncoder().encode(value),
  deserialize: (buffer, offset = 0) => [
    // eslint-disable-next-line no-control-regex
    new TextDecoder().decode(buffer.slice(offset)).replace(/\u0000/g, ''),
    buffer.length,
  ],
};
export const base58 = {
  description: 'base58',
  fixedSize: null,
  maxSize: null,
  serialize: (value) => fromBase58(value),
  deserialize: (buffer, offset = 0) => [toBase58(buffer.slice(offset)), buffer.length],
};
export const base16 = {
  description: 'base16',
  fixedSize: null,
  maxSize: null,
  serialize: (value) => new Uint8Array(Buffer.from(value, 'hex')),
  deserialize: (buffer, offset = 0) => [
    Buffer.from(buffer.slice(offset)).toString('hex'),
    buffer.length,
  ],
};

export const base64 = {
  description: 'base64',
  fixedSize: null,
  maxSize: null,
  serialize: (value) => new Uint8Array(Buffer.from(value, 'base64')),
  deserialize: (buffer, offset = 0) => [
    Buffer.from(buffer.slice(offset)).toString('base64'),
    buffer.length,
  ],
};

const sized = (name, options, content, fallback) => {
  const size = options.size ?? fallback;
  if (size === 'variable') return { ...content, description: options.description ?? name };
  if (typeof size === 'number') return fixSerializer(content, size, options.description ?? name);
  return {
    description: options.description ?? name,
    fixedSize: null,
    maxSize: null,
    serialize: (value) => {
      const body = content.serialize(value);
      return mergeBytes([size.serialize(body.length), body]);
    },
    deserialize: (buffer, offset = 0) => {
      need(name, buffer, offset, 1);
      const [length, start] = size.deserialize(buffer, offset);
      const n = Number(length);
      const slice = buffer.slice(start, start + n);
      if (slice.length < n)
        throw new SerializerError(`Serializer [${name}] expected ${n} bytes, got ${slice.length}.`);
      const [value] = content.deserialize(slice);
      return [value, start + n];
    },
  };
};
export const string = (options = {}) =>
  sized('string', options, options.encoding ?? utf8, u32());

export const bytes = (options = {}) =>
  sized(
    'bytes',
    options,
    {
      description: 'bytes',
      fixedSize: null,
      maxSize: null,
      serialize: (value) => new Uint8Array(value),
      deserialize: (buffer, offset = 0) => {
        const slice = buffer.slice(offset);
        return [slice, offset + slice.length];
      },
    },
    'variable'
  );

export const bool = (options = {}) => {
  const size = options.size ?? u8();
  return {
    description: options.description ?? 'bool',
    fixedSize: size.fixedSize,
    maxSize: size.maxSize,
    serialize: (value) => size.serialize(value ? 1 : 0),
    deserialize: (buffer, offset = 0) => {
      need('bool', buffer, offset, 1);
      const [value, next] = size.deserialize(buffer, offset);
      return [Number(value) === 1, next];
    },
  };
};

export const unit = (options = {}) => ({
  description: options.description ?? 'unit',
  fixedSize: 0,
  maxSize: 0,
  serialize: () => new Uint8Array(),
  deserialize: (_bytes, offset = 0) => [undefined, offset],
});

const total = (sizes) => sizes.reduce((a, b) => (a === null || b === null ? null : a + b), 0);

export const struct = (fields, options = {}) => ({
  description: options.description ?? 'struct',
  fixedSize: total(fields.map(([, f]) => f.fixedSize)),
  maxSize: total(fields.map(([, f]) => f.maxSize)),
  serialize: (value) => mergeBytes(fields.map(([key, f]) => f.serialize(value[key]))),
  deserialize: (buffer, offset = 0) => {
    const out = {};
    for (const [key, f] of fields) {
      const [value, next] = f.deserialize(buffer, offset);
      out[key] = value;
      offset = next;
    }
    return [out, offset];
  },
});

export const tuple = (items, options = {}) => ({
  description: options.description ?? 'tuple',
  fixedSize: total(items.map((f) => f.fixedSize)),
  maxSize: total(items.map((f) => f.maxSize)),
  serialize: (value) => {
    if (value.length !== items.length)
      throw new SerializerError(`Expected [tuple] to have ${items.length} items, got ${value.length}.`);
    return mergeBytes(items.map((f, i) => f.serialize(value[i])));
  },
  deserialize: (buffer, offset = 0) => {
    const out = [];
    for (const f of items) {
      const [value, next] = f.deserialize(buffer, offset);
      out.push(value);
      offset = next;
    }
    return [out, offset];
  },
});

export const array = (item, options = {}) => {
  const size = options.size ?? u32();
  return {
    description: options.description ?? 'array',
    fixedSize: typeof size === 'number' && item.fixedSize !== null ? size * item.fixedSize : null,
    maxSize: typeof size === 'number' && item.maxSize !== null ? size * item.maxSize : null,
    serialize: (value) => {
      if (typeof size === 'number' && value.length !== size)
        throw new SerializerError(`Expected [array] to have ${size} items, got ${value.length}.`);
      const head = typeof size === 'object' ? [size.serialize(value.length)] : [];
      return mergeBytes([...head, ...value.map((v) => item.serialize(v))]);
    },
    deserialize: (buffer, offset = 0) => {
      const values = [];
      if (size === 'remainder') {
        while (offset < buffer.length) {
          const [value, next] = item.deserialize(buffer, offset);
          values.push(value);
          offset = next;
        }
        return [values, offset];
      }
      if (typeof size === 'object' && buffer.slice(offset).length === 0) return [[], offset];
      let n = size;
      if (typeof size === 'object') [n, offset] = size.deserialize(buffer, offset);
      for (let i = 0; i < Number(n); i += 1) {
        const [value, next] = item.deserialize(buffer, offset);
        values.push(value);
        offset = next;
      }
      return [values, offset];
    },
  };
};

export const set = (item, options = {}) =>
  mapSerializer(array(item, options), (v) => [...v], (v) => new Set(v));
export const map = (key, value, options = {}) =>
  mapSerializer(array(tuple([key, value]), options), (v) => [...v.entries()], (v) => new Map(v));

const wrapped = (value) =>
  value !== null && typeof value === 'object' && '__option' in value ? value : value == null ? { __option: 'None' } : { __option: 'Some', value };

export const option = (item, options = {}) => {
  const prefix = options.prefix ?? u8();
  const fixed = options.fixed ?? false;
  return {
    description: options.description ?? 'option',
    fixedSize: fixed && item.fixedSize !== null ? prefix.fixedSize + item.fixedSize : null,
    maxSize: item.maxSize === null ? null : prefix.maxSize + item.maxSize,
    serialize: (optionOrNullable) => {
      const o = wrapped(optionOrNullable);
      const head = prefix.serialize(o.__option === 'Some' ? 1 : 0);
      if (o.__option === 'Some') {
        const body = item.serialize(o.value);
        return mergeBytes([head, fixed ? fixBytes(body, item.fixedSize) : body]);
      }
      return fixed ? fixBytes(head, prefix.fixedSize + item.fixedSize) : head;
    },
    deserialize: (buffer, offset = 0) => {
      if (buffer.length - offset <= 0) return [{ __option: 'None' }, offset];
      const end = offset + (fixed ? prefix.fixedSize + item.fixedSize : 0);
      const [is, next] = prefix.deserialize(buffer, offset);
      if (Number(is) === 0) return [{ __option: 'None' }, fixed ? end : next];
      const [value, last] = item.deserialize(buffer, next);
      return [{ __option: 'Some', value }, fixed ? end : last];
    },
  };
};

export const nullable = (item, options = {}) => {
  const inner = option(item, options);
  return mapSerializer(
    inner,
    (v) => (v == null ? { __option: 'None' } : { __option: 'Some', value: v }),
    (o) => (o.__option === 'Some' ? o.value : null)
  );
};

export const scalarEnum = (constructor, options = {}) => {
  const prefix = options.size ?? u8();
  const keys = Object.keys(constructor);
  const isNumeric = Object.values(constructor).some((v) => typeof v === 'number');
  const values = isNumeric ? Object.values(constructor).filter((v) => typeof v === 'number') : Object.values(constructor);
  const names = isNumeric ? keys.filter((k) => typeof constructor[k] === 'number') : keys;
  const max = isNumeric ? Math.max(...values) : names.length - 1;
  const min = isNumeric ? Math.min(...values) : 0;
  return {
    description: options.description ?? 'enum',
    fixedSize: prefix.fixedSize,
    maxSize: prefix.maxSize,
    serialize: (value) => {
      let n;
      if (typeof value === 'number') {
        if (value < min || value > max)
          throw new SerializerError(`Invalid scalar enum value: ${value}.`);
        n = value;
      } else if (isNumeric && typeof constructor[value] === 'number') n = constructor[value];
      else if (!isNumeric && (keys.includes(value) || values.includes(value)))
        n = keys.includes(value) ? keys.indexOf(value) : values.indexOf(value);
      else throw new SerializerError(`Invalid scalar enum variant: ${String(value)}.`);
      return prefix.serialize(n);
    },
    deserialize: (buffer, offset = 0) => {
      need('enum', buffer, offset, 1);
      const [value, next] = prefix.deserialize(buffer, offset);
      const n = Number(value);
      if (n < min || n > max) throw new SerializerError(`Enum discriminator out of range: ${n}.`);
      return [isNumeric ? n : values[n], next];
    },
  };
};

export const dataEnum = (variants, options = {}) => {
  const prefix = options.size ?? u8();
  return {
    description: options.description ?? 'dataEnum',
    fixedSize: null,
    maxSize: null,
    serialize: (variant) => {
      const n = variants.findIndex(([key]) => variant.__kind === key);
      if (n < 0) throw new SerializerError(`Invalid data enum variant: ${variant.__kind}.`);
      return mergeBytes([prefix.serialize(n), variants[n][1].serialize(variant)]);
    },
    deserialize: (buffer, offset = 0) => {
      need('dataEnum', buffer, offset, 1);
      const [value, next] = prefix.deserialize(buffer, offset);
      const found = variants[Number(value)];
      if (!found) throw new SerializerError(`Data enum index out of range: ${value}.`);
      const [variant, last] = found[1].deserialize(buffer, next);
      return [{ __kind: found[0], ...(variant ?? {}) }, last];
    },
  };
};

export const publicKey = (options = {}) => ({
  description: options.description ?? 'publicKey',
  fixedSize: 32,
  maxSize: 32,
  serialize: (value) => {
    const key =
      typeof value === 'string' ? value : Array.isArray(value) ? value[0] : value.publicKey ?? value;
    const out = fromBase58(key);
    if (out.length !== 32) throw new SerializerError(`Invalid public key: ${key}`);
    return out;
  },
  deserialize: (buffer, offset = 0) => {
    need('publicKey', buffer, offset, 32);
    return [toBase58(buffer.slice(offset, offset + 32)), offset + 32];
  },
});
export const publicKeyBytes = publicKey;
