"""Text codecs on symbolic sequences."""
import codecs as _codecs
from . import core
from .values import SymStr, SymBytes, SymInt, sand, sor, is_sym

__sx_transformed__ = True


def _norm(encoding):
	if is_sym(encoding):
		core.E.unsupported('symbolic codec name')
	return _codecs.lookup(encoding).name


def _bit(x, mask):
	return x & mask


def encode(s, encoding='utf-8', errors='strict'):
	name = _norm(encoding)
	out = []
	items = s.items
	if name in ('ascii', 'iso8859-1'):
		lim = 128 if name == 'ascii' else 256
		for i, x in enumerate(items):
			if x < lim:
				out.append(x if type(x) is int else SymInt.make(x.e, max(x.lo, 0), min(x.hi, lim - 1)))
			elif errors == 'strict':
				raise UnicodeEncodeError(name, '\x00' * len(items), i, i + 1, 'ordinal not in range(%d)' % lim)
			elif errors == 'ignore':
				pass
			elif errors == 'replace':
				out.append(63)
			else:
				core.E.unsupported('encode errors=' + errors)
		return SymBytes(out)
	if name == 'utf-8':
		for i, x in enumerate(items):
			if x < 0x80:
				out.append(x if type(x) is int else SymInt.make(x.e, max(x.lo, 0), min(x.hi, 127)))
			elif x < 0x800:
				out.append(_by(0xC0 + (x >> 6)))
				out.append(_by(0x80 + (x & 63)))
			elif sand(x >= 0xD800, x <= 0xDFFF):
				if errors == 'strict':
					raise UnicodeEncodeError('utf-8', '\x00' * len(items), i, i + 1, 'surrogates not allowed')
				core.E.unsupported('surrogates with errors=' + errors)
			elif x < 0x10000:
				out.append(_by(0xE0 + (x >> 12)))
				out.append(_by(0x80 + ((x >> 6) & 63)))
				out.append(_by(0x80 + (x & 63)))
			else:
				out.append(_by(0xF0 + (x >> 18)))
				out.append(_by(0x80 + ((x >> 12) & 63)))
				out.append(_by(0x80 + ((x >> 6) & 63)))
				out.append(_by(0x80 + (x & 63)))
		return SymBytes(out)
	core.E.unsupported('encoding ' + name)


def _by(x):
	if type(x) is SymInt:
		return SymInt.make(x.e, max(x.lo, 0), min(x.hi, 255))
	return x


def decode(b, encoding='utf-8', errors='strict'):
	name = _norm(encoding)
	items = b.items
	if name == 'iso8859-1':
		return SymStr(items)
	if name == 'ascii':
		for i, x in enumerate(items):
			if not x < 128:
				if errors != 'strict':
					core.E.unsupported('decode errors=' + errors)
				raise UnicodeDecodeError('ascii', b'\x80' * len(items), i, i + 1, 'ordinal not in range(128)')
		return SymStr(items)
	if name == 'utf-8':
		out = []
		i = 0
		n = len(items)

		def bad(i, j):
			if errors == 'strict':
				raise UnicodeDecodeError('utf-8', b'\x80' * n, i, j, 'invalid data')
			if errors == 'replace':
				out.append(0xFFFD)
				return
			if errors == 'ignore':
				return
			core.E.unsupported('decode errors=' + errors)

		def cont(k, lo=0x80, hi=0xBF):
			return k < n and sand(items[k] >= lo, items[k] <= hi)

		while i < n:
			x = items[i]
			if x < 0x80:
				out.append(x)
				i += 1
			elif x < 0xC2:
				bad(i, i + 1)
				i += 1
			elif x < 0xE0:
				if cont(i + 1):
					out.append((x - 0xC0) * 64 + (items[i + 1] - 0x80))
					i += 2
				else:
					bad(i, i + 1)
					i += 1
			elif x < 0xF0:
				if x == 0xE0:
					lo, hi = 0xA0, 0xBF
				elif x == 0xED:
					lo, hi = 0x80, 0x9F
				else:
					lo, hi = 0x80, 0xBF
				if cont(i + 1, lo, hi):
					if cont(i + 2):
						out.append((x - 0xE0) * 4096 + (items[i + 1] - 0x80) * 64 + (items[i + 2] - 0x80))
						i += 3
					else:
						bad(i, i + 2)
						i += 2
				else:
					bad(i, i + 1)
					i += 1
			elif x < 0xF5:
				if x == 0xF0:
					lo, hi = 0x90, 0xBF
				elif x == 0xF4:
					lo, hi = 0x80, 0x8F
				else:
					lo, hi = 0x80, 0xBF
				if cont(i + 1, lo, hi):
					if cont(i + 2):
						if cont(i + 3):
							out.append((x - 0xF0) * 262144 + (items[i + 1] - 0x80) * 4096
								+ (items[i + 2] - 0x80) * 64 + (items[i + 3] - 0x80))
							i += 4
						else:
							bad(i, i + 3)
							i += 3
					else:
						bad(i, i + 2)
						i += 2
				else:
					bad(i, i + 1)
					i += 1
			else:
				bad(i, i + 1)
				i += 1
		return SymStr([_cp(x) for x in out])
	core.E.unsupported('decoding ' + name)


def _cp(x):
	if type(x) is SymInt:
		return SymInt.make(x.e, max(x.lo, 0), min(x.hi, 0x10FFFF))
	return x
