"""Modules imported again, with the C extension in place of its Python fallbacks."""
import importlib
import sys
import types

EXT = 'postgresql.port.optimized'
_cache = {}


class Proxy(types.ModuleType):
	"""the extension of the context in use"""
	ctx = None

	def __getattr__(self, name):
		if name.startswith('__'):
			raise AttributeError(name)

		def call(*a, **k):
			return getattr(self.ctx.optimized(), name)(*a, **k)
		call.__name__ = name
		return call


proxy = Proxy(EXT)


def load(ctx, names):
	proxy.ctx = ctx
	if names in _cache:
		return _cache[names]
	for n in names:
		importlib.import_module(n)		# what they depend on, without the extension
	saved = {n: sys.modules.pop(n) for n in names}
	sys.modules[EXT] = proxy
	try:
		_cache[names] = [importlib.import_module(n) for n in names]
	finally:
		del sys.modules[EXT]
		for n, m in saved.items():
			sys.modules[n] = m
			p, _, a = n.rpartition('.')
			setattr(sys.modules[p], a, m)
	return _cache[names]
