"""Load /repo's modules from source, rewritten to go through the hooks."""
import ast
import importlib.abc
import importlib.machinery
import os
import sys
from . import hooks
from .containers import SxDict

REPO = os.environ.get('VERIF_REPO', '/repo')
__sx_transformed__ = True

NO_HOOK = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


class T(ast.NodeTransformer):
	def _n(self, name, node):
		return ast.copy_location(ast.Name('__sx_' + name + '__', ast.Load()), node)

	def _c(self, name, args, node, keywords=()):
		return ast.copy_location(ast.Call(self._n(name, node), args, list(keywords)), node)

	def visit_Call(self, node):
		self.generic_visit(node)
		if isinstance(node.func, ast.Name) and node.func.id in NO_HOOK:
			return node
		return self._c('call', [node.func] + node.args, node, node.keywords)

	def visit_Subscript(self, node):
		self.generic_visit(node)
		if not isinstance(node.ctx, ast.Load):
			return node
		s = node.slice
		if isinstance(s, ast.Constant) and isinstance(s.value, int):
			return node
		return self._c('getitem', [node.value, self._slice(s, node)], node)

	def _slice(self, s, node):
		if isinstance(s, ast.Slice):
			n = lambda x: x if x is not None else ast.copy_location(ast.Constant(None), node)
			return ast.copy_location(ast.Call(self._n('slice', node), [n(s.lower), n(s.upper), n(s.step)], []), node)
		if isinstance(s, ast.Tuple):
			return ast.copy_location(ast.Tuple([self._slice(e, node) for e in s.elts], ast.Load()), node)
		return s

	def visit_Compare(self, node):
		self.generic_visit(node)
		if len(node.ops) != 1:
			return node
		op = node.ops[0]
		a, b = node.left, node.comparators[0]
		if isinstance(op, (ast.In, ast.NotIn)):
			r = self._c('in', [a, b], node)
		elif isinstance(op, (ast.Is, ast.IsNot)):
			if isinstance(b, ast.Constant) and b.value is None:
				return node
			r = self._c('is', [a, b], node)
		else:
			return node
		if isinstance(op, (ast.NotIn, ast.IsNot)):
			r = ast.copy_location(ast.UnaryOp(ast.Not(), r), node)
		return r

	def visit_BinOp(self, node):
		self.generic_visit(node)
		if isinstance(node.op, ast.Mod):
			return self._c('mod', [node.left, node.right], node)
		return node

	def visit_AugAssign(self, node):
		self.generic_visit(node)
		if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
			return ast.copy_location(ast.Assign([node.target], self._c('mod', [
				ast.copy_location(ast.Name(node.target.id, ast.Load()), node), node.value], node)), node)
		return node

	def visit_JoinedStr(self, node):
		self.generic_visit(node)
		parts = []
		for v in node.values:
			if isinstance(v, ast.Constant):
				parts.append(v)
			elif isinstance(v, ast.Call):
				# already rewritten nested JoinedStr
				parts.append(v)
			else:
				spec = v.format_spec
				if spec is None:
					spec = ast.copy_location(ast.Constant(''), node)
				parts.append(ast.copy_location(ast.Tuple([v.value,
					ast.copy_location(ast.Constant(v.conversion), node), spec], ast.Load()), node))
		return self._c('fstr', parts, node)

	def visit_FormattedValue(self, node):
		self.generic_visit(node)
		return node

	def visit_Dict(self, node):
		self.generic_visit(node)
		parts = []
		for k, v in zip(node.keys, node.values):
			parts.append(ast.copy_location(ast.Tuple([v] if k is None else [k, v], ast.Load()), node))
		if len(parts) > 200:
			return node
		return self._c('mkdict', parts, node)

	def visit_Set(self, node):
		self.generic_visit(node)
		return self._c('mkset', [ast.copy_location(ast.Tuple(node.elts, ast.Load()), node)], node)

	def visit_SetComp(self, node):
		self.generic_visit(node)
		return self._c('mkset', [ast.copy_location(ast.ListComp(node.elt, node.generators), node)], node)

	def visit_DictComp(self, node):
		self.generic_visit(node)
		return self._c('mkdict_iter', [ast.copy_location(ast.ListComp(
			ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node), node.generators), node)], node)

	def _loop(self, node):
		self.generic_visit(node)
		node.body.insert(0, ast.copy_location(ast.Expr(self._c('tick', [], node)), node))
		return node

	visit_While = visit_For = _loop

	def visit_ClassDef(self, node):
		self.generic_visit(node)
		node.bases = [self._c('base', [b], b) if isinstance(b, ast.Name) and b.id == 'dict' else b for b in node.bases]
		return node

	def visit_FunctionDef(self, node):
		# annotations are not executed: leave them out of the rewriting
		node.body = [self.visit(x) for x in node.body]
		node.decorator_list = [self.visit(x) for x in node.decorator_list]
		node.args.defaults = [self.visit(x) for x in node.args.defaults]
		node.args.kw_defaults = [x if x is None else self.visit(x) for x in node.args.kw_defaults]
		return node

	visit_AsyncFunctionDef = visit_FunctionDef

	def visit_MatchValue(self, node):
		return node

	def visit_Assert(self, node):
		self.generic_visit(node)
		return node


STDLIB = os.path.dirname(os.__file__)
HOOKS = {
	'__sx_call__': hooks.call, '__sx_getitem__': hooks.getitem, '__sx_in__': hooks.in_, '__sx_is__': hooks.is_,
	'__sx_mod__': hooks.mod, '__sx_fstr__': hooks.fstr, '__sx_mkdict__': hooks.mkdict, '__sx_mkset__': hooks.mkset,
	'__sx_mkdict_iter__': hooks.mkdict_iter, '__sx_slice__': slice, '__sx_base__': lambda b: SxDict if b is dict else b, '__sx_transformed__': True,
	'__sx_tick__': hooks.tick,
}


def transform(src, filename):
	tree = ast.parse(src, filename)
	tree = T().visit(tree)
	ast.fix_missing_locations(tree)
	return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
	def __init__(self, name, path, ispkg):
		self.name, self.path, self.ispkg = name, path, ispkg

	def create_module(self, spec):
		return None

	def exec_module(self, mod):
		with open(self.path, encoding='utf-8') as f:
			src = f.read()
		mod.__dict__.update(HOOKS)
		mod.__file__ = self.path
		hooks.TRANSFORMED.add(self.name)
		exec(transform(src, self.path), mod.__dict__)

	def get_source(self, name):
		with open(self.path, encoding='utf-8') as f:
			return f.read()


class Finder(importlib.abc.MetaPathFinder):
	def __init__(self, roots, blocked=('postgresql.port.optimized',)):
		self.roots = roots       # package name -> directory that holds it
		self.blocked = blocked

	def find_spec(self, name, path=None, target=None):
		top = name.split('.')[0]
		if top not in self.roots:
			return None
		if name in self.blocked:
			raise ImportError(name + ' is not available to the symbolic executor')
		base = os.path.join(self.roots[top], *name.split('.'))
		if os.path.isfile(os.path.join(base, '__init__.py')):
			p, pkg = os.path.join(base, '__init__.py'), True
		elif os.path.isfile(base + '.py'):
			p, pkg = base + '.py', False
		else:
			return None
		spec = importlib.machinery.ModuleSpec(name, Loader(name, p, pkg), origin=p, is_package=pkg)
		if pkg:
			spec.submodule_search_locations = [base]
		spec.has_location = True
		return spec


class SingleModule(importlib.abc.MetaPathFinder):
	"""Rewrite one stdlib module under another name."""


def install(verif=None):
	roots = {'postgresql': REPO}
	# pure Python parts of the standard library that values pass through
	for n in ('ipaddress', 'uuid'):
		sys.modules.pop(n, None)
		roots[n] = STDLIB
	if verif:
		roots['checks'] = verif
	f = Finder(roots)
	sys.meta_path.insert(0, f)
	sys.dont_write_bytecode = True
	_ip_models()
	return f


def _ip_models():
	# the text of an address object is parsed to the same address
	import ipaddress as ip
	split = ip._split_optional_netmask

	def sx_split(x):
		if isinstance(x, (ip.IPv4Interface, ip.IPv6Interface)):
			return [x.packed, x.network.prefixlen]
		if isinstance(x, ip._BaseAddress):
			return [x.packed]
		if isinstance(x, ip._BaseNetwork):
			return [x.network_address.packed, x.prefixlen]
		return split(x)
	hooks.EXTRA_FUNCS[split] = sx_split


def load_as(newname, path):
	"""Load one source file (e.g. a stdlib module) rewritten under a new name."""
	import types
	m = types.ModuleType(newname)
	m.__file__ = path
	m.__dict__.update(HOOKS)
	hooks.TRANSFORMED.add(newname)
	sys.modules[newname] = m
	with open(path, encoding='utf-8') as fp:
		src = fp.read()
	exec(transform(src, path), m.__dict__)
	return m
