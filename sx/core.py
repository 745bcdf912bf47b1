"""Path exploration: decisions, solver, obligations.

One Engine explores one task: it runs a function again and again, each time
with a different prefix of branch decisions, until every feasible path within
the bounds has been run.  z3 decides the feasibility of every branch and the
truth of every obligation.
"""
import time
import z3

__sx_transformed__ = True


class SxControl(BaseException):
	"""Steers the exploration; never meant to be caught by code under test."""


class SxHang(SxControl):
	"""more loop iterations than any terminating run within the bounds makes"""


class SxAbort(SxControl):
	"""The current path is vacuous (an assumption cannot hold)."""


class SxBound(SxControl):
	"""The current path exceeds a stated bound and is cut off."""


class SxUnsupported(SxControl):
	"""The code did something with a symbolic value that has no model."""


class SxViolation(SxControl):
	pass


class SxInconclusive(SxControl):
	pass


E = None


def set_engine(e):
	global E
	E = e


class Engine:
	def __init__(self, mode='bv', query_timeout_ms=30000, max_paths=200000, deadline=None, max_ticks=40000):
		self.mode = mode
		self.max_ticks = max_ticks
		self.ticks = 0
		self.solver = z3.SimpleSolver() if mode == 'bv' else z3.Solver()
		self.timeout_ms = query_timeout_ms
		self.used = self.solver
		self.solver.set('timeout', query_timeout_ms if mode == 'bv' else min(query_timeout_ms, 3000))
		self.max_paths = max_paths
		self.deadline = deadline
		self.trace = []
		self.pos = 0
		self.model = None
		self.stats = dict(paths=0, aborted=0, cut=0, queries=0, solver_s=0.0, obligations=0,
			discharged=0, decisions=0, concretized=0, unknown=0, trivial=0)
		self.poison = None
		self.inputs = {}
		self.fresh = 0
		self.byte_of = {}
		self.divs = {}
		self.labels = {}

	# -- solver -----------------------------------------------------------
	def _check(self, *extra):
		t = time.perf_counter()
		r = self.solver.check(*extra)
		self.used = self.solver
		if r == z3.unknown and self.mode == 'int':
			# from scratch, other seeds
			for seed in (1, 2, 3, 4):
				s = z3.Solver()
				s.set('timeout', self.timeout_ms // 3)
				s.set('random_seed', seed)
				s.add(self.solver.assertions())
				s.add(*extra)
				r = s.check()
				if r != z3.unknown:
					self.used = s
					break
		self.stats['solver_s'] += time.perf_counter() - t
		self.stats['queries'] += 1
		if r == z3.unknown:
			self.stats['unknown'] += 1
		if self.deadline is not None and time.time() > self.deadline:
			raise SxInconclusive('time limit of the task reached')
		return r

	def branch(self, cond):
		"""Truth value of the z3 condition on this path; forks when both are possible."""
		cond = z3.simplify(cond)
		if z3.is_true(cond):
			return True
		if z3.is_false(cond):
			return False
		return self._decide(cond)[0]

	def _equivalent(self, a, b):
		"""z3.simplify orders arguments by term ids, which differ between runs"""
		s = z3.Solver()
		s.set('timeout', 10000)
		s.add(a != b)
		return s.check() == z3.unsat

	def _decide(self, cond, aux=None):
		i = self.pos
		self.pos += 1
		if i < len(self.trace):
			ent = self.trace[i]
			if not cond.eq(ent[0]) and not self._equivalent(cond, ent[0]):
				raise SxInconclusive('re-execution diverged: %s / %s' % (cond, ent[0]))
			if ent[2] and ent[5] is not None:
				self.model = ent[5]
			return ent[1], ent[4]
		self.stats['decisions'] += 1
		m = self.model
		can_t = can_f = None
		mt = mf = None
		if m is not None:
			v = m.eval(cond, model_completion=True)
			if z3.is_true(v):
				can_t, mt = True, m
			elif z3.is_false(v):
				can_f, mf = True, m
		ncond = z3.Not(cond)
		if can_t is None:
			r = self._check(cond)
			can_t = r != z3.unsat
			if r == z3.sat:
				mt = self.used.model()
		if can_f is None:
			r = self._check(ncond)
			can_f = r != z3.unsat
			if r == z3.sat:
				mf = self.used.model()
		if can_t and can_f:
			self.stats['forks'] = self.stats.get('forks', 0) + 1
			# entry: cond, value, flippable, pushed, aux, model, model of the other side
			self.trace.append([cond, True, True, True, aux, mt, mf])
			self.solver.push()
			self.solver.add(cond)
			self.model = mt
			return True, aux
		if not can_t and not can_f:
			raise SxAbort('infeasible')
		self.trace.append([cond, can_t, False, False, aux, None, None])
		return can_t, aux

	def assume(self, cond):
		cond = z3.simplify(cond)
		if z3.is_true(cond):
			return
		if z3.is_false(cond):
			raise SxAbort('assumption false')
		i = self.pos
		self.pos += 1
		if i < len(self.trace):
			self.model = self.trace[i][5]
			return
		m = self.model
		if m is None or not z3.is_true(m.eval(cond, model_completion=True)):
			r = self._check(cond)
			if r == z3.unsat:
				# keep the trace consistent: nothing recorded, path ends here
				self.pos -= 1
				raise SxAbort('assumption unsatisfiable')
			m = self.used.model() if r == z3.sat else None
		self.trace.append([cond, True, False, True, None, m, None])
		self.solver.push()
		self.solver.add(cond)
		self.model = m

	def get_model(self):
		if self.model is None:
			r = self._check()
			if r == z3.unsat:
				raise SxAbort('infeasible')
			if r != z3.sat:
				raise SxInconclusive('solver gave no model')
			self.model = self.used.model()
		return self.model

	def concretize(self, expr, conv):
		"""Fork over every feasible value of expr (a z3 term)."""
		self.stats['concretized'] += 1
		n = 0
		while True:
			n += 1
			if n > 70000:
				raise SxInconclusive('too many values to enumerate')
			i = self.pos
			if i < len(self.trace):
				v = self.trace[i][4]
				self.pos += 1
				if self.trace[i][2] and self.trace[i][5] is not None:
					self.model = self.trace[i][5]
				if self.trace[i][1]:
					return conv(v)
				continue
			m = self.get_model()
			v = m.eval(expr, model_completion=True)
			val, _ = self._decide(expr == v, aux=v)
			if val:
				return conv(v)

	def few(self, expr, n):
		"""has expr at most n values here?"""
		if self.pos < len(self.trace):
			# being replayed: it was asked then
			return True
		self.solver.push()
		try:
			for i in range(n + 1):
				r = self._check()
				if r == z3.unsat:
					return True
				if r != z3.sat:
					return False
				self.solver.add(expr != self.used.model().eval(expr, model_completion=True))
		finally:
			self.solver.pop()
		return False

	def obligation(self, cond, label=''):
		"""Return None if cond holds on every input of this path, else a model."""
		self.stats['obligations'] += 1
		cond = z3.simplify(cond)
		if z3.is_true(cond):
			self.stats['discharged'] += 1
			self.stats['trivial'] += 1
			return None
		if self.mode == 'int' and z3.is_and(cond):
			# one conjunct at a time, with those already shown
			self.solver.push()
			try:
				for c in cond.children():
					r = self._check(z3.Not(c))
					if r == z3.sat:
						return self.used.model()
					if r != z3.unsat:
						raise SxInconclusive('solver answered unknown on an obligation: %s: %s' % (label, c))
					self.solver.add(c)
			finally:
				self.solver.pop()
			self.stats['discharged'] += 1
			return None
		r = self._check(z3.Not(cond))
		if r == z3.unsat:
			self.stats['discharged'] += 1
			return None
		if r == z3.sat:
			return self.used.model()
		raise SxInconclusive('solver answered unknown on an obligation: ' + label)

	# -- exploration ------------------------------------------------------
	def backtrack(self):
		tr = self.trace
		while tr:
			ent = tr[-1]
			if ent[3]:
				self.solver.pop()
			if ent[2] and ent[1]:
				# flip: take the other side
				ent[1] = False
				ent[5] = ent[6]
				ent[2] = 'done'
				self.solver.push()
				self.solver.add(z3.Not(ent[0]))
				return True
			tr.pop()
		return False

	def explore(self, fn, on_path=None):
		"""Run fn() over every feasible path.  fn may raise SxViolation."""
		set_engine(self)
		while True:
			if self.stats['paths'] >= self.max_paths:
				raise SxInconclusive('path limit reached')
			self.pos = 0
			self.model = None
			self.poison = None
			self.inputs = {}
			self.fresh = 0
			self.byte_of = {}
			self.divs = {}
			self.ticks = 0
			self.__dict__.pop('real_bytes', None)
			try:
				try:
					fn()
				except SxAbort:
					self.stats['aborted'] += 1
				except SxBound:
					self.stats['cut'] += 1
				else:
					if self.poison is not None:
						raise self.poison
					self.stats['paths'] += 1
					if on_path is not None:
						on_path(self)
			finally:
				pass
			if self.deadline is not None and time.time() > self.deadline:
				raise SxInconclusive('time limit of the task reached')
			# drop recorded decisions that the last run did not reach
			if not self.backtrack():
				return

	def unsupported(self, what):
		e = SxUnsupported(what)
		if self.poison is None:
			self.poison = e
		raise e

	def fresh_name(self, base):
		self.fresh += 1
		return '%s!%d' % (base, self.fresh)
