"""A reference lexer for the SQL the checks look at (PostgreSQL rules,
standard_conforming_strings on).  Works on plain and on symbolic text."""


def is_ident_start(c):
	return ('a' <= c and c <= 'z') or ('A' <= c and c <= 'Z') or c == '_' or c > '\x7f'


def is_digit(c):
	return '0' <= c and c <= '9'


def is_ident_part(c):
	return is_ident_start(c) or is_digit(c) or c == '$'


def is_space(c):
	return c == ' ' or c == '\t' or c == '\n' or c == '\r' or c == '\x0c'


def fold(c):
	if 'A' <= c and c <= 'Z':
		return chr(ord(c) + 32)
	return c


def lex(text):
	"""-> list of (kind, value, start, end, terminated)

	kinds: 'w' bare word (folded), 'i' quoted identifier, 's' literal, 'e' escape literal (raw content),
	'd' dollar quote (content), 'n' number/other, 'p' any other single character
	"""
	out = []
	n = len(text)
	i = 0
	while i < n:
		c = text[i]
		if is_space(c):
			i += 1
			continue
		if c == "'" or c == '"':
			v, j, ok = quoted(text, i, c)
			out.append(('s' if c == "'" else 'i', v, i, j, ok))
			i = j
			continue
		if (c == 'e' or c == 'E') and i + 1 < n and text[i + 1] == "'":
			j = i + 2
			ok = False
			while j < n:
				d = text[j]
				if d == '\\':
					j += 2
					continue
				if d == "'":
					if j + 1 < n and text[j + 1] == "'":
						j += 2
						continue
					ok = True
					break
				j += 1
			if j > n:
				j = n
			out.append(('e', text[i + 2:j], i, j + 1 if ok else n, ok))
			i = j + 1 if ok else n
			continue
		if c == '$':
			# $tag$
			j = i + 1
			if j < n and is_ident_start(text[j]):
				j += 1
				while j < n and (is_ident_start(text[j]) or is_digit(text[j])):
					j += 1
			if j < n and text[j] == '$':
				tag = text[i:j + 1]
				k = j + 1
				ok = False
				while k + len(tag) <= n:
					if text[k:k + len(tag)] == tag:
						ok = True
						break
					k += 1
				if not ok:
					k = n
				out.append(('d', text[j + 1:k], i, k + len(tag) if ok else n, ok))
				i = k + len(tag) if ok else n
				continue
			if i + 1 < n and is_digit(text[i + 1]):
				j = i + 1
				while j < n and is_digit(text[j]):
					j += 1
				out.append(('n', text[i:j], i, j, True))
				i = j
				continue
			out.append(('p', c, i, i + 1, True))
			i += 1
			continue
		if is_ident_start(c):
			v = fold(c)
			j = i + 1
			while j < n and is_ident_part(text[j]):
				v = v + fold(text[j])
				j += 1
			out.append(('w', v, i, j, True))
			i = j
			continue
		if is_digit(c):
			j = i
			while j < n and is_digit(text[j]):
				j += 1
			out.append(('n', text[i:j], i, j, True))
			i = j
			continue
		out.append(('p', c, i, i + 1, True))
		i += 1
	return out


def quoted(text, i, q):
	"""text[i] is the quote q -> (value, end, terminated)"""
	v = ''
	n = len(text)
	j = i + 1
	while j < n:
		c = text[j]
		if c == q:
			if j + 1 < n and text[j + 1] == q:
				v = v + q
				j += 2
				continue
			return v, j + 1, True
		v = v + c
		j += 1
	return v, n, False
