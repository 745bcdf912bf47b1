"""P31: error codes, and how server messages become exceptions and warnings."""
BOUNDS = ('codes: all strings of 5 printable ASCII characters (and of 0 to 7 in the thorough tier); fields: each named field and fields '
	'the driver has no name for, alone with 1 symbolic byte, in pairs, and all together; the message text with 2 symbolic bytes; '
	'client encodings utf-8, latin-1 and ascii; every severity, localized or not; with and without creator and cause')
OUTSIDE = 'messages without a severity, code or message field (not conforming); how an exception is printed'
ASSUMPTIONS = ('the tables of codes below are the declared ones (reviewed against errcodes.txt of PostgreSQL 16)',)
REACH = ('declared code', 'class of the code', 'generic', 'undecodable field', 'fatal', 'not fatal', 'warning', 'notice', 'client')

ERRORS = """
	DriverError --000; AuthenticationMethodError --AUT; InsecurityError --SEC; ConnectTimeoutError --TOE; TypeIOError --TIO;
	ParameterError --PIO; ColumnError --CIO; CompositeError --cIO; OperationError --OPE; SQLNotYetCompleteError 03000;
	ConnectionError 08000; ConnectionDoesNotExistError 08003; ConnectionFailureError 08006; ClientCannotConnectError 08001;
	ConnectionRejectionError 08004; TransactionResolutionUnknownError 08007; ProtocolError 08P01; TriggeredActionError 09000;
	FeatureError 0A000; TransactionInitiationError 0B000; LocatorError 0F000; LocatorSpecificationError 0F001;
	GrantorError 0L000; GrantorOperationError 0LP01; RoleSpecificationError 0P000; CaseNotFoundError 20000;
	CardinalityError 21000; TriggeredDataChangeViolation 27000; AuthenticationSpecificationError 28000; DPDSEError 2B000;
	DPDSEObjectError 2BP01; SREError 2F000; FunctionExecutedNoReturnStatementError 2F005;
	DataModificationProhibitedError 2F002; StatementProhibitedError 2F003; ReadingDataProhibitedError 2F004; EREError 38000;
	ContainingSQLNotPermittedError 38001; ModifyingSQLDataNotPermittedError 38002; ProhibitedSQLStatementError 38003;
	ReadingSQLDataNotPermittedError 38004; ERIEError 39000; InvalidSQLState 39001; NullValueNotAllowed 39004;
	TriggerProtocolError 39P01; SRFProtocolError 39P02; TRError 40000; DeadlockError 40P01;
	IntegrityConstraintViolationError 40002; SerializationError 40001; StatementCompletionUnknownError 40003; ITSError 25000;
	ActiveTransactionError 25001; BranchAlreadyActiveError 25002; BadAccessModeForBranchError 25003;
	BadIsolationForBranchError 25004; NoActiveTransactionForBranchError 25005; ReadOnlyTransactionError 25006;
	SchemaAndDataStatementsError 25007; InconsistentCursorIsolationError 25008; NoActiveTransactionError 25P01;
	InFailedTransactionError 25P02; SavepointError 3B000; InvalidSavepointSpecificationError 3B001;
	TransactionTerminationError 2D000; IRError 53000; MemoryError 53200; DiskFullError 53100; TooManyConnectionsError 53300;
	ONIPSError 55000; ObjectInUseError 55006; ImmutableRuntimeParameterError 55P02; UnavailableLockError 55P03;
	SEARVError 42000; SEARVNameError 42602; NameTooLongError 42622; ReservedNameError 42939; ForeignKeyCreationError 42830;
	InsufficientPrivilegeError 42501; GroupingError 42803; RecursionError 42P19; WindowError 42P20; SyntaxError 42601;
	CoercionError 42846; TypeMismatchError 42804; IndeterminateTypeError 42P18; WrongObjectTypeError 42809;
	UndefinedColumnError 42703; UndefinedFunctionError 42883; UndefinedTableError 42P01; UndefinedParameterError 42P02;
	UndefinedObjectError 42704; DuplicateColumnError 42701; DuplicateCursorError 42P03; DuplicateDatabaseError 42P04;
	DuplicateFunctionError 42723; DuplicatePreparedStatementError 42P05; DuplicateSchemaError 42P06; DuplicateTableError 42P07;
	DuplicateAliasError 42712; DuplicateObjectError 42710; AmbiguousColumnError 42702; AmbiguousFunctionError 42725;
	AmbiguousParameterError 42P08; AmbiguousAliasError 42P09; ColumnReferenceError 42P10; ColumnDefinitionError 42611;
	CursorDefinitionError 42P11; DatabaseDefinitionError 42P12; FunctionDefinitionError 42P13;
	PreparedStatementDefinitionError 42P14; SchemaDefinitionError 42P15; TableDefinitionError 42P16;
	ObjectDefinitionError 42P17; CursorStateError 24000; WithCheckOptionError 44000; CatalogNameError 3D000;
	CursorNameError 34000; StatementNameError 26000; SchemaNameError 3F000; ICVError 23000; RestrictError 23001;
	NotNullError 23502; ForeignKeyError 23503; UniqueError 23505; CheckError 23514; DataError 22000;
	StringRightTruncationError 22001; StringDataLengthError 22026; ZeroLengthString 2200F; EncodingError 22021;
	ArrayElementError 2202E; SpecificTypeMismatch 2200G; NullValueNotAllowedError 22004; NullValueNoIndicatorParameter 22002;
	ZeroDivisionError 22012; FloatingPointError 22P01; AssignmentError 22005; IndicatorOverflowError 22022; BadCopyError 22P04;
	TextRepresentationError 22P02; BinaryRepresentationError 22P03; UntranslatableCharacterError 22P05;
	NonstandardUseOfEscapeCharacterError 22P06; NotXMLError 2200L; XMLDocumentError 2200M; XMLContentError 2200N;
	XMLCommentError 2200S; XMLProcessingInstructionError 2200T; DateTimeFormatError 22007;
	TimeZoneDisplacementValueError 22009; DateTimeFieldOverflowError 22008; IntervalFieldOverflowError 22015;
	LogArgumentError 2201E; PowerFunctionArgumentError 2201F; WidthBucketFunctionArgumentError 2201G;
	CastCharacterValueError 22018; EscapeCharacterError 2200C; EscapeOctetError 2200D; EscapeSequenceError 22025;
	EscapeCharacterConflictError 2200B; SubstringError 22011; TrimError 22027; IndicatorParameterValueError 22010;
	LimitValueError 2201W 22020; OffsetValueError 2201X; ParameterValueError 22023; RegularExpressionError 2201B;
	NumericRangeError 22003; UnterminatedCStringError 22024; InternalError XX000; DataCorruptedError XX001;
	IndexCorruptedError XX002; SIOError 58000; UndefinedFileError 58P01; DuplicateFileError 58P02; CFError F0000;
	LockFileExistsError F0001; OIError 57000; QueryCanceledError 57014; AdminShutdownError 57P01; CrashShutdownError 57P02;
	ServerNotReadyError 57P03; PLPGSQLError P0000; PLPGSQLRaiseError P0001; PLPGSQLNoDataFoundError P0002;
	PLPGSQLTooManyRowsError P0003;
"""
WARNINGS = """
	Warning 01000; DriverWarning 01-00; IgnoredClientParameterWarning 01-CP; TypeConversionWarning 01-TP;
	DeprecationWarning 01P01; DynamicResultSetsReturnedWarning 0100C; ImplicitZeroBitPaddingWarning 01008;
	NullValueEliminatedInSetFunctionWarning 01003; PrivilegeNotGrantedWarning 01007; PrivilegeNotRevokedWarning 01006;
	StringDataRightTruncationWarning 01004; NoDataWarning 02000; NoMoreSetsReturned 02001;
"""


def table(text):
	r = {}
	for t in text.replace('\n', ' ').replace('\t', ' ').split(';'):
		t = t.split()
		for c in t[1:]:
			r[c] = t[0]
	return r


ERRORS, WARNINGS = table(ERRORS), table(WARNINGS)
PRINTABLE = ''.join(chr(c) for c in range(32, 127))

NAMES = {
	b'D': 'detail', b'H': 'hint', b'W': 'context', b'P': 'position', b'p': 'internal_position', b'q': 'internal_query', b'F': 'file',
	b'L': 'line', b'R': 'function',
}
SEVERITIES = ('ERROR', 'FATAL', 'PANIC', 'WARNING', 'NOTICE', 'DEBUG', 'INFO', 'LOG')


def expected(sx, code, names, generic):
	"""the name of the class declared for the code, else for its class, else the generic one"""
	n = names.get(code)
	if n is not None:
		sx.reach('declared code')
		return n
	n = names.get(code[:2] + '000')
	if n is not None:
		sx.reach('class of the code')
		return n
	sx.reach('generic')
	return generic


def lookup(sx, warning, n=5, first=None):
	import postgresql.exceptions as x
	code = sx.str('code', n, alphabet=PRINTABLE)
	if first is not None:
		sx.assume(sx.all(first[0] <= code[0], code[0] <= first[1]))
	got = (x.WarningLookup if warning else x.ErrorLookup)(code)
	sx.observe('class', getattr(got, '__name__', got))
	sx.check(isinstance(got, type) and issubclass(got, x.Warning if warning else x.Error), 'what is looked up is no class of its kind')
	want = expected(sx, code, WARNINGS if warning else ERRORS, 'Warning' if warning else 'Error')
	sx.check(got.__name__ == want, 'a code is mapped to another class')
	sx.check(getattr(x, want) is got, 'the class is not the one the module declares')


class Database:
	_e_factors = ()

	def __init__(self):
		self.told = []

	def msghook(self, m):
		self.told.append(m)
		return 1


def typio(encoding):
	from postgresql.driver import pq3
	t = pq3.TypeIO.__new__(pq3.TypeIO)
	t.database = Database()
	t.set_encoding(encoding)
	return t


def text(sx, b, encoding):
	try:
		return b.decode(encoding)
	except UnicodeDecodeError:
		sx.reach('undecodable field')
		return repr(b)[2:-1]


def pick(sx, vary, name, options):
	return sx.choose(name, options) if vary else options[0] if not isinstance(options, int) else 0


def message(sx, fields, sizes, encoding, severity, code, unlocalized):
	"""the fields of a server's message -> (items, details expected, text expected)"""
	items = [(b'S', severity)]
	want = {'severity': severity.decode(encoding)}
	if unlocalized is not None:
		items.append((b'V', unlocalized))
	items.append((b'C', code))
	m = sx.bytes('M', sizes) if sizes and not fields else b'message'
	items.append((b'M', m))
	for f in fields:
		f = f.encode()
		b = sx.bytes('f' + f.decode(), sizes) if sizes else b'field ' + f
		items.append((f, b))
		if f in NAMES:
			want[NAMES[f]] = text(sx, b, encoding)
	return items, want, text(sx, m, encoding)


def details(sx, got, want):
	for k, v in want.items():
		if k not in got:
			sx.fail('a field of the message is lost')
		sx.check(sx.same(got[k], v), 'a field of the message is altered')
	sx.check(not (set(got) - set(want) - {'severity_nonlocalized'}), 'the exception has a field that the message has not')


def server(sx, fields, sizes=1, encoding='utf-8', kind='error', vary=False):
	"""an error of the server is raised with everything it says"""
	import postgresql.exceptions as x
	from postgresql.protocol import element3 as e
	t = typio(encoding)
	sev = pick(sx, vary, 'severity', SEVERITIES[:3]).encode()
	how = pick(sx, vary, 'localized', ('old', 'same', 'translated'))
	local = {'translated': 'ВАЖНО'.encode('utf-8' if encoding == 'utf-8' else 'iso-8859-5'), 'old': sev, 'same': sev}[how]
	if how == 'translated' and encoding != 'utf-8':
		local = b'WICHTIG'
	code = pick(sx, vary, 'code', ('22012', '57P01', '57P77', 'ZZZZZ'))
	items, want, msg = message(sx, fields, sizes, encoding, local, code.encode(), None if how == 'old' else sev)
	c = object() if pick(sx, vary, 'creator', 2) else None
	cause = ValueError('cause') if pick(sx, vary, 'cause', 2) else None
	try:
		t.raise_error(e.Error(items), creator=c, cause=cause) if kind == 'error' else t.raise_server_error(e.Error(items), creator=c, cause=cause)
	except x.Error as exc:
		err = exc
	else:
		sx.fail('no exception is raised')
	sx.check(type(err).__name__ == expected(sx, code, ERRORS, 'Error'), 'raised as another class')
	sx.check(sx.same(err.code, code), 'the code is not the one given')
	sx.check(sx.same(err.message, msg), 'the message is not the one given')
	sx.check(err.source == 'SERVER', 'the source is not the server')
	sx.check(err.__cause__ is cause, 'the cause is lost')
	sx.check(err.creator is (c if c is not None else t.database), 'the creator is lost')
	details(sx, err.details, want)
	fatal = sev in (b'FATAL', b'PANIC')
	sx.reach('fatal' if fatal else 'not fatal')
	sx.check(bool(err.fatal) == fatal, 'the fatality does not follow the severity')


def emitted(sx, fields, sizes=1, encoding='utf-8', vary=False):
	"""what is not an error is emitted as a warning or message"""
	import postgresql.exceptions as x
	from postgresql import message as msg_
	from postgresql.protocol import element3 as e
	t = typio(encoding)
	sev = pick(sx, vary, 'severity', SEVERITIES[3:]).encode()
	how = pick(sx, vary, 'localized', ('old', 'same', 'translated'))
	local = {'translated': b'AVISO', 'old': sev, 'same': sev}[how]
	code = pick(sx, vary, 'code', ('01004', '01777', '02777', '02001', '25001', '00000'))
	items, want, msg = message(sx, fields, sizes, encoding, local, code.encode(), None if how == 'old' else sev)
	t.emit_message(e.Notice(items), creator=t.database)
	sx.check(len(t.database.told) == 1, 'the message is not emitted once')
	m = t.database.told[0]
	if sev == b'WARNING':
		sx.reach('warning')
		sx.check(type(m).__name__ == expected(sx, code, WARNINGS, 'Warning') and isinstance(m, x.Warning), 'emitted as another class')
	else:
		sx.reach('notice')
		sx.check(type(m) is msg_.Message, 'emitted as another class')
	sx.check(sx.same(m.code, code) and sx.same(m.message, msg) and m.source == 'SERVER', 'the message is not the one given')
	details(sx, m.details, want)


def client(sx, kind):
	"""messages of the client itself"""
	import postgresql.exceptions as x
	from postgresql.protocol import element3 as e
	t = typio('utf-8')
	sev = sx.choose('severity', SEVERITIES[:3] if kind == 'error' else SEVERITIES[3:])
	code = sx.str('code', 5, alphabet=PRINTABLE) if kind == 'error' else '01-CP'
	if kind == 'error':
		sx.assume(sx.all(code[0] == '-', code[1] == '-'))
	items = [(b'S', sev), (b'C', code), (b'M', sx.str('M', 2)), (b'D', sx.str('D', 1)), (b'H', sx.str('H', 1))]
	want = {'severity': sev, 'detail': items[3][1], 'hint': items[4][1]}
	sx.reach('client')
	if kind == 'error':
		try:
			t.raise_error(e.ClientError(items))
		except x.Error as err:
			m = err
		else:
			sx.fail('no exception is raised')
		sx.check(type(m).__name__ == expected(sx, code, ERRORS, 'Error'), 'raised as another class')
		sx.check(bool(m.fatal) == (sev in ('FATAL', 'PANIC')), 'the fatality does not follow the severity')
	else:
		t.emit_message(e.ClientNotice(items), creator=t.database)
		sx.check(len(t.database.told) == 1, 'the message is not emitted once')
		m = t.database.told[0]
		sx.check(type(m).__name__ == ('IgnoredClientParameterWarning' if sev == 'WARNING' else 'Message'), 'emitted as another class')
	sx.check(sx.same(m.code, code) and sx.same(m.message, items[2][1]) and m.source == 'CLIENT', 'the message is not the one given')
	details(sx, m.details, want)


def tasks(tier):
	t = []
	for lo, hi in ((' ', '1'), ('2', '2'), ('3', '3'), ('4', '4'), ('5', '~')):
		t.append(dict(fn='lookup', params=dict(warning=False, first=[lo, hi]), weight=5))
	t.append(dict(fn='lookup', params=dict(warning=True)))
	if tier == 'thorough':
		for n in (0, 1, 2, 3, 4, 6, 7):
			t += [dict(fn='lookup', params=dict(warning=w, n=n)) for w in (False, True)]
	for enc in ('utf-8', 'latin-1', 'ascii'):
		for fn in ('server', 'emitted'):
			t.append(dict(fn=fn, params=dict(fields='DHWPspqtFLRc', sizes=0, encoding=enc, vary=True)))
			t.append(dict(fn=fn, params=dict(fields='', sizes=2 if tier == 'quick' or enc != 'utf-8' else 3, encoding=enc)))
			for fields in ('D', 'H', 'W', 'P', 'p', 'q', 'F', 'L', 'R', 'c') if enc == 'utf-8' or tier == 'thorough' else ('D',):
				t.append(dict(fn=fn, params=dict(fields=fields, sizes=1, encoding=enc, vary=False)))
			for fields in ('DH', 'Fc', 'cR'):
				t.append(dict(fn=fn, params=dict(fields=fields, sizes=1, encoding=enc)))
			if tier == 'thorough':
				t.append(dict(fn=fn, params=dict(fields='D', sizes=2, encoding=enc, vary=True)))
	t.append(dict(fn='server', params=dict(fields='DHWPspqtFLRc', sizes=0, kind='server', vary=True)))
	t += [dict(fn='client', params=dict(kind=k)) for k in ('error', 'notice')]
	return t
