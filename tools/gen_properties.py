import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)
PT='pkg/txt/piece_table.go'; ED='pkg/ed/ed.go'
p('C01','A piece table holds exactly the result of its edit history',
 "After any sequence of inserts and deletes, the text of a piece table is the source text with those edits applied in order, as if on a plain byte string; a delete that runs past the end removes everything from its start. This holds for every source that fulfils the io.ReaderAt contract (whole reads with or without io.EOF, at any length), for the zero-value table, and for edits at every boundary (start, end, empty text, zero length).",
 ['inputs','histories'],"every source text and every history of Insert(text, 0..len) and Delete(length>=0, 0..len), of any number and size",
 "Tests run a handful of fixed insert/delete pairs on one short string; the piece list has a different shape for every history, and errors need particular splits, adjoining edits and empty pieces.",
 [PT],[('piece list splitting','PieceTable.Insert'),('piece trimming','PieceTable.Delete'),('reassembly','PieceTable.String, piece.Read')],['txt.PieceTable.String'],
 [('pieces','list of spans of the source and of the append buffer',PT)])
p('C02','A piece table owns its text and leaves its source alone',
 "Text that was inserted into a piece table never changes afterwards, whatever the caller does with the byte slice it passed in and however much is inserted or deleted later. Reading the text has no effect: it gives the same result until the next edit, the source is never modified, and edits of one table never show in another table, also when both have the same source.",
 ['inputs','histories'],"every history of edits, reads and changes to the slices passed in, over one or more tables sharing a source",
 "Aliasing shows only after a later change to a shared slice or a growth of the shared append buffer; tests insert constants and never touch them again.",
 [PT],[('append buffer copy','PieceTable.Insert'),('snapshot readers','PieceTable.Insert (newPiece.reader)')],['txt.PieceTable.String','the source passed to NewPieceTable'])
p('C03',"ed's a, i, c and d edit the buffer as a sequence of lines",
 "After any sequence of valid a, i, c and d commands the buffer holds exactly the lines those commands leave when applied in order: text lines are added whole and unchanged after, before or in place of the addressed lines and all other lines stay as they were. This holds for lines with any bytes except newline (non-ASCII, carriage returns, empty, very long, looking like commands, starting with a period) and for a last line without a newline, to which nothing is ever joined.",
 ['inputs','histories'],"every initial text and every history of valid editing commands with text blocks of at least one line",
 "The end-to-end tests run one command each on a three-line ASCII buffer.",
 [ED,'pkg/ed/ed.peg','pkg/ed/ed.peg.go',PT],[('line/offset mapping','Itor.getLines, getLineAddr'),('text input','ProcessCommands, multlineCmdStart'),('edits','Itor.insertBeforeLine, Delete, processCommand')],['output of p and n','Itor.String','written file'])
p('C04',"ed resolves addresses and moves the current line as POSIX says",
 "An address selects the line POSIX says it does: numbers, '.', '$', /re/ (forward from the line after the current one, wrapping around, the current line last), each with an optional +n, -n, + or - offset, alone or as a pair with ',' or ';' (';' makes the first address current while the second is evaluated) or with one side of the pair left out. After each command the current line is: the last line printed, the last line added by a, i or c (the addressed line if a or i were given no text, as after d for c), the line after those deleted or else the new last line, and unchanged by '=' and w; the null command prints the line after the current one.",
 ['inputs','histories'],"every buffer, every current line and every address form, in every command that takes addresses",
 "Tests try a dozen address forms on a three-line buffer with the current line at the end; the current line after a command is a function of the whole history.",
 [ED,'pkg/ed/address.go','pkg/ed/ed.peg','pkg/ed/ed.peg.go'],[('address resolution','Itor.addrLine, splitOffset, regexMatch'),('defaults','setDefaultAddresses'),('current line','processCommand')],['output of p, n, = and the null command'])
p('C05','ed answers each command once, in order, and prints nothing else',
 "Standard output holds, for each command read, exactly one answer (its output and a newline), in the order of the commands, no matter how the input arrives in pieces, how slowly the output is taken or what other editors run in the same process. Nothing is printed for or after q, nothing is lost at the end of the input, and nothing but answers goes to standard output.",
 ['schedules','inputs','histories'],"every script of commands, every chunking of the input, every speed of reader and writer, every number of concurrent editors",
 "Tests hand over the whole script at once and look at one answer; orderings depend on scheduling and chunking.",
 [ED,'cmd/ed/main.go'],[('command loop','Itor.ProcessCommands'),('CLI wiring','cmd/ed process')],['writer given to ProcessCommands','stdout of cmd/ed'])
p('C06','A command ed cannot carry out is answered with ? and changes nothing',
 "A line that is not a command, a command that is not implemented, an address out of range, a search without a match and an unreadable file are each answered with a line that starts with '?', and leave buffer, current line, remembered file name and files as they were; the commands after it work as if it had not been given. No input makes ed crash or hang, also not with an empty buffer.",
 ['inputs','histories'],"every input line in every buffer state (empty, one line, current line 0, unterminated last line)",
 "No test feeds ed an invalid command or address, or an empty buffer with anything but an append.",
 [ED,'pkg/ed/ed.peg','pkg/ed/ed.peg.go','pkg/ed/address.go'],[('address checks','processCommand'),('parse errors','ProcessCommands'),('search','regexMatch')],['writer given to ProcessCommands','Itor.String'])
p('C07','ed writes exactly the addressed lines, all or nothing',
 "When w is answered without '?', the named (or remembered) file holds exactly the addressed lines (the whole buffer if none are) byte for byte, with the permissions it had, and no other file is changed or left behind. At every moment, whether the process is killed or an operating system call fails, the file holds either its complete old or its complete new content; a write that fails is answered with '?' and the buffer can still be edited and written. e replaces the buffer by the content of the file, and later changes to the file do not change the buffer.",
 ['inputs','histories','crash_points','fault_sequences'],"every buffer and address range, every system call at which the process is killed or at which the call fails",
 "The one write test writes two lines once, without faults; crash points and failing system calls are not reachable from it.",
 [ED],[('write to a temporary file and rename','Itor.Write'),('load','Itor.Edit')],['the file system after w, after a kill and after a failing call'])
p('C08','A comparison loses nothing and invents nothing',
 "For any two lists of lines, the result of the comparison is a sequence of kept, removed and added lines from which both inputs can be rebuilt: the kept and removed lines are exactly the old list, the kept and added lines exactly the new list, in order. Equal lists give no removed or added lines, the removed and the added lines between two kept ones never have a line in common, and the inputs are not modified.",
 ['inputs'],"every pair of lists of lines, with repeated, empty and arbitrary lines, of any length",
 "There is no test of the package in the suite at all (a go-fuzz target exists but is not run).",
 ['pkg/diff/diff.go'],[('longest common run, recursion on both sides','Diff')],['diff.Diff','comparison.String'])
p('C09',"diff's output is a normal diff that turns the old file into the new",
 "The output of diff is a sequence of POSIX normal-format hunks (a, c, d, with correct line numbers for both files, in order and not overlapping, and with the lines of each file marked < and >), and applying it to the old file gives exactly the lines of the new file and back. It is empty exactly when the files have the same lines.",
 ['inputs'],"every pair of files, of any lengths and line contents (empty lines, lines that look like hunks, repeated lines, CR, long lines, non-ASCII)",
 "There is no test of the output; errors in line numbers need particular sequences of hunks.",
 ['pkg/diff/output.go','pkg/diff/diff.go','cmd/diff/main.go'],[('hunks and line counting','basicOutput, fmtRange')],['diff.Format','stdout of cmd/diff'])
p('C10',"diff's exit status tells same, different and trouble apart",
 "diff exits 0 with nothing on standard output when the files have the same lines, 1 with the differences on standard output when they do not, and 2 with nothing on standard output and a message on standard error when an operand is missing, superfluous or cannot be read. The status does not depend on file sizes, options accepted or order of operands.",
 ['inputs','configurations'],"every pair of operands (readable, missing, directory, no permission, empty) and every accepted option list",
 "No test runs the program.",
 ['cmd/diff/main.go'],[('exit status','main'),('argument parsing','parseSettings')],['exit status, stdout and stderr of cmd/diff'])
p('C11','tsort prints every item once, in an order that respects every pair',
 "When an ordering exists, the result contains every item that was given exactly once and nothing else, and for every given pair (and every neighbouring pair of a longer chain) the first item comes before the second. This holds whatever the order and repetition of the pairs however often the same items were added alone, and however often a sorter is asked for its order, also between additions.",
 ['inputs','histories','schedules'],"every acyclic set of pairs, in every order of addition, under every iteration order of the maps involved",
 "Tests try four tiny inputs; the order in which Go iterates over maps changes from run to run.",
 ['pkg/tsort/tsort.go','cmd/tsort/main.go'],[('Kahn style removal','Sorter.Order, heads, isBlocked'),('recording of pairs','Sorter.Add')],['tsort.Sorter.Order','stdout of cmd/tsort'])
p('C12','tsort fails exactly when the ordering is impossible',
 "tsort reports an error exactly when the given pairs of different items contain a cycle; then it prints no items and exits non-zero. A pair of two equal items on the command line's input only says that the item exists, an odd number of words or an unreadable file is an error, and an empty input gives an empty result.",
 ['inputs','histories','schedules'],"every set of pairs, cyclic or not, with the cycle anywhere (also behind or before acyclic parts)",
 "One test has a two-item cycle; cycles that are only reachable through sorted items are not tried.",
 ['pkg/tsort/tsort.go','cmd/tsort/main.go'],[('leftover detection','Sorter.Order'),('input pairing','cmd/tsort run')],['error of Sorter.Order','exit status and stdout of cmd/tsort'])
p('C13','Options are parsed by the POSIX utility syntax guidelines',
 "For any command line of registered options, parsing sets exactly the options given and returns exactly the operands: options without value can be bundled, a value is the rest of the argument or else the whole next argument whatever it looks like, the last occurrence wins, and the first argument that is '-' or does not begin with '-', or the one after '--', begins the operands. Integer values are read as Go integer literals (decimal, 0x, leading 0).",
 ['inputs','configurations'],"every list of registered option letters (of any script) with their kinds and every argument list over them",
 "Tests cover single options and one bundle each; combinations of bundling, attached values and terminators are unbounded.",
 ['pkg/flag/parse.go','pkg/flag/flag.go'],[('argument loop','Parser.Parse'),('values','execute methods')],['return values of Parser.Parse and the registered variables'])
p('C14','A bad command line is reported as an error, never a crash',
 "An unknown option, an option whose value is missing and an integer option whose value is not an integer each make parsing return an error and no operands; parsing never panics, and a command line without such a fault is never rejected. Options before the faulty one keep the values they were given and options after it are not set.",
 ['inputs','configurations'],"every argument list, over registered and unregistered option letters",
 "Tests of errors cover one non-integer; the missing value and the unknown letter inside a bundle are not tried.",
 ['pkg/flag/parse.go','pkg/flag/flag.go'],[('missing value','Parser.Parse'),('integer conversion','intFlag.execute')],['error of Parser.Parse and the registered variables'])
p('C15','A BRE matches exactly the strings it describes',
 "A regular expression made of ordinary characters, '.', bracket lists, the repetitions '*', {m}, {m,} and {m,n}, and the anchors '^' at the start and '$' at the end matches a string exactly when some substring (at the anchored end or ends, if anchored) is a concatenation of runs of adjacent characters its elements allow. Matching works on characters, not bytes, is not affected by earlier matches, and backtracks whenever a shorter run is needed.",
 ['inputs'],"every regular expression of that form and every string",
 "About forty fixed pairs; a wrong repetition or anchor rule shows only for particular combinations of neighbouring elements.",
 ['pkg/regexes/bre.go','pkg/regexes/bre_evaluate.go'],[('parser','ParseBre, parseCount'),('backtracking matcher','Bre.Matches, elementsMatch')],['Bre.Matches'])
p('C16','locale prints the effective value of every category',
 "locale prints LANG, then LC_COLLATE, LC_CTYPE, LC_MESSAGES, LC_MONETARY, LC_NUMERIC and LC_TIME, then LC_ALL, one per line: a category shows LC_ALL in double quotes if that is set and not empty, else its own variable unquoted if set and not empty, else LANG in double quotes; LANG is shown in double quotes and LC_ALL as it is. Values appear verbatim, whatever characters they contain.",
 ['inputs','configurations'],"every combination of set, empty and unset variables and every value",
 "No test runs the program or looks at the precedence; there are 3^8 combinations of set, empty and unset.",
 ['pkg/locale/locale.go','cmd/locale/main.go'],[('precedence','Locale.getVal'),('output','Locale.String'),('environment','FromEnv')],['stdout of cmd/locale'])
p('C17','A locale definition is accepted exactly when it is well formed',
 "Definition files whose categories have a proper header and trailer, only keywords of that category and values of the kind the keyword takes are accepted, and none other is. Comment lines, empty lines, a changed comment or escape character, and lines continued with the escape character make no difference to the result, reading always comes to an end, and the monetary settings of the definition are exactly those in its text, whatever definitions were read before.",
 ['inputs'],"every sequence of categories, keywords and values, with every placement of comments, blank lines and continuations, and every truncation of it",
 "Tests parse six well-formed samples; the list of malformed ones is never run.",
 ['pkg/locale/localelex.go','pkg/locale/localedef.y','pkg/locale/y.go'],[('preprocessing','removeComments'),('lexer states','sCategory, getsGenericCategory, grab functions'),('grammar','localedef.y')],['result of parsing with NewLexer'])
p('C18','cat writes its inputs one after the other, byte for byte',
 "cat's standard output is exactly the concatenation of the readable operands' contents in order ('-' or no operand being standard input), whatever the bytes and sizes. An operand that cannot be read is reported on standard error and makes the exit status non-zero without affecting the others; otherwise the status is 0 and -u changes nothing.",
 ['inputs','configurations'],"every list of operands (readable, missing, directory, '-', repeated) and every content",
 "No test runs the program.",
 ['cmd/cat/main.go'],[('copy loop','write, writeFile, main')],['stdout, stderr and exit status of cmd/cat'])
p('C19','cksum prints the POSIX checksum and length of every input',
 "For each operand in order, cksum prints one line with the POSIX CRC of the file's bytes followed by their count (polynomial 0x04C11DB7, complemented), the byte count and the operand as given; without operands it reads standard input and prints no name. A file that cannot be read makes the exit status non-zero and no line is printed for it.",
 ['inputs'],"every content and every length (the count enters the CRC byte by byte) and every list of operands",
 "No test computes a checksum; a wrong entry of the 256-entry table shows only for data that reaches it.",
 ['cmd/cksum/cksum.go','cmd/cksum/main.go'],[('CRC table and loop','memcrc, crctab'),('output','run, main')],['stdout and exit status of cmd/cksum'])
p('C20','cmp finds the first difference, or all of them with -l',
 "cmp exits 0 and prints nothing for identical files and 1 for different ones; it prints the number of the first differing byte and its line, or with -l every differing byte's number and both values in octal, or with -s nothing at all. When one file is a prefix of the other it says so on standard error (not with -s), and a file that cannot be opened or read makes it exit 2.",
 ['inputs','configurations'],"every pair of files (any bytes and sizes, '-' for one of them) and every option",
 "No test runs the program; boundaries (difference at the first or last byte, after newlines, at a buffer boundary) are not sampled.",
 ['cmd/cmp/main.go'],[('byte loop','cmp'),('arguments','parseSettings')],['stdout, stderr and exit status of cmd/cmp'])
p('C21','head copies the first lines of each file unchanged',
 "For each operand head writes exactly its first n lines (10 unless -n is given) unchanged, including a last line without newline and lines of any length and bytes; if there are fewer it writes the whole file. With several operands each part is preceded by the line '==> name <==' and separated from the previous part by an empty line; without operands, or for '-', it reads standard input, and a file that cannot be read makes the exit status non-zero.",
 ['inputs','configurations'],"every content, every n >= 0, every list of operands",
 "No test runs the program.",
 ['cmd/head/main.go'],[('line loop','process'),('arguments','parseSettings')],['stdout and exit status of cmd/head'])
p('C22','test evaluates expressions by the POSIX argument-count rules',
 "test exits 0 for a true expression, 1 for a false one and 2 with a message for one it does not understand, deciding by the number of arguments as POSIX does: none is false, one is true if not empty, two are '!' or a unary primary, three are first a binary primary and then a negated two-argument test, four a negated three-argument test. String primaries compare bytes, integer primaries compare decimal integers (anything else is an error), and file primaries tell what the file is.",
 ['inputs','configurations'],"every list of up to four arguments (also ones that look like operators in operand positions) and every kind of file",
 "No test runs the program; the interesting cases are operands that look like operators.",
 ['cmd/test/main.go','cmd/test/tests.go'],[('argument-count dispatch','parse'),('primaries','flagMap, infixMap')],['exit status of cmd/test'])
p('C23','kill sends the requested signal to every process named, and to no other',
 "kill sends the signal given with -s NAME (any case) or -NUMBER, or TERM if none is given, to each process operand exactly once and to no other process; signal 0 only checks. It exits 0 if all could be signalled and non-zero otherwise, still signalling the others; a signal name or operand it does not understand makes it exit non-zero without signalling any process, and it prints nothing on standard output.",
 ['inputs','configurations'],"every signal name and number and every list of live, finished and malformed process operands",
 "No test runs the program.",
 ['cmd/kill/main.go'],[('signal table','signalMap'),('loop over operands','main')],['signals received by target processes, exit status of cmd/kill'])
p('C24','An era description is taken apart exactly',
 "A description direction:offset:start:end:name:format gives exactly those six parts, the format being everything after the fifth colon (colons included) and the offset its integer value; it is an error exactly when there are fewer than six parts, the direction is neither '+' nor '-', or the offset is not a decimal integer, and no description makes it crash.",
 ['inputs'],"every byte string",
 "Tests take apart three fixed descriptions; missing and surplus colons, bad directions and offsets are not tried.",
 ['pkg/locale/time.go'],[('splitting','NewEra')],['locale.NewEra'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
