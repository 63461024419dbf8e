#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (a development tool; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ABS = 'automata over MIR: path-sensitive abstract interpretation, equivalence with a specification automaton'
NOTE = ('All paths of the analysed functions, for every input, up to the abstraction (DESIGN.md, "The interpreter"): words, numbers and nodes are symbolic, long '
        'repetitions are summarised. Trusts rustc\'s MIR, the library models of the interpreter, and the reviewed specification automata. A function the '
        'interpreter cannot follow is reported as undecided in the evidence, not as a violation.')
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=ABS, note=NOTE, level='other', observe=None):
    assert len(title) <= 80, (len(title), title)
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe))


PA = 'src/parse.rs'
prop('C01', 'No input makes the lexer, the parser or the AST builder panic',
     'Lexing and parsing never panic: for every input character sequence and every token sequence, each public parsing entry point returns a value or an error. '
     '(Exhausting the stack by nesting and overflowing a machine-word count of bytes, lines or columns are excluded.)',
     ['inputs'], 'every token stream handed to any production of the parser, every builder outcome',
     'The tests call the productions on some hundreds of token sequences; a panic hides in one look-ahead combination that none of them has (a backslash as the last token of an unquoted heredoc was one).',
     [PA, 'src/lexer.rs', 'src/parse/iter.rs', 'src/ast/builder/default_builder.rs'], [('unreachable!/unwrap/expect/index sites', PA), ('eat! and eat_maybe! macros', PA)],
     technique='abstract interpretation of MIR: reachability of panic sources')
prop('C02', 'Parsing terminates: no loop or recursion runs without consuming input',
     'Every parsing operation on a finite input terminates: no loop in it, and no chain of grammar rules calling each other, can go round without having taken at least one token from the input. '
     'Iterating a parser over a finite input therefore ends.',
     ['inputs'], 'every finite token stream, every production, every outcome of nested productions and builder calls',
     'A hang needs one specific look-ahead at which a loop sees something it neither consumes nor refuses; tests sample a few look-aheads per loop.',
     [PA], [('loops over commands, words, redirects, newlines', PA), ('mutual recursion of the productions', PA)],
     technique='progress analysis: nullable outcomes as a fixpoint, cycles without a consuming event in the automata and the call graph')
prop('C03', 'The first error stops the parse and is the error that is returned',
     'When a nested construct fails to parse or the builder rejects a node, the parse of every enclosing construct ends at once: no more input is taken, the builder is not called again, and exactly that error is returned. '
     'A builder error is returned as a custom parse error holding the builder\'s value.',
     ['inputs', 'fault_sequences'], 'every production, every nested call in it, every point at which it fails, including a builder failing at any of its calls',
     'The default builder of the tests never fails, and each nested call has an error path of its own that tests hardly enter.',
     [PA], [('? on nested productions and builder calls', PA)],
     technique='automata over MIR: every failing call must lead only to the return of its error')
prop('C04', 'Everything recognised reaches the builder: nothing is dropped or doubled',
     'Each command, word, redirect, comment and body a production obtains from a nested one is handed on exactly once, in source order and in its proper role, to the builder or to the caller. '
     'The only parts dropped are the text of a file descriptor number turned into the redirect\'s number and the empty parentheses of a function definition.',
     ['inputs'], 'every production and every path through it that succeeds',
     'Tests compare whole trees for chosen inputs; a comment or a redirect that is lost only in a rare combination goes unnoticed.',
     [PA], [('arguments of builder calls, values returned by productions', PA)])
prop('C05', 'Errors name the right cause at the right source position',
     'A syntax error reports the offending token and the position where that token starts, an unclosed construct reports its opening word or bracket and its position, and input that ends too early is reported as such. '
     'Which kind of error a construct raises for which next token is fixed for every construct.',
     ['inputs'], 'every production, every token that cannot continue it',
     'The tests check a handful of error positions, mostly on one line; each production has many error exits.',
     [PA], [('make_unexpected_err and the explicit ParseError values', PA)])
prop('C06', 'if, loops, for, case, { }, ( ) accept exactly their grammar and keep its parts',
     'The compound commands are recognised exactly by the shell grammar with the reserved words in command position and the separators where the grammar wants them, an empty body being an error. '
     'Guards, bodies, else parts, loop words, case patterns, comments and trailing redirects end up in the corresponding parts of the result.',
     ['inputs'], 'every token stream at the start of a compound command',
     'Tests try each command with a few layouts of newlines, comments and missing parts; the combinations are unbounded.',
     [PA], [('compound_command_internal, if_command, loop_command, for_command, case_command, brace_group, subshell, do_group', PA)])
prop('C07', 'Command lists: && || | ! ; & and newlines group and associate as specified',
     'Commands are joined left to right by && and ||, pipelines by | with an optional leading !, complete commands are ended by ;, & (making them a job), a newline or the end, and line breaks are allowed exactly after && || |. '
     'A group of commands ends exactly at the closing word or token its context asks for, and comments are attached to the neighbouring command.',
     ['inputs'], 'every token stream at the start of a command list, every delimiter set used by an enclosing construct',
     'The mix of separators, comments and closing words is unbounded; tests use a few.',
     [PA], [('complete_command, and_or_list, pipeline, command, command_group', PA)])
prop('C08', 'Simple commands: assignments, words and redirects are separated correctly',
     'In a simple command NAME=value words before the first command word are assignments, all later words are arguments, redirects may stand anywhere, and all keep their order. '
     'A command with none of the three is an error, and a word followed by a redirect operator is the descriptor only if it is one.',
     ['inputs'], 'every token stream at the start of a simple command',
     'Assignments, redirects and words interleave without bound; tests list a few orders.',
     [PA], [('simple_command, redirect_list', PA)])
prop('C09', 'Redirects: operator, descriptor and target are read as written',
     'Each redirect operator yields its own kind of redirect with the word after it as target and the number written immediately before it, if it is a decimal descriptor, as source descriptor. '
     'For <& and >& the target is a number or a dash (or something expandable), anything else is a bad descriptor error at the position of the target.',
     ['inputs'], 'every token stream at the start of a redirect, every word shape before and after the operator',
     'Word shapes (quoted, concatenated, expanding) times operators are only sampled; +5>file was read as descriptor 5.',
     [PA], [('redirect', PA)])
prop('C10', 'Heredocs: body lines, delimiter, <<- tabs, expansion and the rest of the line',
     'A heredoc\'s body is the lines after the current line up to one that consists exactly of the delimiter (with the tabs at the start of every line removed for <<-), taken literally if any part of the delimiter was quoted and with expansions otherwise. '
     'The remaining tokens of the line with the operator are parsed as if the body had not been there.',
     ['inputs'], 'every delimiter word, every body, every remainder of the line',
     'Bodies, quoting of the delimiter and what else is on the line are unbounded; three defects were found here.',
     [PA], [('redirect_heredoc', PA)])
prop('C11', 'Words: quoting, escapes and concatenation give the word that was written',
     'A word extends over exactly the adjacent tokens the shell grammar joins; single quotes keep everything, double quotes keep all but expansions and escapes of $ ` " \\ and newline, an unquoted backslash escapes the next token and a backslash-newline vanishes. '
     'Literal pieces that touch are joined into one, pieces of different kind stay separate in order.',
     ['inputs'], 'every token stream at the start of a word, with and without an outer delimiter',
     'A word is any sequence of some thirty kinds of token in three quoting modes.',
     [PA], [('word_preserve_trailing_whitespace_raw_with_delim, word_interpolated_raw', PA)])
prop('C12', 'Parameters and ${...}: every form maps to its own substitution',
     'After $ the special characters, single digits and names give their parameter; inside braces each operator (with or without colon, # ## % %%, length) gives its own substitution with the parameter and the optional word in place. '
     'A $ before anything else is a literal dollar, and malformed braces are a bad substitution error.',
     ['inputs'], 'every token stream after a $',
     'Parameters, operators, colon and word shapes multiply; tests sample the table.',
     [PA], [('parameter_raw, parameter_inner, parameter_substitution_raw, parameter_substitution_body_raw, parameter_substitution_word_raw', PA)])
prop('C13', 'Arithmetic: precedence, associativity and operators are those of the standard',
     'Inside $(( )) every operator binds by the standard\'s precedence and associativity and yields its own node with the left operand first; ** and ?: and assignment group to the right, all other binary operators to the left. '
     'Numbers are read as decimal, octal after 0 and hexadecimal after 0x; names, with or without $, are variables.',
     ['inputs'], 'every token stream after $((',
     'Chains of operators are unbounded and each precedence level looks ahead over several tokens; tests have one or two chains per level.',
     [PA], [('arithmetic_substitution, arith_*', PA)])
prop('C14', 'Backquoted command substitution: content, unescaping and end',
     'A backquoted substitution holds the commands up to the next unescaped backquote, with one level of backslashes before \\, $ and ` removed inside; an unclosed one is reported at its opening. '
     'It yields a command substitution with exactly those commands.',
     ['inputs'], 'every token stream after a backquote',
     'Nested levels of escaping are unbounded.',
     [PA, 'src/parse/iter.rs'], [('backticked_command_substitution, backticked_raw', PA)])
prop('C15', 'Function definitions: both forms, recognised exactly where they are one',
     'A command is a function definition exactly if it starts with the word function or with a name directly followed by parentheses; its name, the comments before its body and its body, any compound command with its redirects, are kept. '
     'A definition whose name is not a valid name is a bad identifier error at the name.',
     ['inputs'], 'every token stream at the start of a command',
     'Whitespace, line breaks and look-ahead of up to four tokens decide; tests sample them.',
     [PA], [('maybe_function_declaration, function_declaration, function_declaration_internal', PA)])
prop('C17', 'Comments and blank lines: a # starts a comment only where a word could start',
     'A newline, optionally after a comment which runs to the end of the line, is recognised as such with the comment\'s full text; blanks and escaped newlines before it are skipped. '
     'A run of them is collected completely and in order.',
     ['inputs'], 'every token stream at a line end',
     'Comment text can hold any token.',
     [PA], [('newline, linebreak', PA)])

LX = 'src/lexer.rs'
LNOTE = ('Every character stream, characters taken by class (each ASCII character, and other blanks, letters, digits and characters), texts of any length. Trusts '
         'rustc\'s MIR, the library models of the interpreter, and the definition of the token language in sa/lexer.py.')
prop('C18', 'The lexer cuts any text into the tokens of the shell\'s token language',
     'Operators are recognised by the longest match, $ with one digit is a positional parameter, blanks other than newline form one token per run, a name ends before the first character that cannot be part of a name, '
     'other characters form literals, and the character after a backslash is a token of its own. The tokens of any text have exactly these kinds and extents, and no character is lost between them.',
     ['inputs'], 'every character sequence',
     'Tokens depend on neighbours: which character comes after an operator, a name, a backslash. Tests list tokens, hardly their neighbours, and only few characters outside ASCII.',
     [LX], [('Lexer::next_internal, Iterator for Lexer', LX)],
     technique='abstract interpretation of MIR to a transducer, simulation against a reference definition of the tokens', note=LNOTE)
prop('C19', 'The tokens of the lexer spell exactly the text they were made from',
     'Every character of the input is in exactly one token, in order, and the source text of a token is the characters it was made from, so that joining the tokens gives back the input. '
     'After the end was reported no further token comes.',
     ['inputs'], 'every character sequence',
     'A lost or doubled character needs one combination of what is held back and what follows, such as the end of the input right after a backslash.',
     [LX], [('Lexer::peeked, next_internal', LX)],
     technique='abstract interpretation of MIR to a transducer, ownership ledger of characters', note=LNOTE)
prop('C20', 'Size hints are true bounds of what the iterators still yield',
     'At any time the lexer\'s size_hint announces a lower bound that is at most, and an upper bound that is at least, the number of tokens it still yields, given true hints of its source.',
     ['inputs', 'histories'], 'every character sequence, every moment of the iteration',
     'The hint depends on what has been read ahead, which differs after every token.',
     [LX], [('size_hint', LX)],
     technique='abstract interpretation of MIR to a transducer, shortest and longest distances', note=LNOTE)

IT = 'src/parse/iter.rs'
INOTE = ('Every token stream and every order of operations; up to three tokens waiting or looked ahead at, delimiters nested up to three deep, old positions kept by '
         'order only. Assumes no token is empty. Trusts rustc\'s MIR, the library models of the interpreter, and the reference in analyzer/src/iters.rs.')
ITECH = 'abstract interpretation of MIR under a most general client, compared step by step with a reference transducer'
prop('C21', 'Looking ahead in the token stream is invisible and keeps positions exact',
     'However far the parser looks ahead and however it puts tokens back, it is given every token of its input exactly once and in order, and after the end nothing more. '
     'At any moment the position it reports is that of the next token it will be given, counted from byte 0, line 1, column 1 or from where the sub-parser started.',
     ['inputs', 'histories'], 'every token stream, every interleaving of next, peek, multi-token look-ahead, putting tokens back and asking for the position',
     'Two unit tests exercise the buffer; a position that is off after a particular interleaving of look-ahead and push-back shows only in the position of a later error.',
     [IT], [('TokenIter, Multipeek, TokenIterWrapper', IT)], technique=ITECH, note=INOTE)
prop('C22', 'Text set aside unparsed extends exactly to the matching delimiter',
     'Where the parser sets tokens aside to parse or keep them later (the rest of a heredoc\'s line, backquoted commands, quoted words), they extend exactly to the matching quote, backquote, brace or parenthesis: '
     'nothing is special between single quotes, parentheses are not between double quotes except after $, and an escaped token never closes or opens anything. An unmatched delimiter is reported with its kind and position.',
     ['inputs'], 'every token stream, with or without an outer delimiter',
     'Delimiters nest without bound inside each other, with escapes in between; tests nest two. A parenthesis between double quotes inside backquotes was taken for an unmatched one.',
     [IT], [('Balanced', IT)], technique=ITECH, note=INOTE)
prop('C23', 'Inside backquotes one level of backslashes goes, and positions stay exact',
     'Of the tokens between backquotes exactly the backslashes directly before a $, a backquote or a backslash are removed, every other token stays and keeps its order. '
     'Every remaining token is still reported at its place in the original source, and an unclosed backquote or inner delimiter is an error at its opening.',
     ['inputs'], 'every sequence of tokens between backquotes',
     'Which backslashes go depends on runs of them, and positions on how many went before; tests have one or two.',
     [IT], [('BacktickBackslashRemover, token_iter_from_backticked_with_removed_backslashes', IT)], technique=ITECH, note=INOTE.replace('Every token stream and every order of operations', 'Every token stream; for the positions every sequence of up to five tokens'))

FNOTE = ('All paths of the analysed functions on symbolic arguments, results as terms over them; lists of up to three elements (words: all sequences of up to three '
         'pieces of the kinds that can be joined). Trusts rustc\'s MIR, the library models of the interpreter, and the reference functions in sa/funcs.py.')
FTECH = 'abstract interpretation of MIR: every path\'s result as a term, compared with a reference function'
TK = 'src/token.rs'
DB = 'src/ast/builder/default_builder.rs'
prop('C16', 'Reserved words and tokens count only as whole words in command position',
     'A reserved word (if, then, do, {, }, ! and so on) is recognised exactly if it stands alone as a token followed by a word delimiter or the end, is never found inside a longer word or a quoted one, and looking for it takes nothing but blanks from the input. '
     'When it is required and missing, the error names the token found.',
     ['inputs'], 'every token stream, every set of words and tokens asked for',
     'Whether a word is reserved depends on the token after it, of which there are dozens; tests use a blank or the end.',
     [PA], [('peek_reserved_token, peek_reserved_word, reserved_token, reserved_word', PA)])
prop('C24', 'Every token\'s text, length, emptiness and role as a delimiter are right',
     'as_str and the display of every token are exactly its source text, len is the number of bytes of that text and is_empty says whether it has none. '
     'is_word_delimiter holds exactly for newline, blanks, parentheses, separators, pipes and redirect operators; positional parameters convert to and from their number.',
     ['inputs'], 'every token kind, every text inside a token',
     'The tests touch some tokens; the tables have an entry for each of 45 kinds, and the parser\'s decisions and error positions hang on all of them.',
     [TK], [('Token::as_str, len, is_empty, is_word_delimiter, Positional', TK)], technique=FTECH, note=FNOTE)
prop('C25', 'The default builders put every part of a command in its place in the AST',
     'For each construct the default builders produce the AST node for it, holding exactly the parts they were given, in order and in the right fields: & makes a job, ! or several commands make a pipeline, comments alone are left out. '
     'The Rc and Arc builders differ only in the pointer and wrapper types.',
     ['inputs'], 'every construct with any parts, lists of any parts',
     'The tests of the parser use a builder that keeps words as text, or compare few whole trees; a field exchanged or a list shortened in one of fifteen node kinds is not seen.',
     [DB], [('Builder for CoreBuilder, DefaultBuilder, AtomicDefaultBuilder', DB)], technique=FTECH, note=FNOTE)
prop('C26', 'The default builders turn words into AST words without changing their meaning',
     'Every kind of word piece, parameter, substitution and arithmetic expression becomes its counterpart with its parts in order; neighbouring literals, single quotes and double quotes are joined, nothing else is, and a sequence of one piece is that piece. '
     'An error of a nested word is returned.',
     ['inputs'], 'every word: every piece, substitution, parameter and operator, sequences of pieces',
     'The joining of pieces depends on each neighbouring pair inside and outside quotes, and the tables have some eighty entries.',
     [DB], [('CoreBuilder::word, compress, Coalesce', DB)], technique=FTECH, note=FNOTE)
prop('C27', 'Iterating a parser gives its commands in order and ends once and for all',
     'Each step of the iterator over a parser parses exactly one complete command and gives exactly that command or error; after the end or an error every further step gives the end, and nothing more is parsed after an error. '
     'A parser reads exactly the tokens and calls exactly the builder it was made with, and reports its position in that token stream.',
     ['inputs', 'histories'], 'every sequence of results of the parser, every number of calls of next, also after the end',
     'An iterator that goes on after an error gives commands from the middle of a broken construct; the tests hardly call next after the end.',
     [PA], [('ParserIterator, IntoIterator for Parser, Parser::new, with_builder, pos', PA)], technique=ITECH,
     note='All call sequences of a client of the iterator. Trusts rustc\'s MIR and the library models of the interpreter.')
prop('C28', 'Messages and printed parameters show what they are about',
     'The message of every parse error shows the token, word or keyword and every source position (line:column) it holds; a custom error shows the inner error and is the only one with a cause. '
     'A parameter prints as the shell text that names it, with braces for names and for positions above 9.',
     ['inputs'], 'every error with any token and positions, every parameter',
     'Messages are checked by no test, and each error kind and token has its own text.',
     [PA, 'src/ast.rs'], [('Display and Error for ParseError', PA), ('Display for Parameter', 'src/ast.rs')], technique=FTECH, note=FNOTE)
prop('C29', 'Source positions advance by exactly the text of each token',
     'A position starts at byte 0, line 1, column 1; after a token the byte offset has grown by the token\'s length in bytes, the line by the newlines in it, and the column by its length, starting again at 1 after a newline. '
     'A position prints as line:column.',
     ['inputs', 'histories'], 'every token, every position',
     'A wrong step for one token kind shifts all later positions of a program that contains it, and few tests look at positions.',
     [PA], [('SourcePos::new, advance, advance_tabs, Display', PA)], technique=FTECH, note=FNOTE)
prop('C30', 'EmptyBuilder accepts everything; &mut B and Box<B> behave like B',
     'Every method of EmptyBuilder succeeds with the unit value whatever it is given. '
     'Every method of a mutable reference to a builder or of a boxed builder calls the same method of the builder with the same arguments exactly once and returns its result.',
     ['inputs'], 'every method, every argument, every outcome',
     'No test parses through a reference or a box, and there are forty-five such methods.',
     ['src/ast/builder.rs', 'src/ast/builder/empty_builder.rs'], [('impl_builder_body!', 'src/ast/builder.rs'), ('Builder for EmptyBuilder', 'src/ast/builder/empty_builder.rs')], technique=FTECH, note=FNOTE)

prop('C31', 'Parsing depends on nothing but its input, and touches nothing outside of it',
     'Lexing, parsing and building an AST depend only on the characters or tokens, the builder and the calls made: the library keeps no global, shared or thread-local state, reads no environment, file, clock, random number or address, '
     'writes no output, and contains no unsafe code. Two runs over the same input give the same results, whatever was parsed before or at the same time.',
     ['inputs', 'histories', 'schedules'], 'every function of the library',
     'A dependence on what happened before in the process or thread shows only in a long-lived process; each test parses one short input.',
     [PA, 'src/lexer.rs', DB, IT, TK, 'src/ast.rs', 'src/ast/builder.rs'], [('all bodies of the crate', 'src/lib.rs')],
     technique='effect analysis over MIR: references to functions and statics of every body, unsafe code',
     note='Every body of the crate. Standard library functions outside the listed modules are taken to depend on their arguments only; code reached through type parameters is the user\'s.')

prop('C32', 'Atomic ASTs, tokens, errors, lexers and parsers can cross threads; builders box',
     'Commands and words of the atomic builders, tokens, positions and parse errors are Send and Sync whenever the user\'s types are; lexers and parsers are whenever their source and builder are, and borrow nothing else. '
     'Builder can be used as a trait object, lent or boxed, and with any error type; ASTs, tokens and errors can be compared, cloned and shown.',
     ['programs'], 'every instantiation of the type parameters',
     'These are promises about all user types; two tests instantiate two of them. One shared pointer of the wrong kind deep in the AST breaks them for every user and no test.',
     ['src/ast.rs', DB, PA, 'src/lexer.rs', TK, 'src/ast/builder.rs'], [('AtomicShellPipeableCommand, AtomicTopLevelCommand, AtomicTopLevelWord', 'src/ast.rs'), ('Builder', 'src/ast/builder.rs'), ('Parser, ParseError', PA)],
     technique='type-level witnesses: a crate of generic trait obligations checked by rustc',
     note='Decided by the type checker for all instantiations at once. Trusts rustc\'s trait solver; auto traits say nothing about unsafe code, which C31 excludes.')

prop('C33', 'Equality is structural, copies are equal, and the AST wrappers are transparent',
     'Two tokens, positions, errors, builder fragments or AST nodes are equal exactly if they are of the same kind and all their parts are equal, and a clone has the same kind and parts as the original. '
     'A top-level command or word is made from, dereferences to and compares with exactly the command or word inside.',
     ['inputs'], 'every pair of values of every public type',
     'All other tests compare with ==: an equality that leaves out one field of one node makes them all blind to it.',
     ['src/ast.rs', 'src/ast/builder.rs', TK, PA], [('PartialEq and Clone of every public type', 'src/ast.rs'), ('impl_top_level_cmd!, impl_top_level_word!', 'src/ast.rs')],
     technique=FTECH.replace('a reference function', 'the definition of the type'),
     note='All paths on symbolic values; parts are compared by their own equality, which is decided for the crate\'s types and trusted for the standard library\'s.')

prop('C34', 'Parsing takes time, memory and stack in proportion to its input',
     'The work, memory and stack a parse takes grow at most linearly with the length of the input, except for heredocs and backquotes nested in each other, whose text is read once per level.',
     ['inputs'], 'every input', 'The tests parse inputs of a few tokens.', [PA, 'src/lexer.rs', IT], [('Parser, Lexer, TokenIter', PA)],
     technique='', note='')
prop('C35', 'A script means to a POSIX shell what its AST says',
     'A script is accepted exactly if a POSIX shell accepts it as syntactically valid, and the AST describes the program that shell would run.',
     ['inputs'], 'every script', 'Tests compare with what their author expected, not with a shell.', [PA, 'src/lexer.rs', DB], [('Parser', PA)],
     technique='', note='')

NA = [('C34', 'A bound on time, memory or stack is a sum over a run: how often the same tokens are looked at again depends on the contents of the input (runs of blanks, nesting), and no static cost analysis for MIR is in reach here; '
              'the stack is in fact not bounded, since the grammar is parsed by recursion. That every loop and every recursion takes input is C02.'),
      ('C35', 'The reference is the behaviour of another program, and where the crate departs from the standard on purpose (extensions such as `function`, `;;` handling, `foo (bar)`) only a judgement decides. '
              'The parts of the standard that can be written down are the specifications of C05 to C19.')]


def write():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
    claimed = [p for p in P if p['pid'] not in {n for n, _ in NA}]
    m = {'version': 1, 'setup_cmd': 'python3 sa/setup.py',
         'checks': [{'property': p['pid'], 'quick_cmd': 'python3 sa/run.py %s' % p['pid'], 'thorough_cmd': 'python3 sa/run.py %s --thorough' % p['pid'],
                     'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in claimed],
         'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    write()
